// C03: everything that must be unpredictable or unique takes fresh output of the system's generator, all of it.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "rng.hpp"
#include "rsakeys.hpp"
#include <gmp.h>
#include "mbedtls/rsa.h"
#include <set>
using namespace mc;

static Wrapper& wr() { static Wrapper w(mk<32>(9)); return w; }
static Prg& aPrg() { static Prg p(mk<32>(8)); return p; }
static Cipher& ciph() { static Cipher c(mk<32>(7)); return c; }
static Tdp& tdp() { static Tdp t(RSA_KEYS[0].pub); return t; }
static TdpInverse& tdpi() { static TdpInverse t(RSA_KEYS[1].priv); return t; }
static TdpMultPool& pool() { static TdpMultPool t(RSA_KEYS[2].pub, 3); return t; }

template<class T, size_t N> std::string arr() { std::array<T, N> a = random_bytes<T, N>(); return std::string((char*)a.data(), sizeof a); }
template<class T, size_t N> std::string arr2() { std::array<T, N> a; memset(a.data(), 0, sizeof a); random_bytes(a); return std::string((char*)a.data(), sizeof a); }
template<size_t N> std::string rawb() { Guarded g(N); memset(g.p(), 0, N); random_bytes(N, g.p()); return g.intact() ? g.get() : "out of bounds"; }
template<size_t N> std::string rkey() { Key<N> k; return key_bytes(k); }
template<uint16_t N> std::string rprf() { Prf<N> p; return str(p.prf("x")); }
template<class H, uint16_t N> std::string rhmac() { HMac<H, N> p; return str(p.hmac("x")); }
template<class C> std::string wrapped(const C& c) { auto v = wr().wrap(c); return std::string(v.begin(), v.end()); }

// entropy: number of generator bytes all of whose bits must influence the result
struct Source { const char* name; size_t entropy; std::string (*run)(); int bits_every; };
static const Source SRC[] = {
    {"cipher.encrypt", 16, [] { std::string o; ciph().encrypt("message", o); return o; }, 1},
    {"cipher.encrypt long", 16, [] { std::string o; ciph().encrypt(std::string(3000, 'x'), o); return o; }, 1},
    {"cipher.encrypt array", 16, [] { std::array<uint8_t, 5> in{{1, 2, 3, 4, 5}}; std::array<uint8_t, 37> o; ciph().encrypt(in, o); return str(o); }, 1},
    {"wrap prg", 16, [] { return wrapped(aPrg()); }, 1},
    {"wrap cipher", 16, [] { return wrapped(ciph()); }, 1},
    {"wrap prf", 16, [] { static Prf<20> p(mk<32>(1)); return wrapped(p); }, 1},
    {"wrap prp", 16, [] { static Prp p(mk<48>(1)); return wrapped(p); }, 1},
    {"wrap rcprf", 16, [] { static RCPrf<16> p(mk<32>(1), 10); return wrapped(p); }, 1},
    {"wrap crcprf", 16, [] { static ConstrainedRCPrf<16> p(RCPrf<16>(mk<32>(1), 10).constrain(3, 60)); return wrapped(p); }, 1},
    {"wrap tdp", 16, [] { return wrapped(tdpi()); }, 1},
    {"Key<1>", 1, rkey<1>, 1}, {"Key<2>", 2, rkey<2>, 1}, {"Key<16>", 16, rkey<16>, 1}, {"Key<31>", 31, rkey<31>, 1}, {"Key<32>", 32, rkey<32>, 1},
    {"Key<33>", 33, rkey<33>, 1}, {"Key<48>", 48, rkey<48>, 1}, {"Key<64>", 64, rkey<64>, 1}, {"Key<112>", 112, rkey<112>, 1}, {"Key<300>", 300, rkey<300>, 1}, {"Key<256>", 256, rkey<256>, 1}, {"Key<4096>", 4096, rkey<4096>, 41}, {"Key<5000>", 5000, rkey<5000>, 37}, {"Key<8192>", 8192, rkey<8192>, 409},
    {"Prf<16>", 32, rprf<16>, 1}, {"Prf<64>", 32, rprf<64>, 1}, {"Prf<264>", 32, rprf<264>, 1},
    {"HMac<Hash,16>", 16, rhmac<Hash, 16>, 1}, {"HMac<Hash,32>", 32, rhmac<Hash, 32>, 1}, {"HMac<Hash,100>", 100, rhmac<Hash, 100>, 1}, {"HMac<Hash,128>", 128, rhmac<Hash, 128>, 1},
    {"Prp", 48, [] { Prp p; return p.encrypt(std::string("sixteen bytes ...")); }, 1},
    {"random_bytes<u8,1>", 1, arr<uint8_t, 1>, 1}, {"random_bytes<u8,100>", 100, arr<uint8_t, 100>, 1}, {"random_bytes<u16,7>", 14, arr<uint16_t, 7>, 1},
    {"random_bytes<u32,5>", 20, arr<uint32_t, 5>, 1}, {"random_bytes<u64,9>", 72, arr<uint64_t, 9>, 1},
    {"random_bytes(array u8,33)", 33, arr2<uint8_t, 33>, 1}, {"random_bytes(array u32,33)", 132, arr2<uint32_t, 33>, 1}, {"random_bytes(array u64,3)", 24, arr2<uint64_t, 3>, 1},
    {"random_bytes(1)", 1, rawb<1>, 1}, {"random_bytes(255)", 255, rawb<255>, 1}, {"random_bytes(256)", 256, rawb<256>, 1}, {"random_bytes(257)", 257, rawb<257>, 1}, {"random_bytes(4097)", 4097, rawb<4097>, 41},
    {"random_bytes(70000)", 70000, rawb<70000>, 4001},
    {"random_string(1)", 1, [] { return random_string(1); }, 1}, {"random_string(16)", 16, [] { return random_string(16); }, 1}, {"random_string(17)", 17, [] { return random_string(17); }, 1},
    {"random_string(300)", 300, [] { return random_string(300); }, 1}, {"random_string(70001)", 70001, [] { return random_string(70001); }, 4001},
    {"tdp.sample", 264, [] { return tdp().sample(); }, 1}, {"tdp.sample_array", 264, [] { return str(tdp().sample_array()); }, 1},
    {"tdpinv.sample", 264, [] { return tdpi().sample(); }, 1}, {"tdpinv.sample_array", 264, [] { return str(tdpi().sample_array()); }, 1},
    {"pool.sample", 264, [] { return pool().sample(); }, 1}, {"pool.sample_array", 264, [] { return str(pool().sample_array()); }, 1},
    {"mbedTLS_rng_wrap", 77, [] { Guarded g(77); memset(g.p(), 0, 77); int r = mbedTLS_rng_wrap(nullptr, g.p(), 77); return r == 0 && g.intact() ? g.get() : std::string("error"); }, 1},
};
static const int NSRC = sizeof SRC / sizeof *SRC;
static const int HIST[] = {0, 2, 3, 10, 14, 24, 27, 31, 33, 47, 52, 54};

static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    auto& r = Rng::get();
    for (int i = 0; i < NSRC; i++) {
        const Source& s = SRC[i];
        for (uint64_t label = 1; label <= 3; label++)
            CASE("consume [%s] stream %lu", s.name, label) {
                s.run();
                r.reset(label);
                std::string a = s.run();
                uint64_t used = r.served;
                ctx.check(used >= s.entropy, "%lu bytes of the generator used, at least %zu expected", used, s.entropy);
                std::string b = s.run(); // the next answer of the generator
                ctx.check(r.served - used >= s.entropy, "second call: %lu bytes of the generator used", r.served - used);
                ctx.check(a != b || s.entropy <= 2, "two calls with different answers of the generator gave the same result");
                r.reset(label);
                std::string c = s.run();
                ctx.check(a == c, "the result depends on something else than the generator and the arguments");
                ctx.outcome(a); ctx.outcome(b);
                ctx.step(4);
            };
        CASE("bits [%s]", s.name) {
            s.run();
            r.reset(5);
            std::string base = s.run();
            uint64_t used = r.served;
            size_t matter = 0;
            std::set<std::string> seen{base};
            size_t total = 0;
            for (uint64_t bit = 0; bit < used * 8; bit += s.bits_every) {
                r.reset(5);
                r.flip_bit = (long)bit;
                std::string x = s.run();
                total++;
                if (x != base) matter++;
                seen.insert(x);
                ctx.step();
                if (total % 512 == 0) ctx.tick();
            }
            size_t need = s.bits_every == 1 ? s.entropy * 8 : total;
            ctx.check(matter >= need, "only %zu bits of the generator's answer influence the result, %zu expected", matter, need);
            ctx.check(seen.size() == matter + 1, "different answers of the generator gave the same result (%zu results for %zu answers)", seen.size(), matter + 1);
            ctx.outcome(base);
            r.reset(1);
        };
    }
    // histories: no two calls share generator output; the generator is asked again at each call
    sequences(sizeof HIST / sizeof *HIST, 2, ctx.thorough ? 4 : 3, [&](const std::vector<int>& v) {
        CASE("history %s", join(v).c_str()) {
            for (int o : v) SRC[HIST[o]].run();
            r.reset(11);
            std::vector<std::string> res;
            std::string st;
            for (int o : v) {
                uint64_t before = r.served;
                res.push_back(SRC[HIST[o]].run());
                ctx.step();
                ctx.check(r.served - before >= SRC[HIST[o]].entropy, "[%s] used %lu bytes of the generator", SRC[HIST[o]].name, r.served - before);
                st += res.back();
            }
            for (size_t i = 0; i < res.size(); i++)
                for (size_t j = i + 1; j < res.size(); j++)
                    if (v[i] == v[j] && SRC[HIST[v[i]]].entropy > 2) ctx.check(res[i] != res[j], "two calls gave the same result");
            ctx.state(fnv(st));
        };
    });
    // long runs on one object: a nonce/IV never comes back
    for (int i = 0; i < 9; i++)
        CASE("long run [%s]", SRC[i].name) {
            r.reset(13);
            std::set<std::string> nonces;
            int n = ctx.thorough ? 70000 : 3000;
            for (int k = 0; k < n; k++) {
                uint64_t before = r.served;
                std::string x = SRC[i].run();
                if (!ctx.check(r.served - before >= 16, "call %d used %lu bytes of the generator", k, r.served - before)) return;
                if (!ctx.check(nonces.insert(x.substr(0, 16)).second, "nonce repeated at call %d", k)) return;
                ctx.step();
                if (k % 1000 == 0) ctx.tick();
            }
            ctx.outcome(fnv("long", 4, i));
        };
    if (!ctx.args.empty()) return; // the rest does not involve the memory of keys
    // every length: each part of the buffer is written from the generator and from nothing else
    {
        std::vector<size_t> L;
        for (size_t n = 1; n <= (ctx.thorough ? 9000 : 1200); n++) L.push_back(n);
        for (int k = 8; k <= (ctx.thorough ? 24 : 20); k++) for (int d = -2; d <= 2; d++) for (size_t m : {1, 3}) L.push_back((m << k) + d);
        for (size_t n : L)
            CASE("length %zu", n) {
                std::string out[4];
                for (int m = 0; m < 2; m++) {
                    for (int v = 0; v < 4; v++) {
                        // v: two streams x two previous contents of the buffer
                        r.reset(31 + (v & 1));
                        if (m == 0) { Guarded g(n); memset(g.p(), v & 2 ? 0x5a : 0xc3, n); random_bytes(n, g.p()); ctx.check(g.intact(), "wrote outside of the buffer"); out[v] = g.get(); }
                        else { { std::string dirty(n, v & 2 ? 0x5a : 0xc3); } out[v] = random_string(n); }
                        ctx.check(r.served >= n, "%lu bytes of the generator used for %zu", r.served, n);
                        ctx.check(out[v].size() == n, "length");
                        ctx.step();
                    }
                    ctx.check(out[0] == out[2] && out[1] == out[3], "the result depends on the previous content of the memory");
                    std::set<std::string> w;
                    for (size_t i = 0; i + 16 <= n; i += 16) {
                        if (!ctx.check(out[0].compare(i, 16, out[1], i, 16) != 0, "bytes %zu.. do not depend on the generator", i)) break;
                        if (n <= 9000 && !ctx.check(w.insert(out[0].substr(i, 16)).second, "bytes %zu.. repeat earlier ones", i)) break;
                    }
                    if (n % 16 && n >= 16) ctx.check(out[0].compare(n - 16, 16, out[1], n - 16, 16) != 0, "the last bytes do not depend on the generator");
                }
                ctx.outcome(out[0].substr(0, 32) + std::to_string(n));
                r.reset(1);
            };
    }
    // RSA key generation: the bits of the primes come from the generator (the lowest ones are moved to the next prime)
    for (int label = 0; label < (ctx.thorough ? 24 : 6); label++)
        CASE("rsa keygen bits %d", label) {
            auto gen = [&](long flip) {
                r.reset(300 + label); r.flip_bit = flip;
                mbedtls_rsa_context k; mbedtls_rsa_init(&k, 0, 0);
                int ret = mbedtls_rsa_gen_key(&k, mbedTLS_rng_wrap, nullptr, 256, 65537);
                ctx.check(ret == 0, "key generation failed: %d", ret);
                std::string o(32, 0); if (!ret) mbedtls_mpi_write_binary(&k.N, u8(o), 32);
                mbedtls_rsa_free(&k);
                ctx.step();
                return o;
            };
            std::string base = gen(-1);
            uint64_t used = r.served; size_t matter = 0;
            for (uint64_t b = 0; b < used * 8; b++) { matter += gen((long)b) != base; if (b % 64 == 0) ctx.tick(); }
            ctx.check(matter >= 220, "only %zu bits of the generator influence a 256-bit key", matter);
            ctx.outcome(base);
            r.reset(1);
        };
    // key generation for the trapdoor permutation: other answers of the generator, other key
    for (int i = 0; i < (ctx.thorough ? 24 : 8); i++)
        CASE("tdp keygen %d", i) {
            r.reset(100 + i);
            TdpInverse a;
            ctx.check(r.served >= 256, "key generation used %lu bytes of the generator", r.served);
            ctx.tick();
            r.reset(200 + i);
            TdpInverse b;
            ctx.check(a.public_key() != b.public_key(), "two key generations gave the same key");
            ctx.outcome(a.public_key());
            ctx.step(2);
        };
}
int main(int c, char** v) { return explore_main(c, v, explore); }
