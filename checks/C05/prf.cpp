// C05: the hash, HMAC and PRF compute the functions they are specified to be, for every length, key and output size.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "hash/sha512.hpp"
#include "hash/blake2b.hpp"
using namespace mc;

static bool long_len(size_t n) { return n > 5000; }

static void hash_cases(Ctx& ctx)
{
    auto one = [&](const std::string& m, bool every_out) {
        std::string want = ref::blake2b(m);
        ctx.outcome(fnv(want));
        Guarded g(64, m.size() % 16);
        Hash::hash(u8(m), m.size(), g.p());
        same(ctx, g.get(), want, "hash(in,len,out)");
        ctx.check(g.intact(), "hash wrote outside its output");
        same(ctx, Hash::hash(m), want, "hash(string)");
        std::string o = "old";
        Hash::hash(m, o);
        same(ctx, o, want, "hash(string,string)");
        ctx.step(3);
        for (size_t n = 0; n <= 64; n++) {
            if (!every_out && n != 0 && n != 1 && n != 31 && n != 32 && n != 33 && n != 63 && n != 64) continue;
            Guarded h(n, n % 16);
            Hash::hash(u8(m), m.size(), n, h.p());
            same(ctx, h.get(), want.substr(0, n), "hash(in,len,out_len,out)");
            ctx.check(h.intact(), "truncated hash wrote outside its output");
            same(ctx, Hash::hash(m, n), want.substr(0, n), "hash(string,out_len)");
            std::string p = "old";
            Hash::hash(m, n, p);
            same(ctx, p, want.substr(0, n), "hash(string,out_len,string)");
            ctx.step(3);
        }
        std::string s512 = ref::sha512(m);
        Guarded q(64);
        hash::sha512::hash(u8(m), m.size(), q.p());
        same(ctx, q.get(), s512, "sha512");
        Guarded r(64);
        hash::blake2b::hash(u8(m), m.size(), r.p());
        same(ctx, r.get(), want, "blake2b");
        // input and output in the same buffer
        std::string al = m; al.resize(std::max<size_t>(al.size(), 64));
        Hash::hash(u8(al), m.size(), u8(al));
        same(ctx, al.substr(0, 64), want, "hash in place");
        std::string al2 = m;
        Hash::hash(al2, al2);
        same(ctx, al2, want, "hash(s,s) in place");
        ctx.step(4);
    };
    for (size_t n : lengths(0, ctx.thorough ? 8200 : 2100, ctx.thorough ? (64u << 20) : (4u << 20)))
        for (int w = 0; w < (long_len(n) ? 1 : 5); w++) CASE("hash len=%zu content=%d", n, w) { one(message(n, w), n < 300); };
    // all one-byte and two-byte messages
    for (int a = 0; a < 256; a++)
        CASE("hash bytes %02x??", a) {
            for (int b = -1; b < 256; b++) {
                std::string m(1, (char)a);
                if (b >= 0) m += (char)b;
                same(ctx, Hash::hash(m), ref::blake2b(m), "hash of a short message");
                ctx.step();
            }
        };
    for (size_t n : {(size_t)65, (size_t)66, (size_t)128, (size_t)256, (size_t)320, (size_t)1 << 16, (size_t)1 << 32, ~(size_t)0, ~(size_t)0 - 63})
        CASE("hash refuse out_len=%zu", n) {
            uint8_t b[64]; std::string o = "old";
            expect(ctx, "invalid_argument", [&] { Hash::hash(b, 64, n, b); }, "hash(in,len,out_len,out)");
            expect(ctx, "invalid_argument", [&] { Hash::hash(std::string("abc"), n, o); }, "hash(string,out_len,string)");
            ctx.check(o == "old", "a refused hash changed its output");
            expect(ctx, "invalid_argument", [&] { Hash::hash(std::string("abc"), n); }, "hash(string,out_len)");
        };
    CASE("hash refuse null") {
        uint8_t b[64];
        expect(ctx, "invalid_argument", [&] { Hash::hash(nullptr, 3, b); }, "hash of null");
        expect(ctx, "invalid_argument", [&] { Hash::hash(b, 3, (uint8_t*)nullptr); }, "hash to null");
        expect(ctx, "invalid_argument", [&] { Hash::hash(nullptr, 3, 32, b); }, "hash of null");
        expect(ctx, "invalid_argument", [&] { Hash::hash(b, 3, 32, nullptr); }, "hash to null");
    };
}

template<class H, uint16_t N> void hmac_cases(Ctx& ctx, const char* hn, ref::bytes (*rh)(const ref::bytes&))
{
    auto one = [&](const HMac<H, N>& h, const std::string& k, const std::string& m, bool every_out) {
        std::string want = ref::hmac(rh, k, m);
        ctx.outcome(fnv(want));
        same(ctx, str(h.hmac(m)), want, "hmac(string)");
        same(ctx, str(h.hmac(u8(m), m.size())), want, "hmac(in,len)");
        Guarded g(64, m.size() % 16);
        h.hmac(u8(m), m.size(), g.p());
        same(ctx, g.get(), want, "hmac(in,len,out)");
        ctx.check(g.intact(), "hmac wrote outside its output");
        ctx.step(3);
        for (size_t n = 0; n <= 64; n++) {
            if (!every_out && n % 21 != 0) continue;
            Guarded q(n, n % 16);
            h.hmac(u8(m), m.size(), q.p(), n);
            same(ctx, q.get(), want.substr(0, n), "hmac(in,len,out,out_len)");
            ctx.check(q.intact(), "truncated hmac wrote outside its output");
            ctx.step();
        }
    };
    for (size_t n : lengths(0, N == 32 ? 600 : 140, N == 32 && ctx.thorough ? (16u << 20) : (N == 32 ? 1u << 21 : 1u << 18)))
        CASE("hmac %s keysize=%d len=%zu", hn, N, n) {
            for (int kw = 0; kw < (n < 70 ? 8 : 2); kw++) {
                HMac<H, N> h(mk<N>(kw));
                for (int w = 0; w < (n < 200 ? 4 : 1); w++) one(h, key_content(N, kw), message(n, w), kw == 0 && w == 0 && n < 150);
            }
        };
    // each bit of the key
    for (int byte = 0; byte < N; byte++)
        CASE("hmac %s keysize=%d keybyte=%d", hn, N, byte) {
            for (int bit = 0; bit < 8; bit++) {
                std::string k = key_content(N, 0);
                k[byte] ^= 1 << bit;
                HMac<H, N> h(key_from<N>(k));
                same(ctx, str(h.hmac("message")), ref::hmac(rh, k, "message"), "hmac under a key with one bit changed");
                ctx.step();
            }
        };
    CASE("hmac %s keysize=%d refuse", hn, N) {
        HMac<H, N> h(mk<N>(0));
        uint8_t b[300];
        for (size_t n : {(size_t)65, (size_t)66, (size_t)128, (size_t)256, (size_t)257, (size_t)320, (size_t)1 << 32, ~(size_t)0})
            expect(ctx, "invalid_argument", [&] { h.hmac(b, 10, b, n); }, "hmac with a too large output length");
        expect(ctx, "invalid_argument", [&] { h.hmac(nullptr, 10, b); }, "hmac of null");
        expect(ctx, "invalid_argument", [&] { h.hmac(nullptr, 10); }, "hmac of null");
        expect(ctx, "invalid_argument", [&] { h.hmac(b, 10, nullptr); }, "hmac to null");
        same(ctx, str(h.hmac("x")), ref::hmac(rh, key_content(N, 0), "x"), "hmac after refused calls");
        Key<N> dead = mk<N>(0);
        dead.erase();
        expect(ctx, "invalid_argument", [&] { HMac<H, N> x(std::move(dead)); }, "hmac with an empty key");
        // moved objects keep computing the same function
        HMac<H, N> h2(std::move(h)), h3(mk<N>(1));
        same(ctx, str(h2.hmac("x")), ref::hmac(rh, key_content(N, 0), "x"), "hmac after a move");
        h3 = std::move(h2);
        same(ctx, str(h3.hmac("x")), ref::hmac(rh, key_content(N, 0), "x"), "hmac after a move assignment");
    };
}

template<uint16_t N> void prf_one(Ctx& ctx, const Prf<N>& p, const std::string& k, const std::string& m)
{
    std::string want = ref::prf(k, m, N);
    ctx.outcome(fnv(want));
    same(ctx, str(p.prf(m)), want, "prf(string)");
    same(ctx, str(p.prf(u8(m), m.size())), want, "prf(in,len)");
    same(ctx, key_bytes(p.derive_key(m)), want, "derive_key(string)");
    same(ctx, key_bytes(p.derive_key(u8(m), m.size())), want, "derive_key(in,len)");
    ctx.step(4);
}
template<uint16_t N, size_t L> void prf_array(Ctx& ctx, const Prf<N>& p, const std::string& k)
{
    std::array<uint8_t, L> a;
    fill(a.data(), L, 3);
    std::string m = str(a);
    std::string want = ref::prf(k, m, N);
    same(ctx, str(p.prf(a)), want, "prf(array)");
    same(ctx, key_bytes(p.derive_key(a)), want, "derive_key(array)");
    ctx.step(2);
}
template<uint16_t N> void prf_cases(Ctx& ctx, size_t all, size_t max)
{
    for (size_t n : lengths(0, all, max))
        CASE("prf N=%d len=%zu", N, n) {
            for (int kw = 0; kw < (n < 4 ? 8 : 1); kw++) {
                Prf<N> p(mk<32>(kw));
                for (int w = 0; w < (n < 130 ? 5 : 1); w++) prf_one<N>(ctx, p, key_content(32, kw), message(n, w));
            }
        };
    CASE("prf N=%d misc", N) {
        Prf<N> p(mk<32>(2));
        std::string k = key_content(32, 2);
        prf_array<N, 32>(ctx, p, k);
        if constexpr (N % 16 == 0 || N == 65) {
        prf_array<N, 1>(ctx, p, k); prf_array<N, 2>(ctx, p, k); prf_array<N, 8>(ctx, p, k); prf_array<N, 16>(ctx, p, k);
        prf_array<N, 20>(ctx, p, k); prf_array<N, 32>(ctx, p, k); prf_array<N, 64>(ctx, p, k); prf_array<N, 127>(ctx, p, k);
        prf_array<N, 128>(ctx, p, k); prf_array<N, 129>(ctx, p, k); prf_array<N, 200>(ctx, p, k); prf_array<N, 300>(ctx, p, k);
        }
        expect(ctx, "invalid_argument", [&] { p.prf(nullptr, 3); }, "prf of null");
        expect(ctx, "invalid_argument", [&] { p.derive_key(nullptr, 3); }, "derive_key of null");
        same(ctx, str(p.prf("x")), ref::prf(k, "x", N), "prf after refused calls");
        Prf<N> q(std::move(p)), r(mk<32>(1));
        same(ctx, str(q.prf("x")), ref::prf(k, "x", N), "prf after a move");
        r = std::move(q);
        same(ctx, str(r.prf("x")), ref::prf(k, "x", N), "prf after a move assignment");
        Key<32> dead = mk<32>(0);
        dead.erase();
        expect(ctx, "invalid_argument", [&] { Prf<N> x(std::move(dead)); }, "prf with an empty key");
    };
}
template<uint16_t N, uint16_t END> struct Small { static void run(Ctx& ctx) { prf_cases<N>(ctx, N % 16 == 0 ? 140 : 40, 300); Small<N + 1, END>::run(ctx); } };
template<uint16_t END> struct Small<END, END> { static void run(Ctx&) {} };

static ref::bytes b2(const ref::bytes& x) { return ref::blake2b(x); }
static ref::bytes s5(const ref::bytes& x) { return ref::sha512(x); }

static void histories(Ctx& ctx)
{
    // alternating calls on one object: the value depends on the key and the message only
    std::vector<std::string> msgs = {"", "a", std::string("a\0", 2), std::string(128, 'b'), std::string(129, 'b'), bytes(1000, 4)};
    std::vector<std::string> want16, want100;
    std::string k = key_content(32, 0);
    for (auto& m : msgs) { want16.push_back(ref::prf(k, m, 16)); want100.push_back(ref::prf(k, m, 100)); }
    sequences((int)msgs.size() * 2 + 1, 1, ctx.thorough ? 4 : 3, [&](const std::vector<int>& v) {
        CASE("prf history %s", join(v).c_str()) {
            Prf<16> p(mk<32>(0)); Prf<100> q(mk<32>(0));
            for (int o : v) {
                ctx.step();
                if (o == (int)msgs.size() * 2) { expect(ctx, "invalid_argument", [&] { p.prf(nullptr, 1); }, "prf of null"); expect(ctx, "invalid_argument", [&] { q.prf(nullptr, 1); }, "prf of null"); continue; }
                if (o % 2) same(ctx, str(p.prf(msgs[o / 2])), want16[o / 2], "prf");
                else same(ctx, str(q.prf(msgs[o / 2])), want100[o / 2], "prf");
            }
            ctx.state(fnv(join(v)));
        };
    });
}

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    hash_cases(ctx);
    hmac_cases<Hash, 16>(ctx, "blake2b", b2); hmac_cases<Hash, 25>(ctx, "blake2b", b2); hmac_cases<Hash, 32>(ctx, "blake2b", b2);
    hmac_cases<Hash, 63>(ctx, "blake2b", b2); hmac_cases<Hash, 64>(ctx, "blake2b", b2); hmac_cases<Hash, 65>(ctx, "blake2b", b2);
    hmac_cases<Hash, 127>(ctx, "blake2b", b2); hmac_cases<Hash, 128>(ctx, "blake2b", b2);
    hmac_cases<hash::sha512, 16>(ctx, "sha512", s5); hmac_cases<hash::sha512, 25>(ctx, "sha512", s5); hmac_cases<hash::sha512, 32>(ctx, "sha512", s5);
    hmac_cases<hash::sha512, 64>(ctx, "sha512", s5); hmac_cases<hash::sha512, 128>(ctx, "sha512", s5);
    Small<1, 65>::run(ctx);
    prf_cases<65>(ctx, 300, 2000); prf_cases<80>(ctx, 140, 300); prf_cases<100>(ctx, 140, 300); prf_cases<127>(ctx, 140, 300); prf_cases<128>(ctx, 300, 2000);
    prf_cases<129>(ctx, 140, 300); prf_cases<191>(ctx, 140, 300); prf_cases<192>(ctx, 140, 300); prf_cases<193>(ctx, 140, 300);
    prf_cases<255>(ctx, 60, 300); prf_cases<256>(ctx, 60, 300); prf_cases<257>(ctx, 60, 300); prf_cases<264>(ctx, 140, 2000);
    prf_cases<512>(ctx, 20, 300); prf_cases<1024>(ctx, 20, 300); prf_cases<2000>(ctx, 20, 300); prf_cases<4096>(ctx, 10, 130);
    prf_cases<8191>(ctx, 3, 3); prf_cases<8192>(ctx, 3, 3); prf_cases<8193>(ctx, 3, 3);
    prf_cases<12345>(ctx, 4, 4); prf_cases<16383>(ctx, 3, 3); prf_cases<16384>(ctx, 5, 130);
    for (size_t n : lengths(300, ctx.thorough ? 6000 : 1500, ctx.thorough ? (16u << 20) : (1u << 20)))
        CASE("prf long len=%zu", n) {
            Prf<16> p(mk<32>(0)); Prf<64> p64(mk<32>(0)); Prf<65> q(mk<32>(0));
            std::string m = message(n, 0);
            same(ctx, str(p.prf(m)), ref::prf(key_content(32, 0), m, 16), "prf");
            same(ctx, str(p64.prf(m)), ref::prf(key_content(32, 0), m, 64), "prf");
            same(ctx, str(q.prf(m)), ref::prf(key_content(32, 0), m, 65), "prf");
            ctx.step(3);
        };
    histories(ctx);
}
int main(int c, char** v) { return explore_main(c, v, explore); }
