// C04: every derivation of the PRG is a window of one key stream, determined by the key alone.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
using namespace mc;
static const int NK = 6;

static std::string K(int w) { return key_content(32, w); }

// All the public ways of asking for [off, off+len).
static void all_overloads(Ctx& ctx, int w, uint64_t off, size_t len, const std::string& want, bool statics)
{
    Prg prg(mk<32>(w));
    auto eq = [&](const std::string& got, const char* what) { ctx.step(); same(ctx, got, want, what); };
    {
        Guarded g(len, len % 16);
        prg.derive(off, len, g.p());
        eq(g.get(), "derive(off,len,ptr)");
        ctx.check(g.intact(), "derive(off,len,ptr) wrote outside its output");
    }
    eq(prg.derive(off, len), "derive(off,len)");
    { std::string o = "previous content"; prg.derive(off, len, o); eq(o, "derive(off,len,string)"); }
    if (off == 0) {
        eq(prg.derive(len), "derive(len)");
        std::string o = "previous content"; prg.derive(len, o); eq(o, "derive(len,string)");
    }
    if (!statics) return;
    if (len > 0) {
        Guarded g(len, (len + 5) % 16);
        Prg::derive(mk<32>(w), off, len, g.p());
        eq(g.get(), "static derive(key,off,len,ptr)");
        ctx.check(g.intact(), "static derive wrote outside its output");
    }
    { std::string o = "previous content"; Prg::derive(mk<32>(w), off, len, o); eq(o, "static derive(key,off,len,string)"); }
    eq(Prg::derive(mk<32>(w), off, len), "static derive(key,off,len)");
    if (off == 0 && len > 0) {
        eq(Prg::derive(mk<32>(w), len), "static derive(key,len)");
        std::string o = "previous content"; Prg::derive(mk<32>(w), len, o); eq(o, "static derive(key,len,string)");
    }
}

template<size_t KS> void keys(Ctx& ctx)
{
    std::vector<unsigned> offs;
    for (unsigned i = 0; i <= (ctx.thorough ? 300 : 70); i++) offs.push_back(i);
    for (unsigned b : {127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65534})
        for (unsigned d = 0; d < 2; d++) if (b + d > offs.back()) offs.push_back(b + d);
    for (unsigned off : offs)
        CASE("key K=%zu off=%u", KS, off) {
            std::string want = ref::keystream(K(0), (uint64_t)off * KS, KS);
            ctx.outcome(fnv(want));
            Prg prg(mk<32>(0));
            same(ctx, key_bytes(prg.derive_key<KS>((uint16_t)off)), want, "derive_key");
            same(ctx, key_bytes(Prg::derive_key<KS>(mk<32>(0), (uint16_t)off)), want, "static derive_key");
            ctx.step(2);
        };
    std::vector<unsigned> ns;
    for (unsigned i = 0; i <= (ctx.thorough ? 70 : 20); i++) ns.push_back(i);
    for (unsigned b : {63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) if (b > ns.back()) ns.push_back(b);
    if (ctx.thorough) for (unsigned b : {1000, 4096, 8191, 8192, 8193}) ns.push_back(b);
    for (unsigned n : ns)
        for (unsigned off : {0u, 1u, 2u, 3u, 5u, 63u, 64u, 255u, 256u, 257u, 4096u, 32768u, 65535u}) {
            if (n > 70 && off > 3 && off != 256 && off != 65535) continue;
            CASE("keys K=%zu n=%u off=%u", KS, n, off) {
                std::string all = ref::keystream(K(0), (uint64_t)off * KS, (size_t)n * KS);
                Prg prg(mk<32>(0));
                for (int st = 0; st < 2; st++) {
                    std::vector<Key<KS>> v = st ? Prg::derive_keys<KS>(mk<32>(0), (uint16_t)n, (uint16_t)off)
                                                : prg.derive_keys<KS>((uint16_t)n, (uint16_t)off);
                    ctx.step();
                    if (!ctx.check(v.size() == n, "derive_keys returned %zu keys instead of %u", v.size(), n)) return;
                    for (unsigned i = 0; i < n; i++)
                        if (!same(ctx, key_bytes(v[i]), all.substr((size_t)i * KS, KS), st ? "static derive_keys" : "derive_keys")) return;
                }
                if (off == 0) {
                    auto v = prg.derive_keys<KS>((uint16_t)n);
                    ctx.check(v.size() == n && (n == 0 || key_bytes(v[n - 1]) == all.substr((size_t)(n - 1) * KS, KS)), "derive_keys(n) without offset");
                }
                ctx.outcome(fnv(all));
            };
        }
}

// One operation on a live generator; returns what was observed. The model: the observation depends on the key only.
struct Op { const char* name; std::string (*run)(Ctx&, Prg&); std::string (*want)(); };
static std::string S(uint64_t off, size_t len) { return ref::keystream(K(0), off, len); }
static const Op OPS[] = {
    {"d0_64", [](Ctx&, Prg& p) { return p.derive(0, 64); }, [] { return S(0, 64); }},
    {"d37_91", [](Ctx&, Prg& p) { Guarded g(91); p.derive(37, 91, g.p()); return g.get(); }, [] { return S(37, 91); }},
    {"d64_1", [](Ctx&, Prg& p) { std::string o; p.derive(64, 1, o); return o; }, [] { return S(64, 1); }},
    {"dlen0", [](Ctx&, Prg& p) { return p.derive(3, 0); }, [] { return std::string(); }},
    {"key16", [](Ctx&, Prg& p) { return key_bytes(p.derive_key<16>(3)); }, [] { return S(48, 16); }},
    {"keys", [](Ctx&, Prg& p) { auto v = p.derive_keys<32>(3, 1); return key_bytes(v[0]) + key_bytes(v[1]) + key_bytes(v[2]); }, [] { return S(32, 96); }},
    {"fail", [](Ctx& ctx, Prg& p) { expect(ctx, "invalid_argument", [&] { p.derive(5, 7, (unsigned char*)nullptr); }, "derive to a null output"); return std::string(); }, [] { return std::string(); }},
    {"move", [](Ctx&, Prg& p) { Prg q(std::move(p)); std::string r = q.derive(1, 70); p.~Prg(); new (&p) Prg(std::move(q)); return r; }, [] { return S(1, 70); }},
};

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    size_t MO = ctx.thorough ? 260 : 130, ML = ctx.thorough ? 520 : 200;
    // every window of the first bytes
    for (size_t off = 0; off <= MO; off++)
        for (size_t len = 0; len <= ML; len++)
            CASE("window off=%zu len=%zu", off, len) {
                std::string want = ref::keystream(K(0), off, len);
                ctx.outcome(fnv(want));
                all_overloads(ctx, 0, off, len, want, ctx.thorough || (off + len) % 7 == 0 || off < 3 || len < 3);
            };
    // other keys
    for (int w = 1; w < NK + 4; w++)
        for (size_t off : {0, 1, 31, 32, 63, 64, 65, 127, 128, 1000})
            for (size_t len : {1, 31, 32, 33, 63, 64, 65, 128, 129, 200})
                CASE("key-content w=%d off=%zu len=%zu", w, off, len) {
                    std::string want = ref::keystream(K(w), off, len);
                    ctx.outcome(fnv(want));
                    all_overloads(ctx, w, off, len, want, true);
                };
    // every single bit of the key matters and only through the key stream
    for (int bit = 0; bit < 256; bit++)
        CASE("key-bit %d", bit) {
            std::string k = K(0);
            k[bit / 8] ^= 1 << (bit % 8);
            Prg p(key_from<32>(k));
            std::string got = p.derive(0, 160);
            same(ctx, got, ref::keystream(k, 0, 160), "derive under a key with one bit changed");
            ctx.step(); ctx.outcome(fnv(got));
        };
    // long outputs
    for (size_t len : lengths(200, ctx.thorough ? 5000 : 1200, ctx.thorough ? (32u << 20) : (2u << 20)))
        for (size_t off : {0, 1, 63, 64, 65}) {
            if (len > 300000 && off > 1 && !ctx.thorough) continue;
            CASE("long off=%zu len=%zu", off, len) {
                std::string want = ref::keystream(K(0), off, len);
                ctx.outcome(fnv(want));
                all_overloads(ctx, 0, off, len, want, true);
            };
        }
    // far offsets: around every power of two (the block counter has 64 bits)
    for (int k = 8; k <= 64; k++)
        for (int d : {-129, -128, -127, -65, -64, -63, -32, -2, -1, 0, 1, 2, 31, 63, 64, 65, 127, 128})
            for (size_t len : {1, 2, 31, 63, 64, 65, 129, 200}) {
                uint64_t off = (k == 64 ? 0 : (1ULL << k)) + (uint64_t)(int64_t)d;
                if (k == 64 && d >= 0) continue;
                if (off + len < off) continue; // past the end of the address space of the stream
                CASE("far off=2^%d%+d len=%zu", k, d, len) {
                    std::string want = ref::keystream(K(0), off, len);
                    ctx.outcome(fnv(want));
                    all_overloads(ctx, 0, off, len, want, true);
                };
            }
    keys<1>(ctx); keys<10>(ctx); keys<16>(ctx); keys<18>(ctx); keys<31>(ctx); keys<32>(ctx); keys<33>(ctx);
    keys<48>(ctx); keys<63>(ctx); keys<64>(ctx); keys<65>(ctx); keys<112>(ctx); keys<300>(ctx);
    if (ctx.thorough)
        CASE("keys K=32 n=65535") {
            auto v = Prg::derive_keys<32>(mk<32>(0), 0x7fff, 0xffff);
            std::string all = ref::keystream(K(0), 0xffffULL * 32, 0x7fffULL * 32);
            for (size_t i = 0; i < v.size(); i++) if (!same(ctx, key_bytes(v[i]), all.substr(i * 32, 32), "derive_keys")) return;
        };
    // histories on one object: no operation, successful or not, changes the stream
    const int NOPS = sizeof OPS / sizeof *OPS;
    sequences(NOPS, 1, ctx.thorough ? 5 : 4, [&](const std::vector<int>& v) {
        CASE("history %s", join(v).c_str()) {
            Prg p(mk<32>(0));
            for (int o : v) {
                std::string got = OPS[o].run(ctx, p);
                ctx.step();
                if (!same(ctx, got, OPS[o].want(), OPS[o].name)) return;
            }
            ctx.state(fnv(join(v)));
        };
    });
    // refusals
    CASE("refuse empty") {
        unsigned char b[8];
        std::string o;
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive(std::move(k), 0, 8, b); }, "static derive with an empty key"); }
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive(std::move(k), 8, o); }, "static derive(key,len,string) with an empty key"); }
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive(std::move(k), 8); }, "static derive(key,len) with an empty key"); }
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive(std::move(k), 1, 8, o); }, "static derive(key,off,len,string) with an empty key"); }
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive_keys<16>(std::move(k), 2); }, "static derive_keys with an empty key"); }
        { Key<32> k = mk<32>(0); k.erase(); expect(ctx, "invalid_argument", [&] { Prg::derive_key<16>(std::move(k), 2); }, "static derive_key with an empty key"); }
        expect(ctx, "invalid_argument", [&] { Prg::derive(mk<32>(0), 0, 8, (unsigned char*)nullptr); }, "static derive to a null output");
    };
}
int main(int c, char** v) { return explore_main(c, v, explore); }
