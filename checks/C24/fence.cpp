// C24: every function that is given memory, with that memory placed against unmapped pages at every length and alignment, on a heap of exactly sized blocks.
#define MC_MAIN
#define MC_FENCEHEAP
#include "fenceheap.hpp"
#include "fenced.hpp"
#include "ops.hpp"
#include "rsa.hpp"
extern "C" {
#include "mbedtls/bignum.h"
#include "mbedtls/pk.h"
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
}
#include <functional>
using namespace mc;
typedef std::string S;
#define CK(c, ...) (ctx.checks++, (c) ? true : (ctx.fail(__VA_ARGS__), false))

// n bytes at distance `gap` from the unmapped page (behind them for END, before them for BEGIN); the gap is checked
struct Place
{
    Fence f; uint8_t* p; size_t n, gap; Fence::Where w;
    Place(size_t n_, Fence::Where w_, size_t gap_, int prefill) : f(n_ + gap_, w_), n(n_), gap(gap_), w(w_)
    {
        memset(f.p, 0x6B, n + gap);
        p = w == Fence::END ? f.p : f.p + gap;
        memset(p, prefill, n);
    }
    bool intact() const { const uint8_t* g = w == Fence::END ? p + n : f.p; for (size_t i = 0; i < gap; i++) if (g[i] != 0x6B) return false; return f.intact(); }
    S get() const { return S((char*)p, n); }
};
typedef std::function<void(const uint8_t*, uint8_t*)> Fn;
// One function of an input and an output buffer, in every placement; the result must be the one of ordinary buffers
static void placed(Ctx& ctx, const char* name, const S& in, size_t n_out, const Fn& f, int gaps)
{
    Rng::get().reset(7);
    S base(n_out + 64, 0x11); { S i = in + S(64, 'i'); f((const uint8_t*)i.data(), (uint8_t*)&base[0]); base.resize(n_out); }
    int fillers[2] = {0x00, 0xFF};
    for (int w = 0; w < 2; w++) for (int gi = 0; gi <= gaps; gi++) for (int go = 0; go <= gaps; go++) {
        if (gaps > 3 && gi && go && gi != go && gi + go != gaps) continue; // all pairs for small, the diagonals for many alignments
        int fl = fillers[(w + gi + go) & 1];
        Fence::Where W = w ? Fence::BEGIN : Fence::END;
        Place a(in.size(), W, gi, 0), b(n_out, W, go, fl);
        if (in.size()) memcpy(a.p, in.data(), in.size());
        a.f.readonly();
        Rng::get().reset(7);
        { fheap::On on(w ? fheap::BEGIN : fheap::END); f(a.p, b.p); }
        ctx.step();
        CK(b.get() == base, "%s of %zu bytes depends on where its buffers are (unmapped page %s, alignment %zu and %zu): %s instead of %s", name, in.size(), w ? "before" : "behind", (size_t)a.p % 64, (size_t)b.p % 64, hex(b.get()).c_str(), hex(base).c_str());
        CK(b.intact(), "%s of %zu bytes wrote outside of its %zu bytes of output", name, in.size(), n_out);
    }
    // both fillers in one place, and the two buffers side by side
    for (int fl : fillers) for (int order = 0; order < 2; order++) for (int w = 0; w < 2; w++) {
        Fence m(in.size() + n_out, w ? Fence::BEGIN : Fence::END); memset(m.p, fl, in.size() + n_out);
        uint8_t* i = order ? m.p : m.p + n_out; uint8_t* o = order ? m.p + in.size() : m.p;
        if (in.size()) memcpy(i, in.data(), in.size());
        Rng::get().reset(7);
        { fheap::On on(w ? fheap::BEGIN : fheap::END); f(i, o); }
        ctx.step();
        CK(S((char*)o, n_out) == base && S((char*)i, in.size()) == in && m.intact(), "%s of %zu bytes with adjacent buffers (input %s): %s instead of %s, input %s", name, in.size(), order ? "first" : "second", hex(o, n_out).c_str(), hex(base).c_str(), S((char*)i, in.size()) == in ? "kept" : "changed");
    }
    ctx.outcome(base);
}
template<size_t N> static const std::array<uint8_t, N>& A(const uint8_t* p) { return *reinterpret_cast<const std::array<uint8_t, N>*>(p); }
template<size_t N> static std::array<uint8_t, N>& A(uint8_t* p) { return *reinterpret_cast<std::array<uint8_t, N>*>(p); }
template<size_t N> static void put(uint8_t* o, const std::array<uint8_t, N>& a) { memcpy(o, a.data(), N); }

struct Objects
{
    Prf<1> p1{key_from<32>(bytes(32, 1))}; Prf<32> p32{key_from<32>(bytes(32, 2))}; Prf<64> p64{key_from<32>(bytes(32, 3))}; Prf<65> p65{key_from<32>(bytes(32, 4))}; Prf<300> p300{key_from<32>(bytes(32, 5))};
    HMac<Hash, 32> h32{key_from<32>(bytes(32, 6))}; HMac<hash::sha512, 20> s20{key_from<20>(bytes(20, 7))}; HMac<hash::blake2b, 128> b128{key_from<128>(bytes(128, 8))};
    Prg g{key_from<32>(bytes(32, 9))}; Prp pp{key_from<48>(bytes(48, 10))}; Cipher c{key_from<32>(bytes(32, 11))}; Wrapper w{key_from<32>(bytes(32, 12))};
};
static Objects& O() { static Objects o; return o; }
static const uint8_t* nn(const uint8_t* p) { return p; }
struct F2 { const char* name; size_t lo, hi; long out; /* -1: as the input */ std::function<void(const uint8_t*, size_t, uint8_t*)> f; };
static std::vector<F2>& functions()
{
    static std::vector<F2> v = {
        {"Hash::hash", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { Hash::hash(i, n, o); }},
        {"Hash::hash to 1 byte", 0, 1 << 30, 1, [](const uint8_t* i, size_t n, uint8_t* o) { Hash::hash(i, n, 1, o); }},
        {"Hash::hash to 33 bytes", 0, 1 << 30, 33, [](const uint8_t* i, size_t n, uint8_t* o) { Hash::hash(i, n, 33, o); }},
        {"sha512", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { hash::sha512::hash(i, n, o); }},
        {"blake2b", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { hash::blake2b::hash(i, n, o); }},
        {"HMac<Hash,32>", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { O().h32.hmac(i, n, o, 64); }},
        {"HMac<Hash,32> to 13 bytes", 0, 1 << 30, 13, [](const uint8_t* i, size_t n, uint8_t* o) { O().h32.hmac(i, n, o, 13); }},
        {"HMac<sha512,20>", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 64>(O().s20.hmac(i, n)); }},
        {"HMac<sha512,20> to 1 byte", 0, 1 << 30, 1, [](const uint8_t* i, size_t n, uint8_t* o) { O().s20.hmac(i, n, o, 1); }},
        {"HMac<blake2b,128>", 0, 1 << 30, 40, [](const uint8_t* i, size_t n, uint8_t* o) { O().b128.hmac(i, n, o, 40); }},
        {"Prf<1>", 0, 1 << 30, 1, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 1>(O().p1.prf(i, n)); }},
        {"Prf<32>", 0, 1 << 30, 32, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 32>(O().p32.prf(i, n)); }},
        {"Prf<64>", 0, 1 << 30, 64, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 64>(O().p64.prf(i, n)); }},
        {"Prf<65>", 0, 1 << 30, 65, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 65>(O().p65.prf(i, n)); }},
        {"Prf<300>", 0, 1 << 30, 300, [](const uint8_t* i, size_t n, uint8_t* o) { new (o) std::array<uint8_t, 300>(O().p300.prf(i, n)); }},
        {"Prf<32>::derive_key", 0, 1 << 30, 32, [](const uint8_t* i, size_t n, uint8_t* o) { S k = key_bytes(O().p32.derive_key(i, n)); memcpy(o, k.data(), 32); }},
        {"Prf<65>::derive_key", 0, 1 << 30, 65, [](const uint8_t* i, size_t n, uint8_t* o) { S k = key_bytes(O().p65.derive_key(i, n)); memcpy(o, k.data(), 65); }},
        {"Prp::encrypt", 1, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { O().pp.encrypt(i, (unsigned)n, o); }},
        {"Prp::decrypt", 1, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { O().pp.decrypt(i, (unsigned)n, o); }},
        {"Prg::derive", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; O().g.derive(0, n, o); }},
        {"Prg::derive from 37", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; O().g.derive(37, n, o); }},
        {"Prg::derive from 64", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; O().g.derive(64, n, o); }},
        {"static Prg::derive from 129", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; Prg::derive(key_from<32>(bytes(32, 9)), 129, n, o); }},
        {"static Prg::derive", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; Prg::derive(key_from<32>(bytes(32, 9)), 0, n, o); }},
        {"random_bytes", 0, 1 << 30, -1, [](const uint8_t* i, size_t n, uint8_t* o) { (void)i; random_bytes(n, o); }},
    };
    return v;
}
static void pointers(Ctx& ctx)
{
    bool T = ctx.thorough;
    for (auto& f : functions()) {
        for (size_t n : lengths(f.lo, T ? 700 : 300, T ? 1 << 22 : 1 << 20)) CASE("%s of %zu bytes", f.name, n) {
            size_t o = f.out < 0 ? n : (size_t)f.out; S in = bytes(n, n + 1);
            placed(ctx, f.name, in, o, [&](const uint8_t* i, uint8_t* q) { f.f(i, n, q); }, n > 5000 ? 1 : n > 300 ? 3 : (n % 16 < 2 || n < 40) ? 16 : 2);
        };
        if (T) for (size_t n = f.lo; n <= 200; n++) CASE("%s of %zu bytes, all alignments", f.name, n) {
            size_t o = f.out < 0 ? n : (size_t)f.out; S in = bytes(n, n + 1); placed(ctx, f.name, in, o, [&](const uint8_t* i, uint8_t* q) { f.f(i, n, q); }, 64);
        };
    }
}
// ---- arrays ---------------------------------------------------------------------------------------------------------
template<size_t N> static void arrays_of(Ctx& ctx, int gaps)
{
    S in = bytes(N, N + 3);
    placed(ctx, "Cipher::encrypt<N>", in, N + 32, [&](const uint8_t* i, uint8_t* o) { O().c.encrypt(A<N>(i), A<N + 32>(o)); }, gaps);
    S ct; Rng::get().reset(3); O().c.encrypt(in, ct);
    placed(ctx, "Cipher::decrypt<N>", ct, N, [&](const uint8_t* i, uint8_t* o) { O().c.decrypt<N>(A<N + 32>(i), A<N>(o)); }, gaps);
    for (size_t k : {size_t(0), N, N + 31}) { S bad = ct; bad[k] ^= 1; placed(ctx, "Cipher::decrypt<N> of a forgery", bad, N, [&](const uint8_t* i, uint8_t* o) { try { O().c.decrypt<N>(A<N + 32>(i), A<N>(o)); throw S("a forgery was accepted"); } catch (const std::runtime_error&) {} memset(o, 1, N); }, 1); }
    placed(ctx, "Prf<32>::prf<N>", in, 32, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 32>(O().p32.prf(A<N>(i))); }, gaps);
    placed(ctx, "Prf<65>::prf<N>", in, 65, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 65>(O().p65.prf(A<N>(i))); }, gaps);
    placed(ctx, "Prf<65>::derive_key<N>", in, 65, [&](const uint8_t* i, uint8_t* o) { S k = key_bytes(O().p65.derive_key(A<N>(i))); memcpy(o, k.data(), 65); }, 1);
    Prf<N> pn(key_from<32>(bytes(32, N))); placed(ctx, "Prf<N>::prf", in, N, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, N>(pn.prf(i, N)); }, gaps);
    placed(ctx, "Prg::derive<N>", S(), N, [&](const uint8_t*, uint8_t* o) { Prg::derive<N>(key_from<32>(bytes(32, 9)), 61, A<N>(o)); }, gaps);
    placed(ctx, "random_bytes<N>", S(), N, [&](const uint8_t*, uint8_t* o) { random_bytes(A<N>(o)); }, gaps);
    RCPrf<N> rc(key_from<32>(bytes(32, N + 1)), 4); placed(ctx, "RCPrf<N>::eval", S(), N, [&](const uint8_t*, uint8_t* o) { new (o) std::array<uint8_t, N>(rc.eval(5)); }, gaps);
    auto crc = rc.constrain(2, 6); placed(ctx, "ConstrainedRCPrf<N>::eval", S(), 2 * N, [&](const uint8_t*, uint8_t* o) { new (o) std::array<uint8_t, N>(crc.eval(2)); new (o + N) std::array<uint8_t, N>(crc.eval(6)); }, gaps);
    // keys: the given bytes, and nothing else, are read and erased
    for (int w = 0; w < 2; w++) for (size_t gap = 0; gap < 4; gap++) {
        Place b(N, w ? Fence::BEGIN : Fence::END, gap, 0); memcpy(b.p, in.data(), N);
        Key<N> k(b.p); ctx.step();
        CK(key_bytes(k) == in && b.get() == S(N, 0) && b.intact(), "Key<%zu>(pointer): content %s, given buffer %s, surroundings %s", N, key_bytes(k) == in ? "right" : "wrong", b.get() == S(N, 0) ? "erased" : "not erased", b.intact() ? "intact" : "overwritten");
    }
}
template<size_t N> struct Arr { static void go(Ctx& ctx) { Arr<N - 1>::go(ctx); CASE("arrays of %zu bytes", N) { arrays_of<N>(ctx, N % 8 < 2 ? 8 : 2); }; } };
template<> struct Arr<0> { static void go(Ctx&) {} };
static void arrays(Ctx& ctx)
{
    Arr<72>::go(ctx);
#define AN(n) CASE("arrays of %d bytes", n) { arrays_of<n>(ctx, 3); };
    AN(95) AN(96) AN(97) AN(127) AN(128) AN(129) AN(255) AN(256) AN(257) AN(1000) AN(4095) AN(4096) AN(4097)
    S enc; { SetHash h; h.add_element("x"); h.add_element("yy"); enc = str(h.data()); }
    CASE("SetHash of an array") { placed(ctx, "SetHash(array)", enc, 32, [&](const uint8_t* i, uint8_t* o) { SetHash h(A<32>(i)); put<32>(o, h.data()); }, 16); placed(ctx, "SetHash in place", S(), 32, [&](const uint8_t*, uint8_t* o) { SetHash* h = new (o) SetHash; h->add_element("element"); SetHash g; g.add_element("b"); h->add_set(g); h->remove_element("element"); }, 16); };
    for (int k = 0; k < 4; k++) CASE("trapdoor permutation on arrays, key %d", k) {
        Tdp t(RSA_KEYS[k].pub); TdpInverse ti(RSA_KEYS[k].priv); TdpMultPool pool(RSA_KEYS[k].pub, 3);
        S m = bytes(256, k); m[0] = 1;
        int g = ctx.thorough ? 16 : 2;
        placed(ctx, "Tdp::eval", m, 256, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 256>(t.eval(A<256>(i))); }, g);
        placed(ctx, "TdpInverse::eval", m, 256, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 256>(ti.eval(A<256>(i))); }, g);
        placed(ctx, "TdpInverse::invert", m, 256, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 256>(ti.invert(A<256>(i))); }, ctx.thorough ? 4 : 1);
        placed(ctx, "TdpInverse::invert_mult", m, 256, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 256>(ti.invert_mult(A<256>(i), 7)); }, ctx.thorough ? 4 : 0);
        placed(ctx, "TdpMultPool::eval", m, 256, [&](const uint8_t* i, uint8_t* o) { new (o) std::array<uint8_t, 256>(pool.eval(A<256>(i), 3)); }, g);
        placed(ctx, "Tdp::generate_array", S(), 256, [&](const uint8_t*, uint8_t* o) { new (o) std::array<uint8_t, 256>(t.generate_array(key_from<32>(bytes(32, 5)), "seed")); }, 1);
        placed(ctx, "Tdp::sample_array", S(), 256, [&](const uint8_t*, uint8_t* o) { new (o) std::array<uint8_t, 256>(t.sample_array()); }, 1);
    };
}
// ---- strings and objects on the fenced heap -------------------------------------------------------------------------
static void strings(Ctx& ctx)
{
    bool T = ctx.thorough;
    struct G { const char* name; size_t lo; S (*f)(const S&); };
    static const G fs[] = {
        {"cipher", 1, [](const S& m) { S c, d; O().c.encrypt(m, c); O().c.decrypt(c, d); S e = m; O().c.encrypt(e, e); O().c.decrypt(e, e); S bad = c; bad[bad.size() - 1] ^= 1; try { O().c.decrypt(bad, e); } catch (const std::runtime_error&) { d += "!"; } return c + d + e; }},
        {"prp", 0, [](const S& m) { S c, d; O().pp.encrypt(m, c); O().pp.decrypt(c, d); S e = m; O().pp.encrypt(e, e); return c + d + e + O().pp.encrypt(m) + O().pp.decrypt(m); }},
        {"hash", 0, [](const S& m) { S o; Hash::hash(m, o); S q; Hash::hash(m, 17, q); return o + q + Hash::hash(m) + Hash::hash(m, 5); }},
        {"prf", 0, [](const S& m) { return str(O().p32.prf(m)) + str(O().p65.prf(m)) + str(O().p1.prf(m)) + str(O().h32.hmac(m)) + str(O().s20.hmac(m)) + key_bytes(O().p300.derive_key(m)); }},
        {"prg", 0, [](const S& m) { S o, q; O().g.derive(m.size(), o); O().g.derive(m.size(), m.size(), q); S r; Prg::derive(key_from<32>(bytes(32, 9)), m.size(), r); return o + q + r + O().g.derive(m.size()) + Prg::derive(key_from<32>(bytes(32, 9)), 13, m.size()); }},
        {"set hash", 0, [](const S& m) { SetHash h; h.add_element(m); h.add_element(m); h.remove_element(m); return str(h.data()); }},
        {"random", 0, [](const S& m) { return random_string(m.size()); }},
        {"unwrap", 0, [](const S& m) { std::vector<uint8_t> v(m.begin(), m.end()); S r; try { O().w.unwrap<Prg>(v); } catch (const std::exception&) { r += "!"; } try { O().w.unwrap<ConstrainedRCPrf<16>>(v); } catch (const std::exception&) { r += "!"; } return r; }},
        {"import", 0, [](const S& m) { S r; try { Tdp t(m); } catch (const std::exception&) { r += "!"; } try { TdpInverse t(m); } catch (const std::exception&) { r += "!"; } try { TdpMultPool t(m, 2); } catch (const std::exception&) { r += "!"; } return r; }},
        {"short messages to the trapdoor permutation", 0, [](const S& m) { static Tdp t(RSA_KEYS[0].pub); static TdpInverse ti(RSA_KEYS[0].priv); S r, o; try { t.eval(m, o); r += o; } catch (const std::invalid_argument&) { r += "!"; } try { ti.eval(m, o); r += o; } catch (const std::invalid_argument&) { r += "!"; } if (m.size() != 256) { try { ti.invert(m, o); } catch (const std::invalid_argument&) { r += "!"; } try { ti.invert_mult(m, o, 3); } catch (const std::invalid_argument&) { r += "!"; } } return r + t.generate(key_from<32>(bytes(32, 3)), m.substr(0, 300)); }},
    };
    for (auto& g : fs) for (size_t n : lengths(g.lo, 300, T ? 1 << 21 : 1 << 20)) {
        if (n > 600 && strchr("is", g.name[0]) && strcmp(g.name, "set hash")) continue;
        CASE("strings: %s of %zu", g.name, n) {
            S base; { Rng::get().reset(9); base = g.f(bytes(n, n + 2)); }
            for (int mode = 1; mode <= 2; mode++) {
                Rng::get().reset(9); S same; bool in_kept;
                { fheap::On on((fheap::Mode)mode); S m = bytes(n, n + 2); S r = g.f(m); in_kept = m == bytes(n, n + 2); same = r == base ? "y" : "n"; }
                ctx.step(); CK(same == "y", "%s of %zu bytes on the fenced heap gives another result", g.name, n); CK(in_kept, "%s of %zu bytes changed its input", g.name, n);
            }
            ctx.outcome(base);
        };
    }
    // every operation, its objects and its results
    Rng::install();
    for (size_t i = 0; i < ops::all().size(); i++) CASE("fenced heap: %s", ops::all()[i].name.c_str()) {
        auto& op = ops::all()[i]; S base; { ops::World W(1, op.needs); base = ops::run(op, W); }
        for (int mode = 1; mode <= 2; mode++) {
            bool same;
            { fheap::On on((fheap::Mode)mode); int64_t live = fheap::st().live; (void)live; ops::World W(1, op.needs); S r = ops::run(op, W); same = r == base; r = ops::run(op, W); same = same && r == base; }
            ctx.step(2); CK(same, "%s on the fenced heap gives another result", op.name.c_str());
        }
        ctx.outcome(base);
    };
}
// ---- keys in DER and PEM --------------------------------------------------------------------------------------------
static int parse(const S& d, bool priv, bool fenced, S* exported = nullptr)
{
    Fence f(fenced ? d.size() : 1, Fence::END, fenced ? d.data() : nullptr); if (fenced) f.readonly();
    const uint8_t* p = fenced ? f.p : (const uint8_t*)d.data();
    fheap::On on(fenced ? fheap::END : fheap::OFF);
    mbedtls_rsa_context c; mbedtls_rsa_init(&c, 0, 0);
    int r = priv ? mbedtls_rsa_parse_key(&c, p, d.size(), nullptr, 0) : mbedtls_rsa_parse_public_key(&c, p, d.size());
    if (r == 0 && exported) { uint8_t b[4000]; int n = mbedtls_rsa_write_pubkey_der(&c, b, sizeof b); *exported = S((char*)b + sizeof b - n, n); }
    mbedtls_rsa_free(&c);
    mbedtls_pk_context k; mbedtls_pk_init(&k);
    int q = priv ? mbedtls_pk_parse_key(&k, p, d.size(), nullptr, 0) : mbedtls_pk_parse_public_key(&k, p, d.size());
    mbedtls_pk_free(&k);
    return r * 0x10000 + (q & 0xffff);
}
static S unpem(const S& t) { S b; bool in = false; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == S::npos) e = t.size(); S l = t.substr(i, e - i); i = e + 1; if (l[0] == '-') { in = true; continue; } if (in) b += l; } S o; unsigned acc = 0, bits = 0; for (char ch : b) { static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; if (ch == '=') break; acc = (acc << 6) | (unsigned)(strchr(T, ch) - T); bits += 6; if (bits >= 8) { bits -= 8; o += (char)(acc >> bits); } } return o; }
static void keys(Ctx& ctx)
{
    bool T = ctx.thorough;
    auto agree = [&](const S& d, bool priv, const char* what, size_t i) { int a = parse(d, priv, false), b = parse(d, priv, true); ctx.step(4); CK(a == b, "a %s key %s at %zu: verdict %x in ordinary memory, %x before an unmapped page", priv ? "private" : "public", what, i, a, b); ctx.outcome((uint64_t)(uint32_t)a); };
    for (int k : {0, 2}) for (int priv = 0; priv < 2; priv++) {
        S pem = priv ? RSA_KEYS[k].priv : RSA_KEYS[k].pub, der = unpem(pem);
        for (size_t b = 0; b <= der.size(); b += 16) CASE("DER of key %d.%d from %zu", k, priv, b) {
            for (size_t i = b; i < b + 16 && i <= der.size(); i++) {
                agree(der.substr(0, i), priv, "truncated", i);
                if (i < der.size()) for (int v : {0, 1, 2, 3, 4, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0xff}) { if (!T && i > 40 && (v & 3)) continue; S x = der; x[i] = (char)v; agree(x, priv, "altered", i); x.resize(i + 1 + (v & 7) < x.size() ? i + 1 + (v & 7) : x.size()); agree(x, priv, "altered and truncated", i); }
            }
        };
        for (size_t b = 0; b <= pem.size(); b += 64) CASE("PEM of key %d.%d from %zu", k, priv, b) {
            for (size_t i = b; i < b + 64 && i <= pem.size(); i++) { S x = pem.substr(0, i); agree(x + '\0', priv, "text truncated", i); agree(x, priv, "text truncated, without NUL", i); if (i < pem.size()) { x = pem; x[i] = 0; agree(x + '\0', priv, "text with a NUL", i); } }
        };
    }
    for (int k = 0; k < 3; k++) for (int which = 0; which < 4; which++) CASE("writing key %d, form %d, into every room", k, which) {
        mbedtls_rsa_context c; mbedtls_rsa_init(&c, 0, 0); S pem = RSA_KEYS[k].priv; mbedtls_rsa_parse_key(&c, (const uint8_t*)pem.c_str(), pem.size() + 1, nullptr, 0);
        auto wr = [&](uint8_t* b, size_t n) { return which == 0 ? mbedtls_rsa_write_key_der(&c, b, n) : which == 1 ? mbedtls_rsa_write_pubkey_der(&c, b, n) : which == 2 ? mbedtls_rsa_write_key_pem(&c, b, n) : mbedtls_rsa_write_pubkey_pem(&c, b, n); };
        static uint8_t big[8000]; memset(big, 0, sizeof big); int r = wr(big, sizeof big);
        S want = which < 2 ? S((char*)big + sizeof big - r, r) : S((char*)big);
        CK(which < 2 ? r > 0 : r == 0, "writing a key returned %d", r);
        if (which >= 2) CK(want == (which == 2 ? RSA_KEYS[k].priv : RSA_KEYS[k].pub), "the written key differs");
        size_t need = want.size() + (which < 2 ? 0 : 1), step = T ? 1 : 7;
        for (size_t room = 0; room <= need + 4; room += room + 40 < need ? step : 1) for (int w = 0; w < 2; w++) {
            Fence o(room, w ? Fence::BEGIN : Fence::END); memset(o.p, 0xA5, room); int q; { fheap::On on(fheap::END); q = wr(o.p, room); } ctx.step();
            if (room < need) CK(q < 0, "a key of %zu bytes was written into %zu (%d)", need, room, q); else if (room >= need + 3) CK(which < 2 ? q == (int)need : q == 0, "a key of %zu bytes was not written into %zu (%d)", need, room, q);
            if (q >= 0) { S got = which < 2 ? S((char*)o.p + room - q, q) : S((char*)o.p, want.size()); CK(got == want, "a key written into %zu bytes differs", room); }
            CK(o.intact(), "writing a key into %zu bytes wrote outside", room);
        }
        // the modular powers
        S m = bytes(256, 3); m[0] = 1; m = which == 0 ? m : S(256, 0);
        placed(ctx, "rsa_public", m, 256, [&](const uint8_t* i, uint8_t* o) { if (mbedtls_rsa_public(&c, i, o)) throw std::runtime_error("rsa_public failed"); }, 2);
        if (which == 0) placed(ctx, "rsa_private", m, 256, [&](const uint8_t* i, uint8_t* o) { if (mbedtls_rsa_private(&c, mbedTLS_rng_wrap, nullptr, i, o)) throw std::runtime_error("rsa_private failed"); }, 1);
        mbedtls_rsa_free(&c);
    };
}
static void explore(Ctx& ctx)
{
    init_crypto_lib(); Rng::install();
    O();
    pointers(ctx);
    arrays(ctx);
    strings(ctx);
    keys(ctx);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
