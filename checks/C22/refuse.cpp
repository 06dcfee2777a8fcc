// C22: calls at and around the boundary of their domain, and all short histories of failing and succeeding calls.
#define MC_MAIN
#include "ops.hpp"
#include "rsa.hpp"
#include <map>
using namespace mc;
using namespace mc::ops;
typedef std::string S;
#define CK(c, ...) (ctx.checks++, (c) ? true : (ctx.fail(__VA_ARGS__), false))

static S modulus_plus(int rsa_key, int d) { return rsa::be(rsa::key(rsa_key).n + d, 256); }
static const std::string& alone(int i)
{
    static std::map<int, S> m;
    auto it = m.find(i);
    if (it == m.end()) { World W(1, all()[i].needs); it = m.emplace(i, run(all()[i], W)).first; }
    return it->second;
}
static void expect_op(Ctx& ctx, int i, World& W, const S& history)
{
    S r = run(all()[i], W);
    ctx.step();
    CK(r == alone(i), "%s after [%s] gives %s, alone it gives %s", all()[i].name.c_str(), history.c_str(), hex(r).c_str(), hex(alone(i)).c_str());
}
static void histories(Ctx& ctx)
{
    bool T = ctx.thorough;
    auto sym = select(World::SYM | World::RC), tdp = select(World::ALL), fails = select(World::SYM | World::RC, FAIL);
    for (size_t i = 0; i < all().size(); i++) CASE("alone: %s", all()[i].name.c_str()) {
        S r = alone((int)i); ctx.step();
        CK(failed_as_documented(all()[i], r), "%s does not fail as documented: %s", all()[i].name.c_str(), hex(r).c_str());
        if (!(all()[i].flags & FAIL)) CK(r.compare(0, 9, "EXCEPTION") != 0, "%s throws: %s", all()[i].name.c_str(), r.c_str());
        // and again and again on the same objects
        World W(1, all()[i].needs); for (int k = 0; k < 5; k++) expect_op(ctx, (int)i, W, "itself"); ctx.outcome(r);
    };
    for (int a : sym) CASE("after %s", all()[a].name.c_str()) {
        for (int b : sym) { World W(1, World::SYM | World::RC); run(all()[a], W); expect_op(ctx, b, W, all()[a].name); }
        ctx.state(a);
    };
    // two failures, then everything
    for (int a : fails) for (int b : fails) CASE("after %s, %s", all()[a].name.c_str(), all()[b].name.c_str()) {
        World W(1, World::SYM | World::RC); S h = all()[a].name + ", " + all()[b].name; run(all()[a], W); run(all()[b], W);
        for (int c : sym) expect_op(ctx, c, W, h);
        ctx.state(1000 + a * 1000 + b);
    };
    if (T) for (int a : sym) for (int b : sym) CASE("after two: %s, %s", all()[a].name.c_str(), all()[b].name.c_str()) {
        S h = all()[a].name + ", " + all()[b].name;
        for (int c : sym) { World W(1, World::SYM | World::RC); run(all()[a], W); run(all()[b], W); expect_op(ctx, c, W, h); }
        ctx.state(1000 + a * 1000 + b);
    };
    std::vector<int> t2; for (int i : tdp) if (all()[i].needs == World::TDP) t2.push_back(i);
    for (int a : t2) CASE("trapdoor permutation after %s", all()[a].name.c_str()) {
        World W(1, World::TDP); S h = all()[a].name; run(all()[a], W);
        for (int b : t2) if (T || !(all()[b].flags & SLOW)) expect_op(ctx, b, W, h + " and more");
        ctx.state(900000 + a);
    };
    if (T) for (int a : t2) for (int b : t2) CASE("trapdoor permutation after %s, %s", all()[a].name.c_str(), all()[b].name.c_str()) {
        World W(1, World::TDP); S h = all()[a].name + ", " + all()[b].name; run(all()[a], W); run(all()[b], W);
        for (int c : t2) if ((all()[c].flags & FAIL) == 0 && !(all()[c].flags & SLOW)) expect_op(ctx, c, W, h);
    };
}
// ---- boundaries -----------------------------------------------------------------------------------------------------
// The kind of exception must be one of `kinds` ("none": no exception)
template<class F> static void want(Ctx& ctx, const S& kinds, const S& what, F f)
{
    const char* t = thrown(f);
    ctx.step();
    CK((" " + kinds + " ").find(S(" ") + t + " ") != S::npos, "%s: %s expected, got %s", what.c_str(), kinds.c_str(), t);
    ctx.outcome(what + t);
}
#define STR(...) [&] { char b_[200]; snprintf(b_, 200, __VA_ARGS__); return S(b_); }()
static void boundaries(Ctx& ctx)
{
    bool T = ctx.thorough;
    S in = "some input of 24 bytes..";
    for (size_t n = 0; n <= 200; n++) CASE("output lengths: %zu", n) {
        const char* k = n <= 64 ? "none" : "invalid_argument"; S big(256, 'k'), o;
        want(ctx, k, STR("Hash to %zu", n), [&] { Hash::hash(u8(in), in.size(), n, u8(big)); }); CK(n <= 64 ? big.substr(n) == S(256 - n, 'k') : big == S(256, 'k'), "Hash to %zu wrote too much", n);
        o = "keep"; want(ctx, k, STR("Hash to a string of %zu", n), [&] { Hash::hash(in, n, o); }); CK(n <= 64 ? o == Hash::hash(in).substr(0, n) : o == "keep", "Hash to a string of %zu: output %s", n, hex(o).c_str());
        want(ctx, k, STR("Hash string of %zu", n), [&] { o = Hash::hash(in, n); });
        HMac<Hash, 32> h(skey<32>(1)); HMac<hash::sha512, 20> g(skey<20>(2));
        S full = str(h.hmac(in));
        big.assign(256, 'k'); want(ctx, k, STR("HMac to %zu", n), [&] { h.hmac(u8(in), in.size(), u8(big), n); }); CK(n <= 64 ? big == full.substr(0, n) + S(256 - n, 'k') : big == S(256, 'k'), "HMac to %zu: output %s", n, hex(big).c_str());
        CK(str(h.hmac(in)) == full, "HMac changed after a call");
        S fg = str(g.hmac(in)); big.assign(256, 'k'); want(ctx, k, STR("HMac<sha512> to %zu", n), [&] { g.hmac(u8(in), in.size(), u8(big), n); }); CK(n <= 64 ? big == fg.substr(0, n) + S(256 - n, 'k') : big == S(256, 'k'), "HMac<sha512> to %zu: output %s", n, hex(big).c_str());
    };
    for (size_t n : {65536ul, 1ul << 31, (1ul << 32) + 3, 1ul << 63, ~0ul - 1, ~0ul}) CASE("output lengths: %zu", n) {
        S big(128, 'k'), o = "keep"; HMac<Hash, 32> h(skey<32>(1)); 
        want(ctx, "invalid_argument", "Hash to a huge length", [&] { Hash::hash(u8(in), in.size(), n, u8(big)); }); want(ctx, "invalid_argument", "Hash to a huge string", [&] { Hash::hash(in, n, o); }); want(ctx, "invalid_argument", "HMac to a huge length", [&] { h.hmac(u8(in), in.size(), u8(big), n); });
        CK(big == S(128, 'k') && o == "keep", "a refused call wrote to its output");
    };
    for (size_t n = 0; n <= 80; n++) CASE("null buffers, length %zu", n) {
        S big(256, 'k'); Prf<32> p(skey<32>(1)); Prf<100> q(skey<32>(1)); HMac<Hash, 32> h(skey<32>(1)); Prg g(skey<32>(1)); S pf = str(p.prf(in)), gf = g.derive(50);
        const char* k = n ? "invalid_argument" : "none invalid_argument";
        want(ctx, k, "Hash(null)", [&] { Hash::hash(nullptr, n, u8(big)); }); want(ctx, k, "Hash(null) to 5", [&] { Hash::hash(nullptr, n, 5, u8(big)); });
        want(ctx, k, "Prf(null)", [&] { p.prf(nullptr, n); }); want(ctx, k, "long Prf(null)", [&] { q.prf(nullptr, n); }); want(ctx, k, "derive_key(null)", [&] { p.derive_key(nullptr, n); }); want(ctx, k, "long derive_key(null)", [&] { q.derive_key(nullptr, n); });
        want(ctx, k, "HMac(null)", [&] { h.hmac(nullptr, n, u8(big), 64); }); want(ctx, k, "HMac(null)", [&] { h.hmac(nullptr, n); });
        if (n) { want(ctx, "invalid_argument", "Prg to null", [&] { g.derive(3, n, (unsigned char*)nullptr); }); want(ctx, "invalid_argument", "static Prg to null", [&] { Prg::derive(skey<32>(1), 3, n, (unsigned char*)nullptr); }); want(ctx, "invalid_argument", "HMac to null", [&] { h.hmac(u8(in), 5, nullptr, n); }); want(ctx, "invalid_argument", "Hash to null", [&] { Hash::hash(u8(in), 5, n, nullptr); }); CK(big == S(256, 'k'), "a refused call wrote to its output"); }
        want(ctx, "invalid_argument", "Hash to null", [&] { Hash::hash(u8(in), 5, nullptr); });
        CK(str(p.prf(in)) == pf && g.derive(50) == gf, "an object changed after refused calls");
    };
    for (int n = 0; n <= 140; n++) CASE("ciphertexts of %d bytes", n) {
        Cipher c(skey<32>(1)); S m = "mmm", ct, o; Rng::get().reset(1); c.encrypt(m, ct);
        o = "keep"; want(ctx, n <= 32 ? "invalid_argument" : "runtime_error", STR("decrypting %d bytes", n), [&] { c.decrypt(S(n, 'x'), o); }); CK(o == "keep", "decrypting %d bytes changed the output", n);
        o = "keep"; S mm(n, 'm'); want(ctx, n ? "none" : "invalid_argument", STR("encrypting %d bytes", n), [&] { c.encrypt(mm, o); }); CK(n ? o.size() == (size_t)n + 32 : o == "keep", "encrypting %d bytes", n);
        S d; c.decrypt(ct, d); CK(d == m, "the cipher changed after a refused call");
        Wrapper w(skey<32>(2)); Prg g(skey<32>(3)); auto rep = w.wrap(g); std::vector<uint8_t> v(rep); v.resize(n, 7); std::vector<uint8_t> was(v);
        if ((size_t)n != rep.size()) { want(ctx, "invalid_argument runtime_error", STR("unwrapping %d bytes", n), [&] { w.unwrap<Prg>(v); }); CK(v == was, "unwrapping changed the input"); want(ctx, "invalid_argument runtime_error", STR("unwrapping %d bytes", n), [&] { w.unwrap<ConstrainedRCPrf<16>>(v); }); want(ctx, "invalid_argument runtime_error", STR("unwrapping %d bytes", n), [&] { w.unwrap<TdpInverse>(v); }); }
        CK(w.unwrap<Prg>(rep).derive(9) == Prg(skey<32>(3)).derive(9), "the wrapper changed after refused calls");
    };
    // trees
    for (int h = 0; h <= 255; h++) CASE("tree of height %d", h) {
        want(ctx, h >= 2 && h <= 64 ? "none" : "invalid_argument", STR("height %d", h), [&] { RCPrf<16> r(skey<32>(1), (uint8_t)h); });
        if (h < 2 || h > 64) return;
        RCPrf<16> r(skey<32>(1), (uint8_t)h); uint64_t n = h == 64 ? 1ull << 63 : 1ull << (h - 1); S e0 = str(r.eval(0)), e1 = str(r.eval(n - 1));
        std::vector<uint64_t> ends = {0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, ~0ull - 1, ~0ull};
        for (uint64_t x : ends) { const char* k = x < n ? "none" : "out_of_range invalid_argument"; want(ctx, k, STR("height %d: eval(%llu)", h, (unsigned long long)x), [&] { r.eval(x); }); }
        auto same = [&] { CK(str(r.eval(0)) == e0 && str(r.eval(n - 1)) == e1, "the tree of height %d changed after refused calls", h); };
        for (uint64_t a : ends) for (uint64_t b : ends) {
            bool rev = a > b, out = b >= n || a >= n; int calls = 0;
            S k = rev && out ? "invalid_argument out_of_range" : rev ? "invalid_argument" : out ? "out_of_range" : "none";
            if (rev || out || b - a < 40) { want(ctx, k, STR("height %d: eval_range(%llu, %llu)", h, (unsigned long long)a, (unsigned long long)b), [&] { r.eval_range(a, b, [&](uint64_t, const std::array<uint8_t, 16>&) { calls++; }); }); CK(calls == (k == "none" ? (int)(b - a + 1) : 0), "eval_range(%llu, %llu) called back %d times", (unsigned long long)a, (unsigned long long)b, calls); }
            S kc = k; if (k == "none" && a == 0 && b == n - 1) kc = "out_of_range";
            want(ctx, kc, STR("height %d: constrain(%llu, %llu)", h, (unsigned long long)a, (unsigned long long)b), [&] {
                auto c = r.constrain(a, b);
                for (uint64_t x : ends) { bool inside = x >= a && x <= b; const char* t = thrown([&] { c.eval(x); }); CK(!strcmp(t, inside ? "none" : "out_of_range"), "constrained to %llu..%llu: eval(%llu) %s", (unsigned long long)a, (unsigned long long)b, (unsigned long long)x, t); }
                if (h <= 8 || T) for (uint64_t x : ends) for (uint64_t y : ends) {
                    bool rv = x > y, ot = x < a || y > b || y < a || x > b; S kk = rv && ot ? "invalid_argument out_of_range" : rv ? "invalid_argument" : ot ? "out_of_range" : "none";
                    const char* t = thrown([&] { auto d = c.constrain(x, y); }); CK((" " + kk + " ").find(S(" ") + t + " ") != S::npos, "constrained to %llu..%llu: constrain(%llu, %llu) %s, %s expected", (unsigned long long)a, (unsigned long long)b, (unsigned long long)x, (unsigned long long)y, t, kk.c_str());
                    if (rv || ot || y - x < 20) { int cc = 0; t = thrown([&] { c.eval_range(x, y, [&](uint64_t, const std::array<uint8_t, 16>&) { cc++; }); }); CK((" " + kk + " ").find(S(" ") + t + " ") != S::npos && cc == (kk == "none" ? (int)(y - x + 1) : 0), "constrained to %llu..%llu: eval_range(%llu, %llu) %s after %d calls, %s expected", (unsigned long long)a, (unsigned long long)b, (unsigned long long)x, (unsigned long long)y, t, cc, kk.c_str()); }
                    ctx.step(2);
                }
                if (a < n) { S va = str(c.eval(a)); CK(va == str(r.eval(a)), "the constrained key changed after refused calls"); }
            });
        }
        same();
    };
    // trapdoor permutation: messages around the modulus: the functions that refuse them keep their outputs
    for (int d = -3; d <= 3; d++) for (int f = 0; f < 8; f++) CASE("the modulus plus %d, function %d, and the largest string", d, f) {
        World V(1, World::TDP);
        for (bool largest : {false, true}) {
            S m = largest ? S(256, '\xff') : modulus_plus(V.rsa, d), o = "keep"; bool thrown = false;
            try {
                switch (f) {
                case 0: V.t->eval(m, o); break;
                case 1: V.ti->eval(m, o); break;
                case 2: V.pool->eval(m, o); break;
                case 3: V.pool->eval(m, o, 3); break;
                case 4: V.ti->invert(m, o); break;
                case 5: V.ti->invert_mult(m, o, 1); break;
                case 6: V.ti->invert_mult(m, o, 4); break;
                case 7: o = V.ti->invert(m); break;
                }
            } catch (const std::invalid_argument&) { thrown = true; } catch (const std::out_of_range&) { thrown = true; } catch (const std::runtime_error&) { thrown = true; }
            ctx.step();
            CK(thrown || !(largest || d < 0) || o.size() == 256, "the output has %zu bytes", o.size());
            CK(!thrown || largest || d >= 0, "a message below the modulus is refused");
            CK(!thrown || o == "keep", "the refused call changed its output");
            if (thrown) { // in place
                S x = m; try { if (f == 4) V.ti->invert(x, x); else if (f == 0) V.t->eval(x, x); } catch (...) {} CK(x == m, "the refused call in place changed its output");
            }
            S g = msg256(1); CK(V.ti->eval(V.ti->invert(g)) == g, "the permutation changed after a refused call");
        }
    };
    // trapdoor permutation: message sizes and orders
    static World* W = nullptr; if (!W) W = new World(1, World::TDP);
    for (int n = 0; n <= 600; n++) CASE("messages of %d bytes to the trapdoor permutation", n) {
        S m(n, 'x'); if (n) m[0] = 1; const char* k = n == 256 ? "none" : "invalid_argument runtime_error"; S o;
        auto kept = [&](const char* what) { if (n != 256) CK(o == "keep", "%s of %d bytes changed its output", what, n); };
        o = "keep"; want(ctx, k, STR("Tdp::eval of %d", n), [&] { W->t->eval(m, o); }); kept("Tdp::eval");
        o = "keep"; want(ctx, k, STR("TdpInverse::eval of %d", n), [&] { W->ti->eval(m, o); }); kept("TdpInverse::eval");
        o = "keep"; want(ctx, k, STR("TdpMultPool::eval of %d", n), [&] { W->pool->eval(m, o); }); kept("TdpMultPool::eval");
        o = "keep"; want(ctx, k, STR("TdpMultPool::eval of %d, order 2", n), [&] { W->pool->eval(m, o, 2); }); kept("TdpMultPool::eval");
        o = "keep"; want(ctx, k, STR("TdpInverse::invert of %d", n), [&] { W->ti->invert(m, o); }); kept("TdpInverse::invert");
        o = "keep"; want(ctx, k, STR("TdpInverse::invert_mult of %d", n), [&] { W->ti->invert_mult(m, o, 3); }); kept("TdpInverse::invert_mult");
        o = "keep"; want(ctx, k, STR("TdpInverse::invert_mult of %d, order 0", n), [&] { W->ti->invert_mult(m, o, 0); }); kept("TdpInverse::invert_mult");
        want(ctx, k, STR("Tdp::eval of %d", n), [&] { W->t->eval(m); }); want(ctx, k, STR("TdpInverse::invert of %d", n), [&] { W->ti->invert(m); }); want(ctx, k, STR("TdpMultPool::eval of %d", n), [&] { W->pool->eval(m, 3); });
        S g = msg256(1); CK(W->ti->eval(g) == W->t->eval(g) && W->pool->eval(g, 1) == W->t->eval(g), "the permutation changed after refused calls");
    };
    for (int size : {0, 1, 2, 3, 7, 17, 100, 127, 255}) for (int part = 0; part < 4; part++) CASE("orders of a pool of %d, part %d", size, part) {
        if (size == 0) { want(ctx, "invalid_argument", "a pool of 0", [&] { TdpMultPool p(RSA_KEYS[0].pub, 0); }); return; }
        TdpMultPool p(RSA_KEYS[size == 255 ? 2 : 0].pub, (uint8_t)size); S m = msg256(1), one = p.eval(m); CK(p.maximum_order() == size, "a pool of %d announces the maximum order %d", size, p.maximum_order());
        for (int o = part; o < 256; o += 4) {
            bool in_ = o >= 1 && o <= size; if (in_ && o > 3 && o != size && !T) continue; // the costly ones at the ends only
            S out = "keep"; want(ctx, in_ ? "none" : "invalid_argument", STR("pool of %d, order %d", size, o), [&] { p.eval(m, out, (uint8_t)o); }); if (!in_) CK(out == "keep", "a refused order changed the output");
            want(ctx, in_ ? "none" : "invalid_argument", STR("pool of %d, order %d, array", size, o), [&] { std::array<uint8_t, 256> a; memcpy(a.data(), m.data(), 256); p.eval(a, (uint8_t)o); });
        }
        CK(p.eval(m) == one, "the pool changed after refused calls");
    };
    CASE("set hash of altered points") { S e; { SetHash h; h.add_element("a"); e = str(h.data()); } for (int i = 0; i < 256; i++) { std::array<uint8_t, 32> b; memcpy(b.data(), e.data(), 32); b[i / 8] ^= (uint8_t)(1 << (i % 8)); want(ctx, "none invalid_argument", "altered point", [&] { SetHash h(b); CK(str(h.data()) == str(b), "an imported set hash differs from its bytes"); }); } };
    CASE("prg windows") { Prg g(skey<32>(1)); S whole = g.derive(300); for (size_t l : {0, 1, 63, 64, 65, 200}) for (size_t o : {0, 1, 63, 64, 65, 100}) { S out = "keep"; want(ctx, "none", "Prg::derive", [&] { g.derive(o, l, out); }); CK(out == whole.substr(o, l), "Prg::derive(%zu, %zu)", o, l); } };
}
static void explore(Ctx& ctx)
{
    init_crypto_lib();
    Rng::install();
    histories(ctx);
    boundaries(ctx);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
