// C15: a pool's evaluation at every order is the iterated plain permutation; pools are values (copy, assignment).
#define MC_MAIN
#include "rsa.hpp"
#include "rng.hpp"
#include <new>
#include "tdp_impl/tdp_impl_mbedtls.hpp"
using namespace mc;
using namespace mc::rsa;

// the largest size the exponent e^size < n allows
static int limit(const rsa::Key& k) { mpz_class x = k.e; int s = 1; while (s < 255 && x * k.e < k.n) { x *= k.e; s++; } return s; }

static const std::string& iter(int ki, int mi, int order, const mpz_class& x)
{
    static std::map<std::array<int, 2>, std::vector<std::string>> memo;
    auto& v = memo[{ki, mi}];
    const rsa::Key& k = key(ki);
    if (v.empty()) v.push_back(be(x, 256));
    while ((int)v.size() <= order) v.push_back(be(k.eval(num(v.back())), 256));
    return v[order];
}
static mpz_class msg(const rsa::Key& k, int j)
{
    switch (j) {
    case 0: return 2; case 1: return k.n - 1; case 2: return k.p * 5; case 3: return num(mc::bytes(256, 88)) % k.n; case 4: return 0; case 5: return k.n; case 6: return two(2048) - 1;
    }
    return k.n - 2;
}
enum { NM = 8 };

static void whole(Ctx& ctx, const TdpMultPool& p, int ki, int size, int mi, bool all)
{
    const rsa::Key& k = key(ki);
    mpz_class x = msg(k, mi); std::string m = be(x, 256);
    ctx.check(p.maximum_order() == size, "maximum_order %d, expected %d", p.maximum_order(), size);
    std::string o = "junk";
    same(ctx, p.eval(m), iter(ki, mi, 1, x), "eval without order");
    p.eval(m, o); same(ctx, o, iter(ki, mi, 1, x), "eval(string, out) without order");
    same(ctx, str(p.eval(arr<Msg>(m))), iter(ki, mi, 1, x), "eval(array) without order");
    ctx.step(3);
    for (int n = 0; n < 256; n++) {
        bool ok = n >= 1 && n <= size;
        if (!ok && !all && n > size + 2 && n < 254 && n % 16) continue;
        if (ok && !all && n > 3 && n < size - 1 && n % 7) continue;
        if (ok) {
            const std::string& want = iter(ki, mi, n, x);
            same(ctx, str(p.eval(arr<Msg>(m), (uint8_t)n)), want, ("order " + std::to_string(n) + " (array)").c_str());
            if (n < 4 || n % 8 == 0 || n == size) {
                same(ctx, p.eval(m, (uint8_t)n), want, ("order " + std::to_string(n) + " (string)").c_str());
                o = m; p.eval(o, o, (uint8_t)n); same(ctx, o, want, "in place");
            }
            ctx.outcome(want);
        } else {
            o = "junk";
            for (int f = 0; f < 3; f++) {
                const char* e = thrown([&] { if (f == 0) p.eval(m, o, (uint8_t)n); else if (f == 1) p.eval(m, (uint8_t)n); else p.eval(arr<Msg>(m), (uint8_t)n); });
                ctx.check(!strcmp(e, "invalid_argument") && o == "junk", "order %d of a pool of size %d: %s", n, size, e);
            }
        }
        ctx.step();
    }
}

// the classes behind the public ones, which are values too
struct ImplPool {
    TdpMultPoolImpl_mbedTLS p;
    ImplPool(const std::string& pk, uint8_t n) : p(pk, n) {}
    int maximum_order() const { return p.maximum_order(); }
    void eval(const std::string& in, std::string& out, uint8_t n) const { p.eval_pool(in, out, n); }
    std::string eval(const std::string& in, uint8_t n) const
    {
        std::string o; eval(in, o, n);
        if (n == 1) { std::string q; p.eval(in, q); if (q != o) throw std::logic_error("order 1 and evaluation without order differ"); }
        if (str(p.eval_pool(arr<Msg>(in), n)) != o) throw std::logic_error("arrays and strings differ");
        return o;
    }
    std::string sample() const { return p.sample(); }
};
struct ImplTdp {
    TdpImpl_mbedTLS p; int size;
    ImplTdp(const std::string& pk, uint8_t n) : p(pk), size(n) {}
    int maximum_order() const { return size; }
    void eval(const std::string& in, std::string& out, uint8_t n) const { if (n > size) throw std::invalid_argument(""); out = in; for (int i = 0; i < n; i++) { std::string t; p.eval(out, t); out = t; } }
    std::string eval(const std::string& in, uint8_t n) const { std::string o; eval(in, o, n); return o; }
    std::string sample() const { return p.sample(); }
};

template <class Pool>
static void values(Ctx& ctx, const char* name, int depth)
{
    // histories of three pools as values
    struct Conf { int k, size; };
    static const Conf CONF[] = {{0, 1}, {0, 3}, {2, 5}, {5, 2}, {2, 1}};
    enum { NC = 5, S = 3 };
    enum { NOPS = S * NC + S * S /*copy-construct a from b*/ + S * S /*assign*/ + S /*destroy*/ + S /*use*/ + 1 /*through a temporary*/ };
    sequences(NOPS, 1, 1, [&](const std::vector<int>& f) {
        if (f[0] >= NC) return; // the first operation creates slot 0
        for (int g = 0; g < NOPS; g++)
            CASE("%s %d.%d*", name, f[0], g) {
                sequences(NOPS, 0, depth - 1, [&](const std::vector<int>& rest) {
                    std::vector<int> seq = {f[0], g}; seq.insert(seq.end(), rest.begin(), rest.end());
                    std::unique_ptr<Pool> s[S]; int m[S] = {-1, -1, -1};
                    auto use = [&](int i, bool quick) {
                        if (m[i] < 0) return;
                        const Conf& c = CONF[m[i]]; const rsa::Key& k = key(c.k);
                        mpz_class x = msg(k, 3); std::string w = be(x, 256);
                        if (!ctx.check(s[i]->maximum_order() == c.size, "maximum_order of slot %d: %d, expected %d", i, s[i]->maximum_order(), c.size)) return;
                        for (int n = 1; n <= c.size; n++) { same(ctx, s[i]->eval(w, (uint8_t)n), iter(c.k, 3, n, x), "pool after a history"); ctx.step(); }
                        std::string o = "junk"; const char* e = thrown([&] { s[i]->eval(w, o, (uint8_t)(c.size + 1)); });
                        ctx.check(!strcmp(e, "invalid_argument") && o == "junk", "order too large after a history: %s", e);
                        if (!quick) same(ctx, num(s[i]->sample()) < k.n ? "" : "not below the modulus", "", "sample");
                    };
                    for (size_t q = 0; q < seq.size(); q++) {
                        int op = seq[q];
                        if (op < S * NC) { int i = op / NC, c = op % NC; s[i].reset(new Pool(key(CONF[c].k).pub(), (uint8_t)CONF[c].size)); m[i] = c; continue; }
                        op -= S * NC;
                        if (op < S * S) { int a = op / S, b = op % S; if (m[b] < 0 || a == b) return; s[a].reset(new Pool(*s[b])); m[a] = m[b]; continue; }
                        op -= S * S;
                        if (op < S * S) { int a = op / S, b = op % S; if (m[a] < 0 || m[b] < 0) return; Pool& r = (*s[a] = *s[b]); ctx.check(&r == s[a].get(), "assignment returns its left side"); m[a] = m[b]; continue; }
                        op -= S * S;
                        if (op < S) { if (m[op] < 0) return; s[op].reset(); m[op] = -1; continue; }
                        op -= S;
                        if (op < S) { if (m[op] < 0 || q + 1 == seq.size()) return; use(op, false); continue; }
                        if (m[0] < 0) return;
                        { Pool t(key(CONF[2].k).pub(), 7); t = *s[0]; Pool u(t); *s[0] = u; }
                    }
                    uint64_t st = 0; for (int i = 0; i < S; i++) st = st * 10 + m[i] + 1;
                    ctx.state(1000000 + st);
                    for (int i = 0; i < S; i++) use(i, true);
                    ctx.tick();
                });
            };
    });
}

static void explore(Ctx& ctx)
{
    if (sodium_init() < 0) abort();
    Rng::install();
    std::vector<int> keys = {0, 2, 4, 5, 6, 7, 8, 10};
    for (int ki : keys) {
        for (int size = 0; size < 256; size++) {
            bool e3 = ki == 2;
            if (!ctx.thorough && size > (ki == 0 || e3 ? 10 : 5) && size % (ki == 0 ? 16 : 32) > (e3 || ki == 0 ? 1 : 0) && size < 254 && !(size >= 126 && size <= 129)) continue;
            CASE("key=%d size=%d", ki, size) {
                const rsa::Key& k = key(ki);
                int lim = limit(k);
                if (size == 0 || size > lim + 1) { // the exponent of the last order would exceed the modulus
                    const char* e = thrown([&] { TdpMultPool p(k.pub(), (uint8_t)size); });
                    ctx.check(!strcmp(e, size == 0 ? "invalid_argument" : "runtime_error"), "size %d: %s", size, e);
                    ctx.step();
                    return;
                }
                if (size == lim + 1) return;
                TdpMultPool p(k.pub(), (uint8_t)size);
                ctx.state(ki * 1000 + size);
                for (int mi = 0; mi < NM; mi++) { whole(ctx, p, ki, size, mi, ctx.thorough || size <= 10); ctx.tick(); if (size > 40 && !ctx.thorough && mi == 3) break; }
                Tdp t(k.pub());
                std::string m = be(msg(k, 3), 256), z = m;
                for (int n = 1; n <= std::min(size, 12); n++) { z = t.eval(z); same(ctx, p.eval(m, (uint8_t)n), z, "pool and repeated Tdp::eval"); ctx.step(2); }
                same(ctx, p.public_key(), t.public_key(), "public_key");
                TdpInverse inv(k.priv());
                if (size <= 8) for (int n = 1; n <= size; n++) { same(ctx, inv.invert_mult(p.eval(m, (uint8_t)n), n), m, "invert_mult undoes the pool"); ctx.step(2); }
            };
        }
    }
    values<TdpMultPool>(ctx, "history", ctx.thorough ? 4 : 3);
    values<ImplPool>(ctx, "implementation history", ctx.thorough ? 4 : 3);
    values<ImplTdp>(ctx, "permutation history", ctx.thorough ? 4 : 3);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
