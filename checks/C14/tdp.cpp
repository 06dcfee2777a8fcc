// C14: evaluation, inversion and multiple inversion of the trapdoor permutation against modular exponentiation over GMP.
#define MC_MAIN
#include "rsa.hpp"
#include "rng.hpp"
using namespace mc;
using namespace mc::rsa;

static const std::vector<uint32_t>& orders(bool thorough)
{
    static std::vector<uint32_t> v;
    if (v.empty()) {
        for (uint32_t i = 0; i <= (thorough ? 140 : 20); i++) v.push_back(i);
        for (uint32_t x : {31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 65535u, 65536u, 65537u, 16777216u, 2147483647u, 2147483648u, 2147483649u, 4294967294u, 4294967295u})
            if (x > v.back()) v.push_back(x);
    }
    return v;
}

// the ways to get an object of a private key
static std::unique_ptr<TdpInverse> object(const rsa::Key& k, int how)
{
    std::unique_ptr<TdpInverse> t(new TdpInverse(k.priv()));
    switch (how) {
    case 1: return std::unique_ptr<TdpInverse>(new TdpInverse(t->private_key()));
    case 2: { std::unique_ptr<TdpInverse> u(new TdpInverse(std::move(*t))); return u; }
    case 3: { Wrapper w(mk<32>(1)); auto r = w.wrap(*t); t.reset(); return std::unique_ptr<TdpInverse>(new TdpInverse(w.unwrap<TdpInverse>(r))); }
    case 4: { t->invert(std::string(256, 1)); t->sample(); t->public_key(); return std::unique_ptr<TdpInverse>(new TdpInverse(TdpInverse(t->private_key()).private_key())); }
    }
    return t;
}
static std::unique_ptr<Tdp> pubobject(const rsa::Key& k, int how)
{
    std::unique_ptr<Tdp> t(new Tdp(k.pub()));
    switch (how) {
    case 1: return std::unique_ptr<Tdp>(new Tdp(TdpInverse(k.priv()).public_key()));
    case 2: { std::unique_ptr<Tdp> u(new Tdp(*t)); t.reset(); return u; }
    case 3: { std::unique_ptr<Tdp> u(new Tdp(RSA_KEYS[3].pub)); u->eval(std::string(256, 1)); t->eval(std::string(256, 1)); *u = *t; t.reset(); return u; }
    case 4: { Tdp& a = *t; a = *t; return std::unique_ptr<Tdp>(new Tdp(t->public_key())); }
    case 5: { std::unique_ptr<Tdp> u(new Tdp(RSA_KEYS[2].pub)), v(new Tdp(RSA_KEYS[3].pub)); *v = *u; *v = *t; *u = *v; t.reset(); v.reset(); return u; }
    }
    return t;
}

static void one(Ctx& ctx, const rsa::Key& k, const Tdp& pub, const TdpInverse& t, const mpz_class& x, const std::vector<uint32_t>& ord)
{
    std::string m = be(x, 256), y = be(k.eval(x), 256), i1 = be(k.invert(x), 256), red = be(x % k.n, 256);
    bool reduced = x < k.n;
    ctx.outcome(y); ctx.outcome(i1);
    std::string o = "junk";
    same(ctx, pub.eval(m), y, "Tdp::eval(string)");
    pub.eval(m, o); same(ctx, o, y, "Tdp::eval(string, out)");
    o = m; pub.eval(o, o); same(ctx, o, y, "Tdp::eval in place");
    same(ctx, str(pub.eval(arr<Msg>(m))), y, "Tdp::eval(array)");
    same(ctx, t.eval(m), y, "TdpInverse::eval(string)");
    o = "junk"; t.eval(m, o); same(ctx, o, y, "TdpInverse::eval(string, out)");
    same(ctx, str(t.eval(arr<Msg>(m))), y, "TdpInverse::eval(array)");
    ctx.step(7);
    if (reduced) {
        same(ctx, t.invert(m), i1, "invert(string)");
        o = "junk"; t.invert(m, o); same(ctx, o, i1, "invert(string, out)");
        o = m; t.invert(o, o); same(ctx, o, i1, "invert in place");
        same(ctx, str(t.invert(arr<Msg>(m))), i1, "invert(array)");
        same(ctx, pub.eval(t.invert(m)), m, "eval(invert)");
        ctx.step(5);
    } else {
        o = "junk";
        const char* e = thrown([&] { t.invert(m, o); });
        // refused, or inverted as its residue; never anything else
        ctx.check(!strcmp(e, "invalid_argument") || (!strcmp(e, "none") && o == i1), "invert of an unreduced value: %s", e);
        ctx.step();
    }
    same(ctx, t.invert(t.eval(m)), red, "invert(eval)");
    for (uint32_t n : ord) {
        std::string want = be(k.invert(x, n), 256);
        same(ctx, str(t.invert_mult(arr<Msg>(m), n)), want, ("invert_mult(array, " + std::to_string(n) + ")").c_str());
        if (n < 4 || n % 5 == 0) {
            same(ctx, t.invert_mult(m, n), want, ("invert_mult(string, " + std::to_string(n) + ")").c_str());
            o = m; t.invert_mult(o, o, n); same(ctx, o, want, "invert_mult in place");
        }
        ctx.outcome(want); ctx.step();
    }
    if (reduced) { // single inversions, one by one, undone by evaluations
        std::string z = m;
        for (uint32_t n = 1; n <= 5; n++) { z = t.invert(z); same(ctx, t.invert_mult(m, n), z, "invert_mult and repeated invert"); ctx.step(2); }
        for (uint32_t n = 1; n <= 5; n++) { z = pub.eval(z); ctx.step(); }
        same(ctx, z, m, "five inversions and five evaluations");
    }
}

static void explore(Ctx& ctx)
{
    if (sodium_init() < 0) abort();
    Rng::install();
    std::vector<uint32_t> few = {0, 1, 2, 3, 7, 4294967295u};
    for (int i = 0; i < NKEYS; i++) {
        size_t nm = 0;
        { rsa::Key d; nm = 12 + 16 + 3 + 32 + 8; }
        for (size_t j = 0; j < nm + 8; j++) {
            CASE("key=%d message=%zu", i, j) {
                const rsa::Key& k = key(i);
                auto v = messages(k);
                if (v.size() != nm) ctx.fail("harness: %zu messages", v.size());
                auto u = unreduced(k);
                if (j >= v.size() + u.size()) return;
                Rng::get().reset(j);
                auto t = object(k, 0); auto p = pubobject(k, 0);
                one(ctx, k, *p, *t, j < v.size() ? v[j] : u[j - v.size()], ctx.thorough || j % 8 == i % 8 ? orders(ctx.thorough) : few);
            };
        }
        for (int a = 0; a < 5; a++)
            for (int b = 0; b < 6; b++)
                CASE("key=%d private-object=%d public-object=%d", i, a, b) {
                    const rsa::Key& k = key(i);
                    Rng::get().reset(a * 7 + b);
                    auto t = object(k, a); auto p = pubobject(k, b);
                    ctx.state(fnv(k.what) + a * 10 + b);
                    same(ctx, p->public_key(), t->public_key(), "public keys of both objects");
                    auto v = messages(k);
                    for (size_t j : {size_t(2), size_t(1), size_t(12), size_t(40), v.size() - 1}) one(ctx, k, *p, *t, v[j], few);
                    one(ctx, k, *p, *t, k.n, few);
                };
    }
    // generated keys
    for (int g = 0; g < (ctx.thorough ? 16 : 4); g++)
        CASE("generated key %d", g) {
            Rng::get().reset(9000 + g);
            TdpInverse t;
            Tdp p(t.public_key());
            TdpInverse t2(t.private_key());
            for (int j = 0; j < 4; j++) {
                std::string m = mc::bytes(256, 40 + j); m[0] &= 0x3f;
                if (j == 0) m = std::string(255, 0) + "\2";
                std::string z = m;
                for (uint32_t n = 1; n <= 4; n++) {
                    z = t.invert(z);
                    same(ctx, t.invert_mult(m, n), z, "generated: invert_mult");
                    same(ctx, t2.invert_mult(m, n), z, "generated and reimported: invert_mult");
                    ctx.step(3);
                }
                for (uint32_t n = 1; n <= 4; n++) z = n % 2 ? p.eval(z) : t.eval(z);
                same(ctx, z, m, "generated: four inversions undone");
                ctx.outcome(z);
            }
        };
    // the answers of the generator (used to blind the inversion) do not influence the result
    for (int s = 0; s < 40; s++)
        CASE("generator answers %d", s) {
            const rsa::Key& k = key(s % 4);
            mpz_class x = num(mc::bytes(256, 700 + s)) % k.n;
            TdpInverse t(k.priv());
            Rng::get().reset(100 + s);
            if (s % 5 == 1) { Rng::get().constant = true; Rng::get().value = 0xff; }
            if (s % 5 == 2) { Rng::get().constant = true; Rng::get().value = 0x01; }
            if (s % 5 == 3) Rng::get().forced = std::vector<uint8_t>(256, 0xff);
            for (int j = 0; j < 12; j++) {
                same(ctx, t.invert(be(x, 256)), be(k.invert(x), 256), "invert");
                ctx.step();
            }
        };
    for (int i = 0; i < 4; i++)
        CASE("long run key=%d", i) { // blinding values evolve with every inversion
            const rsa::Key& k = key(i);
            TdpInverse t(k.priv()); Tdp p(k.pub());
            Rng::get().reset(5);
            mpz_class x = 7;
            for (int j = 0; j < (ctx.thorough ? 20000 : 500); j++) {
                std::string z = t.invert(be(x, 256));
                if (!same(ctx, p.eval(z), be(x, 256), "long run")) break;
                ctx.step(2); ctx.tick();
                x = num(z);
            }
        };
    // histories on one live object
    enum { NOPS = 14 };
    int depth = ctx.thorough ? 4 : 3;
    sequences(NOPS, 2, 2, [&](const std::vector<int>& first) {
        CASE("history %s*", join(first).c_str()) {
            const rsa::Key& k = key(first[0] % 2 == 0 ? 0 : 2); const rsa::Key& k2 = key(1);
            mpz_class a = num(mc::bytes(256, 50)) % k.n, b = k.p * 3;
            std::string sa = be(a, 256), sb = be(b, 256);
            static std::map<std::pair<int, int>, std::string> memo;
            auto& mm = memo; int kk = first[0] % 2;
            auto exp = [&](int what) -> const std::string& {
                std::string& r = mm[{kk, what}];
                if (r.empty()) switch (what) {
                    case 0: r = be(k.eval(a), 256); break; case 1: r = be(k.eval(b), 256); break;
                    case 2: r = be(k.invert(a), 256); break; case 3: r = be(k.invert(b), 256); break;
                    case 4: r = be(k.invert(a, 3), 256); break; case 5: r = be(k.invert(b, 2), 256); break;
                }
                return r;
            };
            std::string pk0 = TdpInverse(k.priv()).public_key(), sk0 = TdpInverse(k.priv()).private_key(), other = k2.pub();
            auto run = [&](const std::vector<int>& rest) {
                std::unique_ptr<TdpInverse> t(new TdpInverse(k.priv())); std::unique_ptr<Tdp> p(new Tdp(k.pub()));
                std::vector<int> all = first; all.insert(all.end(), rest.begin(), rest.end());
                Rng::get().reset(3);
                uint64_t st = kk;
                for (int op : all) {
                    std::string o = "junk";
                    switch (op) {
                    case 0: same(ctx, p->eval(sa), exp(0), "eval a"); break;
                    case 1: same(ctx, t->eval(sb), exp(1), "eval b"); break;
                    case 2: same(ctx, t->invert(sa), exp(2), "invert a"); break;
                    case 3: same(ctx, t->invert(sb), exp(3), "invert b"); break;
                    case 4: same(ctx, t->invert_mult(sa, 3), exp(4), "invert_mult a 3"); break;
                    case 5: same(ctx, t->invert_mult(sb, 2), exp(5), "invert_mult b 2"); break;
                    case 6: same(ctx, t->invert_mult(sa, 0), sa, "invert_mult a 0"); break;
                    case 7: { const char* e = thrown([&] { t->invert(std::string(256, '\xff'), o); }); ctx.check(!strcmp(e, "invalid_argument") && o == "junk", "invert of 2^2048-1: %s", e); break; }
                    case 8: { const char* e = thrown([&] { t->invert_mult(std::string(255, '\x7f'), o, 2); }); ctx.check(!strcmp(e, "invalid_argument") && o == "junk", "invert_mult of a short string: %s", e); break; }
                    case 9: same(ctx, t->public_key(), pk0, "public_key"); same(ctx, t->private_key(), sk0, "private_key"); break;
                    case 10: { std::unique_ptr<Tdp> q(new Tdp(other)); q->eval(sa); *q = *p; p = std::move(q); break; }
                    case 11: { std::unique_ptr<TdpInverse> q(new TdpInverse(std::move(*t))); t = std::move(q); break; }
                    case 12: { std::unique_ptr<Tdp> q(new Tdp(*p)); p = std::move(q); break; }
                    case 13: same(ctx, t->eval(t->sample()).substr(0, 0), "", "sample"); { const char* e = thrown([&] { p->eval(std::string(257, 1), o); }); ctx.check(!strcmp(e, "invalid_argument") && o == "junk", "eval of a long string: %s", e); } break;
                    }
                    st = st * 31 + op + 1;
                    ctx.step();
                }
                same(ctx, p->eval(t->invert(sa)), sa, "at the end: eval(invert)");
                same(ctx, p->public_key(), pk0, "at the end: public key");
                ctx.state(st);
            };
            sequences(NOPS, 0, depth - 2, [&](const std::vector<int>& rest) { run(rest); ctx.tick(); });
        };
    });
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
