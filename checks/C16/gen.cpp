// C16: generated messages are the PRF's output reduced modulo the modulus; sampled ones the generator's answer reduced; all below the modulus.
#define MC_MAIN
#include "rsa.hpp"
#include "ref.hpp"
#include "rng.hpp"
using namespace mc;
using namespace mc::rsa;

static void all_ways(Ctx& ctx, const rsa::Key& k, const Tdp& t, const TdpInverse& ti, const TdpMultPool& p, const std::string& kc, const std::string& seed, bool full)
{
    mpz_class x = num(ref::prf(kc, seed, 264)) % k.n;
    std::string want = be(x, 256);
    ctx.outcome(want);
    Prf<264> f(key_from<32>(kc));
    same(ctx, t.generate(f, seed), want, "Tdp::generate(prf)");
    same(ctx, ti.generate(f, seed), want, "TdpInverse::generate(prf)");
    same(ctx, p.generate(f, seed), want, "TdpMultPool::generate(prf)");
    ctx.step(3);
    if (!full) return;
    same(ctx, str(t.generate_array(f, seed)), want, "Tdp::generate_array(prf)");
    same(ctx, str(ti.generate_array(f, seed)), want, "TdpInverse::generate_array(prf)");
    same(ctx, str(p.generate_array(f, seed)), want, "TdpMultPool::generate_array(prf)");
    same(ctx, t.generate(key_from<32>(kc), seed), want, "Tdp::generate(key)");
    same(ctx, ti.generate(key_from<32>(kc), seed), want, "TdpInverse::generate(key)");
    same(ctx, p.generate(key_from<32>(kc), seed), want, "TdpMultPool::generate(key)");
    same(ctx, str(t.generate_array(key_from<32>(kc), seed)), want, "Tdp::generate_array(key)");
    same(ctx, str(ti.generate_array(key_from<32>(kc), seed)), want, "TdpInverse::generate_array(key)");
    same(ctx, str(p.generate_array(key_from<32>(kc), seed)), want, "TdpMultPool::generate_array(key)");
    ctx.step(9);
}
// the six sampling functions on a given answer of the generator
static std::string sampled(int w, const Tdp& t, const TdpInverse& ti, const TdpMultPool& p)
{
    switch (w) {
    case 0: return t.sample(); case 1: return ti.sample(); case 2: return p.sample();
    case 3: return str(t.sample_array()); case 4: return str(ti.sample_array());
    }
    return str(p.sample_array());
}
static void explore(Ctx& ctx)
{
    if (sodium_init() < 0) abort();
    Rng::install();
    static const int KEYS[] = {0, 1, 2, 6, 7, 9};
    for (int ki : KEYS) {
        const rsa::Key* kp = nullptr;
        std::unique_ptr<Tdp> t; std::unique_ptr<TdpInverse> ti; std::unique_ptr<TdpMultPool> p;
        auto need = [&] { if (!kp) { kp = &key(ki); t.reset(new Tdp(kp->pub())); ti.reset(new TdpInverse(kp->priv())); p.reset(new TdpMultPool(kp->pub(), 3)); } };
        // seeds: every length, contents; PRF keys
        for (size_t len : lengths(0, ctx.thorough ? 700 : 300, ctx.thorough ? 1 << 21 : 1 << 20))
            CASE("key=%d seed length %zu", ki, len) { need(); for (int c = 0; c < (len <= 300 ? 5 : 1); c++) all_ways(ctx, *kp, *t, *ti, *p, key_content(32, (int)(len + c) % 9), message(len, c), c == 0); };
        for (int kc = 0; kc < 40; kc++)
            CASE("key=%d prf key %d", ki, kc) { need(); for (const char* s : {"", "seed", "another seed"}) all_ways(ctx, *kp, *t, *ti, *p, key_content(32, kc), s, true); };
        for (int blk = 0; blk < (ctx.thorough ? 160 : 16); blk++) // among these some results start with zero bytes
            CASE("key=%d counter seeds %d..", ki, blk * 400) {
                need();
                uint64_t lead = 0;
                for (int i = 0; i < 400; i++) {
                    std::string seed = std::to_string(blk * 400 + i), kc = key_content(32, 0);
                    Prf<264> f(key_from<32>(kc));
                    mpz_class x = num(ref::prf(kc, seed, 264)) % kp->n;
                    std::string want = be(x, 256);
                    if (!want[0]) lead++;
                    same(ctx, i % 3 == 0 ? t->generate(f, seed) : i % 3 == 1 ? ti->generate(f, seed) : str(p->generate_array(f, seed)), want, "generate");
                    ctx.outcome(want); ctx.step();
                }
                ctx.count("results with leading zero byte", lead);
            };
        // sampling: the generator's 264-byte answer at every boundary of the reduction
        for (int w = 0; w < 6; w++)
            for (int a = 0; a < 30; a++)
                CASE("key=%d sample function=%d answer=%d", ki, w, a) {
                    need();
                    mpz_class n = kp->n, top = two(264 * 8) - 1, x;
                    if (a < 4) x = a; else if (a < 8) x = n + (a - 6); else if (a < 12) x = 2 * n + (a - 10); else if (a < 16) x = top - (a - 12);
                    else if (a < 20) x = (top / n) * n + (a - 18); else if (a < 24) x = two(2048) + (a - 22); else if (a < 28) x = two(2048 + 8 * (a - 23)) - 1; else x = num(mc::bytes(264, a));
                    std::string forced = be(x, 264);
                    Rng::get().reset(a); Rng::get().forced.assign(forced.begin(), forced.end());
                    std::string got = sampled(w, *t, *ti, *p);
                    ctx.step();
                    same(ctx, got, be(x % n, 256), "sample");
                    ctx.outcome(got);
                    ctx.check(Rng::get().served == 264, "%lu bytes taken from the generator", Rng::get().served);
                };
        for (int w = 0; w < 6; w++)
            CASE("key=%d run of samples, function=%d", ki, w) {
                need();
                Rng::get().reset(77 + w);
                Rng model; model.reset(77 + w);
                for (int i = 0; i < (ctx.thorough ? 5000 : 300); i++) {
                    std::string r(264, 0); model.bytes(u8(r), 264);
                    std::string got = sampled(w, *t, *ti, *p);
                    if (!same(ctx, got, be(num(r) % kp->n, 256), "sample in a run")) break;
                    ctx.step(); ctx.outcome(got);
                }
            };
    }
    // histories
    enum { NOPS = 10 };
    sequences(NOPS, 1, ctx.thorough ? 5 : 4, [&](const std::vector<int>& v) {
        CASE("history %s", join(v).c_str()) {
            const rsa::Key& k = key(0); const rsa::Key& k2 = key(1);
            Tdp t(k.pub()), u(k2.pub()); static const TdpInverse* ti = new TdpInverse(k.priv()); TdpMultPool p(k.pub(), 2);
            Prf<264> f(mk<32>(0)), g(mk<32>(3));
            static std::map<std::string, std::string> memo;
            auto want = [&](const rsa::Key& kk, int pk, const std::string& s) { std::string& r = memo[std::to_string(&kk == &k) + std::to_string(pk) + s]; if (r.empty()) r = be(num(ref::prf(key_content(32, pk), s, 264)) % kk.n, 256); return r; };
            const rsa::Key* uk = &k2;
            Rng::get().reset(1); Rng model; model.reset(1);
            auto draw = [&](const rsa::Key& kk) { std::string r(264, 0); model.bytes(u8(r), 264); return be(num(r) % kk.n, 256); };
            uint64_t st = 0;
            for (int op : v) {
                switch (op) {
                case 0: same(ctx, t.generate(f, "a"), want(k, 0, "a"), "generate a"); break;
                case 1: same(ctx, ti->generate(g, "a"), want(k, 3, "a"), "generate a with another PRF"); break;
                case 2: same(ctx, p.generate(f, ""), want(k, 0, ""), "generate of the empty seed"); break;
                case 3: same(ctx, u.generate(f, "a"), want(*uk, 0, "a"), "generate with another RSA key"); break;
                case 4: same(ctx, t.sample(), draw(k), "sample"); break;
                case 5: same(ctx, u.sample(), draw(*uk), "sample with another RSA key"); break;
                case 6: t.eval(std::string(256, '\xfe')); break;
                case 7: u = t; uk = &k; break;
                case 8: { const char* e = thrown([&] { mc::Key<32> x = mk<32>(1), y(std::move(x)); t.generate(std::move(x), "a"); }); ctx.check(strcmp(e, "none") && strcmp(e, "unknown"), "generate with an empty key"); break; }
                case 9: { Prf<264> h(std::move(f)); f = Prf<264>(mk<32>(0)); same(ctx, str(t.generate_array(h, "b")), want(k, 0, "b"), "generate with a moved PRF"); break; }
                }
                ctx.step(); st = st * 11 + op + 1;
            }
            ctx.state(st);
        };
    });
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
