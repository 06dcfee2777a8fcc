// C10: an unwrapped object behaves exactly as the wrapped one; the representation is the documented one, so that it can be read back
// by any other build; the representation is erased once it is unwrapped, and the source object is not affected.
#define MC_MAIN
#include "objects.hpp"
using namespace mc;
using namespace mc::objects;
using refwrap::tostr; using refwrap::tovec;

static bool erased(const std::vector<uint8_t>& v) { for (uint8_t x : v) if (x) return false; return true; }

template<class K> void kind(Ctx& ctx)
{
    typedef typename K::C C;
    for (int v = 0; v < K::variants(); v++)
        for (int wk = 0; wk < 4; wk++)
            CASE("%s variant %d wrapper key %d", K::name(), v, wk) {
                const std::string k = key_content(32, wk + 2), iv = bytes(16, 70 + wk + v);
                Wrapper w(key_from<32>(k));
                C o = K::make(v);
                const std::string want = K::expected(v), content = K::content(v);
                same(ctx, K::behaviour(o, v), want, "object before wrapping");
                auto force = [&] { Rng::get().reset(1); Rng::get().forced.assign(iv.begin(), iv.end()); };
                force();
                std::vector<uint8_t> r = w.wrap(o);
                ctx.check(r.size() == Wrapper::kCiphertextExpansion + content.size(), "%zu bytes, expected %zu", r.size(), Wrapper::kCiphertextExpansion + content.size());
                same(ctx, tostr(r), refwrap::wrap(k, iv, K::type(), K::context(), content), "representation");
                same(ctx, K::behaviour(o, v), want, "object after wrapping");
                ctx.outcome(tostr(r));
                // one representation, unwrapped by this wrapper, by another one with the same key, and after moving the wrapper
                std::vector<uint8_t> r1 = r, r2 = r, r3 = r;
                { C u = w.template unwrap<C>(r1); same(ctx, K::behaviour(u, v), want, "unwrapped object"); same(ctx, K::behaviour(u, v), want, "unwrapped object, again"); }
                ctx.check(erased(r1) && r1.size() == r.size(), "the representation was not erased after unwrapping");
                Wrapper w2(key_from<32>(k));
                { C u = w2.template unwrap<C>(r2); same(ctx, K::behaviour(u, v), want, "object unwrapped by another wrapper"); }
                Wrapper w3(std::move(w));
                { C u = w3.template unwrap<C>(r3); same(ctx, K::behaviour(u, v), want, "object unwrapped by a moved wrapper"); }
                // representations made elsewhere
                std::vector<uint8_t> x = tovec(refwrap::wrap(k, bytes(16, 9000 + v), K::type(), K::context(), content));
                { C u = w3.template unwrap<C>(x); same(ctx, K::behaviour(u, v), want, "object unwrapped from a representation made elsewhere"); }
                ctx.step(8);
                // chains of wrapping and unwrapping
                std::unique_ptr<C> cur(new C(K::make(v)));
                for (int i = 0; i < 4; i++) {
                    force();
                    std::vector<uint8_t> y = (i % 2 ? w2 : w3).wrap(*cur);
                    same(ctx, tostr(y), tostr(r), "representation of an unwrapped object");
                    cur.reset();
                    cur.reset(new C((i % 2 ? w3 : w2).template unwrap<C>(y)));
                    ctx.step(2);
                }
                same(ctx, K::behaviour(*cur, v), want, "object after four rounds");
            };
}
// sequences over one wrapper and several objects of different types
static void histories(Ctx& ctx, int depth)
{
    sequences(9, 1, depth, [&](const std::vector<int>& seq) {
        CASE("history %s", join(seq).c_str()) {
            const std::string k = key_content(32, 6);
            Wrapper w(key_from<32>(k));
            std::unique_ptr<Prg> g(new Prg(KPrg::make(1)));
            std::unique_ptr<Prf<20>> f(new Prf<20>(KPrf<20>::make(2)));
            std::unique_ptr<ConstrainedRCPrf<16>> c(new ConstrainedRCPrf<16>(KCrc<16>::make(6)));
            std::vector<uint8_t> rg, rf, rc;
            uint64_t h = 0;
            for (int op : seq) {
                Rng::get().reset(33 + op);
                switch (op) {
                case 0: rg = w.wrap(*g); break;
                case 1: rf = w.wrap(*f); break;
                case 2: rc = w.wrap(*c); break;
                case 3: if (rg.size() && !erased(rg)) g.reset(new Prg(w.unwrap<Prg>(rg))); break;
                case 4: if (rf.size() && !erased(rf)) f.reset(new Prf<20>(w.unwrap<Prf<20>>(rf))); break;
                case 5: if (rc.size() && !erased(rc)) c.reset(new ConstrainedRCPrf<16>(w.unwrap<ConstrainedRCPrf<16>>(rc))); break;
                case 6: { Wrapper t(std::move(w)); w = std::move(t); break; }
                case 7: { std::vector<uint8_t> bad = rg.size() ? rg : std::vector<uint8_t>(60, 1); const char* t = thrown([&] { w.unwrap<Prf<20>>(bad); }); ctx.check(!strcmp(t, "runtime_error"), "a foreign representation: %s", t); break; }
                case 8: { w = Wrapper(key_from<32>(k)); break; }
                }
                ctx.step();
                h = fnv(&op, 4, h);
            }
            ctx.state(h);
            same(ctx, KPrg::behaviour(*g, 1), KPrg::expected(1), "Prg");
            same(ctx, KPrf<20>::behaviour(*f, 2), KPrf<20>::expected(2), "Prf");
            same(ctx, KCrc<16>::behaviour(*c, 6), KCrc<16>::expected(6), "ConstrainedRCPrf");
        };
    });
}
// every range of a small tree
template<uint16_t N> void ranges(Ctx& ctx, int hmax)
{
    for (int h = 2; h <= hmax; h++)
        for (uint64_t a = 0; a < 1ULL << (h - 1); a++)
            for (uint64_t b = a; b < 1ULL << (h - 1); b++) {
                if (a == 0 && b + 1 == 1ULL << (h - 1)) continue;
                CASE("range nbytes %d height %d [%lu,%lu]", N, h, a, b) {
                    static Wrapper w(key_from<32>(key_content(32, 3)));
                    RefTree t(key_content(32, 5), h);
                    RCPrf<N> p(mk<32>(5), (uint8_t)h);
                    auto c = p.constrain(a, b);
                    Rng::get().reset(a * 77 + b);
                    auto r = w.wrap(c);
                    auto u = w.template unwrap<ConstrainedRCPrf<N>>(r);
                    ctx.check(u.min_leaf() == a && u.max_leaf() == b && u.tree_height() == h, "range [%lu,%lu] height %d", u.min_leaf(), u.max_leaf(), u.tree_height());
                    for (uint64_t i = a; i <= b; i++) same(ctx, str(u.eval(i)), t.leaf(i, N), "leaf");
                    ctx.check(!strcmp(thrown([&] { u.eval(b + 1); }), "out_of_range") && !strcmp(thrown([&] { u.eval(a - 1); }), "out_of_range"), "evaluated outside");
                    ctx.step(2);
                };
            }
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    kind<KCipher>(ctx); kind<KPrg>(ctx); kind<KPrp>(ctx); kind<KTdpi>(ctx);
    kind<KPrf<1>>(ctx); kind<KPrf<12>>(ctx); kind<KPrf<16>>(ctx); kind<KPrf<20>>(ctx); kind<KPrf<32>>(ctx); kind<KPrf<64>>(ctx); kind<KPrf<65>>(ctx); kind<KPrf<255>>(ctx); kind<KPrf<256>>(ctx); kind<KPrf<264>>(ctx); kind<KPrf<1000>>(ctx);
    kind<KRc<1>>(ctx); kind<KRc<16>>(ctx); kind<KRc<32>>(ctx); kind<KRc<100>>(ctx); kind<KRc<257>>(ctx); kind<KRc<40000>>(ctx);
    kind<KCrc<1>>(ctx); kind<KCrc<16>>(ctx); kind<KCrc<20>>(ctx); kind<KCrc<32>>(ctx); kind<KCrc<33>>(ctx); kind<KCrc<100>>(ctx); kind<KCrc<257>>(ctx); kind<KCrc<40000>>(ctx);
    ranges<16>(ctx, 7); ranges<32>(ctx, 6); ranges<5>(ctx, 5); ranges<40>(ctx, 5);
    histories(ctx, ctx.thorough ? 6 : 4);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
