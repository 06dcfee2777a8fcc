// C07: whatever chain of constraining, wrapping and moving produced it, a constrained key evaluates to the same values as
// the original RC-PRF, point by point and by ranges, and these are the values of the tree.
#define MC_MAIN
#include "reftree.hpp"
#include "refwrap.hpp"
#include "sse.hpp"
#include <set>
using namespace mc;

static const std::string WK = key_content(32, 11);
static const Wrapper& wr() { static Wrapper w(key_from<32>(WK)); return w; }

template<class P, uint16_t NB> void check_range(Ctx& ctx, const P& p, RefTree& t, uint64_t a, uint64_t b, const char* what)
{
    uint64_t next = a; bool ended = false, ok = true;
    p.eval_range(a, b, [&](uint64_t i, const std::array<uint8_t, NB>& v) {
        if (!ok) return;
        if (ended || i != next) { ok = false; ctx.fail("%s: eval_range(%lu,%lu) called back with %lu, expected %s%lu", what, a, b, i, ended ? "the end, after " : "", next); return; }
        if (!same(ctx, str(v), t.leaf(i, NB), what)) { ok = false; return; }
        if (i == b) ended = true; else next = i + 1;
    });
    ctx.check(!ok || ended, "%s: eval_range(%lu,%lu) stopped before %lu", what, a, b, next);
    ctx.step();
}
template<class P, uint16_t NB> void check_point(Ctx& ctx, const P& p, RefTree& t, uint64_t i, const char* what)
{
    if (str(p.eval(i)) != t.leaf(i, NB)) { ctx.fail("%s: eval(%lu) is wrong", what, i); }
    ctx.checks++;
    ctx.step();
}
template<uint16_t NB> void check_all(Ctx& ctx, const ConstrainedRCPrf<NB>& c, RefTree& t, uint64_t a, uint64_t b, const char* what)
{
    ctx.check(c.min_leaf() == a && c.max_leaf() == b && !c.is_empty() && c.tree_height() == t.h, "%s: describes [%lu,%lu] in a tree of height %d, expected [%lu,%lu] in %d", what,
              c.min_leaf(), c.max_leaf(), c.tree_height(), a, b, t.h);
    for (uint64_t i = a; i <= b; i++) check_point<ConstrainedRCPrf<NB>, NB>(ctx, c, t, i, what);
    check_range<ConstrainedRCPrf<NB>, NB>(ctx, c, t, a, b, what);
}

// All leaves and all ranges of a small tree, all constrained keys, all keys constrained again.
template<uint16_t NB> void small(Ctx& ctx, int hmax, int nested)
{
    for (int h = 2; h <= hmax; h++) {
        const uint64_t n = 1ULL << (h - 1);
        for (int k = 0; k < 3; k++)
            CASE("tree nbytes %d height %d key %d", NB, h, k) {
                RCPrf<NB> p(mk<32>(k), h);
                RefTree t(key_content(32, k), h);
                ctx.check(p.tree_height() == h, "height %d", p.tree_height());
                for (uint64_t i = 0; i < n; i++) check_point<RCPrf<NB>, NB>(ctx, p, t, i, "RCPrf");
                if (h <= 6)
                    for (uint64_t a = 0; a < n; a++) for (uint64_t b = a; b < n; b++) check_range<RCPrf<NB>, NB>(ctx, p, t, a, b, "RCPrf");
                else check_range<RCPrf<NB>, NB>(ctx, p, t, 0, n - 1, "RCPrf");
                std::set<std::string> seen; // leaves are different from one another
                for (uint64_t i = 0; i < n && NB >= 8; i++) ctx.check(seen.insert(str(p.eval(i))).second, "leaf %lu repeats another one", i);
            };
        if (h > nested) continue;
        for (uint64_t a = 0; a < n; a++)
            for (uint64_t b = a; b < n; b++) {
                if (a == 0 && b == n - 1) continue;
                CASE("constrain nbytes %d height %d [%lu,%lu]", NB, h, a, b) {
                    int k = (int)((a + b) % 7);
                    RCPrf<NB> p(mk<32>(k), h);
                    RefTree t(key_content(32, k), h);
                    ConstrainedRCPrf<NB> c = p.constrain(a, b);
                    check_all<NB>(ctx, c, t, a, b, "constrained");
                    ctx.state(fnv(&a, 8, fnv(&b, 8, h)));
                    for (uint64_t x = a; x <= b; x++)
                        for (uint64_t y = x; y <= b; y++) {
                            check_range<ConstrainedRCPrf<NB>, NB>(ctx, c, t, x, y, "constrained");
                            ConstrainedRCPrf<NB> d = c.constrain(x, y);
                            check_all<NB>(ctx, d, t, x, y, "constrained twice");
                            if (h <= 4)
                                for (uint64_t u = x; u <= y; u++)
                                    for (uint64_t v = u; v <= y; v++) check_all<NB>(ctx, d.constrain(u, v), t, u, v, "constrained three times");
                        }
                    // neither the source nor the constrained key changed
                    check_all<NB>(ctx, c, t, a, b, "constrained (afterwards)");
                    check_range<RCPrf<NB>, NB>(ctx, p, t, 0, n - 1, "source (afterwards)");
                };
            }
    }
}

// Ranges with end points at and around the boundaries of subtrees, in tall trees.
template<uint16_t NB> void tall(Ctx& ctx, const std::vector<int>& heights, bool T)
{
    for (int h : heights) {
        RefTree t(key_content(32, h % 6), h);
        const uint64_t M = t.maxleaf();
        std::set<uint64_t> S;
        std::vector<int> ks;
        for (int k = 0; k < h - 1; k++) if (T || k < 4 || k > h - 5 || (k >= 14 && k <= 17) || (k >= 30 && k <= 34) || k == 48 || k == h / 2) ks.push_back(k);
        for (int k : ks) for (int d = -1; d <= 1; d++) { S.insert((1ULL << k) + d); S.insert(M - (1ULL << k) + d); }
        S.insert(M);
        for (auto it = S.begin(); it != S.end();) it = *it > M ? S.erase(it) : std::next(it);
        std::vector<uint64_t> P(S.begin(), S.end());
        for (size_t i = 0; i < P.size(); i++)
            CASE("tall nbytes %d height %d from %lu", NB, h, P[i]) {
                RCPrf<NB> p(mk<32>(h % 6), h);
                check_point<RCPrf<NB>, NB>(ctx, p, t, P[i], "RCPrf");
                check_range<RCPrf<NB>, NB>(ctx, p, t, P[i], std::min(M, P[i] + 9), "RCPrf");
                for (size_t j = i; j < P.size(); j += (T || j < i + 2) ? 1 : 3) {
                    uint64_t a = P[i], b = P[j];
                    if (a == 0 && b == M) continue;
                    ConstrainedRCPrf<NB> c = p.constrain(a, b);
                    ctx.check(c.min_leaf() == a && c.max_leaf() == b && c.tree_height() == h, "constrain(%lu,%lu) describes [%lu,%lu]", a, b, c.min_leaf(), c.max_leaf());
                    std::set<uint64_t> pts = {a, b, a + (b - a) / 2, a + (b - a) / 3};
                    if (a < b) { pts.insert(a + 1); pts.insert(b - 1); }
                    if (P.size() > 2) pts.insert(P[(i + j) / 2]);
                    for (uint64_t x : pts) check_point<ConstrainedRCPrf<NB>, NB>(ctx, c, t, x, "constrained");
                    check_range<ConstrainedRCPrf<NB>, NB>(ctx, c, t, a, b - a > 9 ? a + 9 : b, "constrained");
                    check_range<ConstrainedRCPrf<NB>, NB>(ctx, c, t, b - a > 9 ? b - 9 : a, b, "constrained");
                    uint64_t m = P[(i + j) / 2];
                    check_range<ConstrainedRCPrf<NB>, NB>(ctx, c, t, m - a > 4 ? m - 4 : a, b - m > 4 ? m + 4 : b, "constrained");
                    // constrained again around a boundary
                    uint64_t x = m - a > 6 ? m - 6 : a, y = b - m > 6 ? m + 6 : b;
                    check_all<NB>(ctx, c.constrain(x, y), t, x, y, "constrained twice");
                    ConstrainedRCPrf<NB> d = c.constrain(m, b);
                    check_point<ConstrainedRCPrf<NB>, NB>(ctx, d, t, m, "constrained twice");
                    check_point<ConstrainedRCPrf<NB>, NB>(ctx, d, t, b, "constrained twice");
                    check_point<ConstrainedRCPrf<NB>, NB>(ctx, d, t, m + (b - m) / 2, "constrained twice");
                    ctx.outcome(fnv(&a, 8, fnv(&b, 8, h)));
                    ctx.tick();
                }
            };
    }
}

// Histories: chains of operations, each producing the next key.
template<uint16_t NB> void histories(Ctx& ctx, int h, int depth)
{
    sequences(9, 1, depth, [&](const std::vector<int>& seq) {
        CASE("history nbytes %d height %d %s", NB, h, join(seq).c_str()) {
            RefTree t(key_content(32, 4), h);
            std::unique_ptr<RCPrf<NB>> p(new RCPrf<NB>(mk<32>(4), h));
            uint64_t a = 1, b = t.maxleaf() - 1;
            ConstrainedRCPrf<NB> c = p->constrain(a, b);
            for (int op : seq) {
                uint64_t mid = a + (b - a) / 2;
                switch (op) {
                case 0: c = c.constrain(a, mid); b = mid; break;
                case 1: c = c.constrain(mid, b); a = mid; break;
                case 2: if (a < b) { c = c.constrain(a + 1, b); a++; } break;
                case 3: { auto w = wr().wrap(c); c = wr().unwrap<ConstrainedRCPrf<NB>>(w); break; }
                case 4: { ConstrainedRCPrf<NB> d(std::move(c)); c = std::move(d); break; }
                case 5: { // split into two and join the elements again, right part first
                    if (a == b) break;
                    std::vector<std::unique_ptr<ConstrainedRCPrfElement<NB>>> v;
                    c.generate_constrained_subkeys(mid + 1, b, v);
                    c.generate_constrained_subkeys(a, mid, v);
                    c = ConstrainedRCPrf<NB>(std::move(v));
                    break;
                }
                case 6: { if (!p) break; auto w = wr().wrap(*p); p.reset(new RCPrf<NB>(wr().unwrap<RCPrf<NB>>(w))); c = p->constrain(a, b); break; }
                case 7: p.reset(); break; // the source disappears
                case 8: try { c.eval(b + 1); ctx.fail("eval outside"); } catch (const std::out_of_range&) {} c = c.constrain(a, b); break;
                }
                ctx.step();
                uint64_t st[3] = {a, b, (uint64_t)(p ? 1 : 0)};
                ctx.state(fnv(st, sizeof st, h * 1000 + NB));
            }
            check_all<NB>(ctx, c, t, a, b, "result");
            ctx.outcome(fnv(join(seq)));
        };
    });
}

// Keys assembled by hand from elements in every order.
template<uint16_t NB> void assembled(Ctx& ctx)
{
    const int h = 5;
    for (uint64_t a = 0; a < 16; a++)
        for (uint64_t b = a; b < 16; b++) {
            if (a == 0 && b == 15) continue;
            CASE("assembled nbytes %d [%lu,%lu]", NB, a, b) {
                RefTree t(key_content(32, 2), h);
                RCPrf<NB> p(mk<32>(2), h);
                std::vector<std::unique_ptr<ConstrainedRCPrfElement<NB>>> probe;
                p.generate_constrained_subkeys(a, b, probe);
                size_t n = probe.size();
                std::vector<int> perm(n);
                for (size_t i = 0; i < n; i++) perm[i] = (int)i;
                int count = 0;
                do {
                    std::vector<std::unique_ptr<ConstrainedRCPrfElement<NB>>> v, w;
                    p.generate_constrained_subkeys(a, b, v);
                    for (int i : perm) w.push_back(std::move(v[i]));
                    check_all<NB>(ctx, ConstrainedRCPrf<NB>(std::move(w)), t, a, b, "assembled");
                } while (std::next_permutation(perm.begin(), perm.end()) && ++count < 720);
                // two parts computed separately, for every cut
                for (uint64_t m = a; m < b; m++) {
                    std::vector<std::unique_ptr<ConstrainedRCPrfElement<NB>>> v;
                    p.generate_constrained_subkeys(m + 1, b, v);
                    p.generate_constrained_subkeys(a, m, v);
                    check_all<NB>(ctx, ConstrainedRCPrf<NB>(std::move(v)), t, a, b, "two parts");
                }
                // each element alone
                for (auto& e : probe) {
                    for (uint64_t i = e->min_leaf(); i <= e->max_leaf(); i++) same(ctx, str(e->eval(i)), t.leaf(i, NB), "element");
                    for (uint64_t x = e->min_leaf(); x <= e->max_leaf(); x++)
                        for (uint64_t y = x; y <= e->max_leaf(); y++) check_range<ConstrainedRCPrfElement<NB>, NB>(ctx, *e, t, x, y, "element");
                }
            };
        }
}

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    const bool T = ctx.thorough;
    small<16>(ctx, 10, T ? 7 : 6);
    small<32>(ctx, 9, T ? 6 : 5);
    small<1>(ctx, 5, 4); small<8>(ctx, 5, 4); small<20>(ctx, 5, 4); small<31>(ctx, 4, 4); small<33>(ctx, 5, 4); small<64>(ctx, 5, 4); small<100>(ctx, 5, 4); small<300>(ctx, 4, 4); small<33000>(ctx, 4, 3); small<40000>(ctx, 4, 3); small<65535>(ctx, 3, 3);
    tall<16>(ctx, {7, 8, 9, 10, 12, 16, 17, 18, 24, 31, 32, 33, 34, 48, 57, 62, 63, 64}, T);
    tall<32>(ctx, {7, 13, 32, 33, 64}, T);
    if (T) { tall<20>(ctx, {7, 13, 32, 33, 64}, T); tall<100>(ctx, {9, 32, 64}, T); }
    histories<16>(ctx, 6, T ? 6 : 4);
    histories<32>(ctx, 5, T ? 5 : 4);
    histories<40>(ctx, 4, 3);
    histories<16>(ctx, 2 + 2, 3);
    assembled<16>(ctx); assembled<32>(ctx); assembled<5>(ctx);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
