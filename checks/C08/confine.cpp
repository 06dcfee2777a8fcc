// C08: a constrained key evaluates nothing outside its range and carries nothing from which such a value can be computed.
#define MC_MAIN
#define MC_SODMEM
#include "sodmem.hpp"
#include "reftree.hpp"
#include "refwrap.hpp"
#include "sse.hpp"
#include <set>
#include <unordered_set>
using namespace mc;

static const std::string WK = key_content(32, 11);
static const Wrapper& wr() { static Wrapper w(key_from<32>(WK)); return w; }
static uint64_t g8(const char* p) { uint64_t x; memcpy(&x, p, 8); return x; }

// Secrets a key for [a,b] must not hold: every node of the tree whose leaves are not all inside, every leaf outside.
struct Secrets
{
    std::unordered_multimap<uint64_t, std::pair<std::string, std::string>> byhead;
    void add(const std::string& value, const std::string& name) { byhead.emplace(g8(value.data()), std::make_pair(value, name)); }
    std::string find(const std::string& data) const
    {
        for (size_t i = 0; i + 8 <= data.size(); i++) {
            auto r = byhead.equal_range(g8(data.data() + i));
            for (auto it = r.first; it != r.second; ++it)
                if (data.compare(i, it->second.first.size(), it->second.first) == 0) return it->second.second + " at byte " + std::to_string(i);
        }
        return "";
    }
};
static Secrets secrets(RefTree& t, uint64_t a, uint64_t b, size_t nb)
{
    Secrets s;
    const int h = t.h;
    std::set<uint64_t> pts;
    if (h <= 9) { for (uint64_t i = 0; i <= t.maxleaf(); i++) pts.insert(i); }
    else {
        // paths to the end points, and every path that leaves them on the outside
        auto around = [&](uint64_t x) { for (int k = 0; k < h - 1; k++) pts.insert((x ^ (1ULL << k)) & t.maxleaf()); pts.insert(x); };
        around(a); around(b);
        if (a > 0) around(a - 1);
        if (b < t.maxleaf()) around(b + 1);
        pts.insert(0); pts.insert(t.maxleaf());
    }
    std::set<std::pair<int, uint64_t>> done;
    for (uint64_t x : pts) {
        for (int d = 0; d <= h - 2; d++) {
            uint64_t pos = d == 0 ? 0 : x >> (h - 1 - d);
            uint64_t lo = pos << (h - 1 - d), hi = lo + ((1ULL << (h - 1 - d)) - 1);
            if (lo >= a && hi <= b) break;
            if (done.insert({d, pos}).second) s.add(t.node(d, pos), "node key of [" + std::to_string(lo) + "," + std::to_string(hi) + "]");
        }
        if (nb >= 16 && (x < a || x > b)) s.add(t.leaf(x, nb), "value of leaf " + std::to_string(x));
    }
    return s;
}
template<uint16_t NB> void carries_nothing(Ctx& ctx, const ConstrainedRCPrf<NB>& c, const Secrets& s, const char* what)
{
    auto w = wr().wrap(c);
    std::string f = s.find(refwrap::content(WK, refwrap::tostr(w)));
    ctx.check(f.empty(), "%s: its exported form contains the %s", what, f.c_str());
    ctx.step();
}
// all live protected memory, once nothing but constrained keys for a sub-range is alive
static void memory_clean(Ctx& ctx, const Secrets& s, const char* what)
{
    for (auto& e : sodmem::live()) {
        std::string f = s.find(sodmem::peek(e.first, e.second.size));
        ctx.check(f.empty(), "%s: the process' key memory contains the %s", what, f.c_str());
    }
}
template<class P, uint16_t NB> void refuses(Ctx& ctx, const P& c, uint64_t a, uint64_t b, const std::vector<uint64_t>& pts, const char* what)
{
    for (uint64_t x : pts) {
        if (x >= a && x <= b) continue;
        const char* r = thrown([&] { c.eval(x); });
        ctx.check(!strcmp(r, "out_of_range"), "%s for [%lu,%lu]: eval(%lu): %s", what, a, b, x, r);
        ctx.step();
    }
    int called = 0;
    for (uint64_t x : pts)
        for (uint64_t y : pts) {
            if (x >= a && y <= b && x <= y) continue;
            const char* r = thrown([&] { c.eval_range(x, y, [&](uint64_t, const std::array<uint8_t, NB>&) { called++; }); });
            bool ok = x > y ? (!strcmp(r, "invalid_argument") || (!strcmp(r, "out_of_range") && (x < a || y > b || x > b || y < a))) : !strcmp(r, "out_of_range");
            ctx.check(ok, "%s for [%lu,%lu]: eval_range(%lu,%lu): %s", what, a, b, x, y, r);
            ctx.check(called == 0, "%s for [%lu,%lu]: eval_range(%lu,%lu) gave values before it refused", what, a, b, x, y);
            const char* q = thrown([&] { c.constrain(x, y); });
            ok = x > y ? (!strcmp(q, "invalid_argument") || (!strcmp(q, "out_of_range") && (x < a || y > b || x > b || y < a))) : !strcmp(q, "out_of_range");
            ctx.check(ok, "%s for [%lu,%lu]: constrain(%lu,%lu): %s", what, a, b, x, y, q);
            ctx.step(2);
        }
}
static std::vector<uint64_t> outer(int h, bool all)
{
    std::set<uint64_t> s;
    uint64_t n = 1ULL << (h - 1);
    if (all) for (uint64_t i = 0; i < n; i++) s.insert(i);
    for (uint64_t x : std::vector<uint64_t>{n - 1, n, n + 1, 2 * n - 1, 2 * n, 3 * n, (uint64_t)0, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, 1ULL << 32, (1ULL << 32) - 1}) s.insert(x);
    return std::vector<uint64_t>(s.begin(), s.end());
}

template<uint16_t NB> void small(Ctx& ctx, int hmax)
{
    for (int h = 2; h <= hmax; h++) {
        const uint64_t n = 1ULL << (h - 1);
        for (uint64_t a = 0; a < n; a++)
            for (uint64_t b = a; b < n; b++) {
                if (a == 0 && b == n - 1) continue;
                CASE("range nbytes %d height %d [%lu,%lu]", NB, h, a, b) {
                    RefTree t(key_content(32, 1 + h % 3 + 5), h);
                    Secrets s = secrets(t, a, b, NB);
                    std::unique_ptr<RCPrf<NB>> p(new RCPrf<NB>(key_from<32>(t.root), h));
                    ConstrainedRCPrf<NB> c = p->constrain(a, b);
                    carries_nothing<NB>(ctx, c, s, "constrained key");
                    refuses<ConstrainedRCPrf<NB>, NB>(ctx, c, a, b, outer(h, h <= 5), "constrained key");
                    p.reset();
                    memory_clean(ctx, s, "constrained key alone");
                    auto w = wr().wrap(c);
                    ConstrainedRCPrf<NB> u = wr().template unwrap<ConstrainedRCPrf<NB>>(w);
                    carries_nothing<NB>(ctx, u, s, "unwrapped constrained key");
                    refuses<ConstrainedRCPrf<NB>, NB>(ctx, u, a, b, outer(h, h <= 4), "unwrapped constrained key");
                    memory_clean(ctx, s, "unwrapped constrained key");
                    ctx.state(fnv(&a, 8, fnv(&b, 8, h)));
                    // constrained again
                    for (uint64_t x = a; x <= b; x++)
                        for (uint64_t y = x; y <= b; y++) {
                            if (h >= 6 && (x + y + a) % 3) continue;
                            Secrets s2 = secrets(t, x, y, NB);
                            std::unique_ptr<ConstrainedRCPrf<NB>> d;
                            {
                                auto w2 = wr().wrap(c);
                                ConstrainedRCPrf<NB> src = wr().template unwrap<ConstrainedRCPrf<NB>>(w2);
                                d.reset(new ConstrainedRCPrf<NB>(src.constrain(x, y)));
                            }
                            carries_nothing<NB>(ctx, *d, s2, "key constrained twice");
                            refuses<ConstrainedRCPrf<NB>, NB>(ctx, *d, x, y, {a, b, x ? x - 1 : ~0ULL, y + 1, 0, n - 1, n, ~0ULL}, "key constrained twice");
                            ctx.outcome(fnv(&x, 8, fnv(&y, 8, h * 7 + NB)));
                        }
                };
            }
        CASE("whole tree nbytes %d height %d", NB, h) {
            RCPrf<NB> p(mk<32>(3), h);
            refuses<RCPrf<NB>, NB>(ctx, p, 0, n - 1, outer(h, h <= 6), "RCPrf");
            expect(ctx, "out_of_range", [&] { p.constrain(0, n - 1); }, "constrain to everything");
        };
    }
}
// boundary ranges in tall trees
template<uint16_t NB> void tall(Ctx& ctx, const std::vector<int>& heights, bool T)
{
    for (int h : heights) {
        const uint64_t M = (1ULL << (h - 1)) - 1;
        CASE("whole tall tree nbytes %d height %d", NB, h) {
            RCPrf<NB> p(mk<32>(3), h);
            refuses<RCPrf<NB>, NB>(ctx, p, 0, M, {M, M + 1, M + 2, 2 * M, ~0ULL, ~0ULL - 1}, "RCPrf");
            expect(ctx, "out_of_range", [&] { p.constrain(0, M); }, "constrain to everything");
        };
        std::vector<uint64_t> P;
        for (int k = 0; k < h - 1; k += (T || h < 12) ? 1 : 5) for (uint64_t x : {(1ULL << k) - 1, 1ULL << k, (1ULL << k) + 1, M - (1ULL << k), M - (1ULL << k) + 1}) if (x <= M) P.push_back(x);
        P.push_back(M);
        std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end());
        for (size_t i = 0; i < P.size(); i++)
            CASE("tall nbytes %d height %d from %lu", NB, h, P[i]) {
                for (size_t j = i; j < P.size(); j += T ? 1 : 2 + h / 16) {
                    uint64_t a = P[i], b = P[j];
                    if (a == 0 && b == M) continue;
                    RefTree t(key_content(32, 6), h);
                    Secrets s = secrets(t, a, b, NB);
                    std::unique_ptr<RCPrf<NB>> p(new RCPrf<NB>(key_from<32>(t.root), h));
                    ConstrainedRCPrf<NB> c = p->constrain(a, b);
                    p.reset();
                    carries_nothing<NB>(ctx, c, s, "constrained key");
                    memory_clean(ctx, s, "constrained key alone");
                    std::vector<uint64_t> pts = {0, M, M + 1, ~0ULL, a, b, b + 1};
                    if (a) pts.push_back(a - 1);
                    refuses<ConstrainedRCPrf<NB>, NB>(ctx, c, a, b, pts, "constrained key");
                    uint64_t m = a + (b - a) / 2;
                    Secrets s2 = secrets(t, m, b, NB);
                    { ConstrainedRCPrf<NB> d = c.constrain(m, b); carries_nothing<NB>(ctx, d, s2, "key constrained twice"); refuses<ConstrainedRCPrf<NB>, NB>(ctx, d, m, b, {a, m ? m - 1 : ~0ULL, b + 1, M}, "key constrained twice"); }
                    ctx.tick();
                    ctx.outcome(fnv(&a, 8, fnv(&b, 8, h)));
                }
            };
    }
}
static void explore(Ctx& ctx)
{
    init_crypto_lib();
    const bool T = ctx.thorough;
    wr();
    small<16>(ctx, T ? 7 : 6); small<32>(ctx, 5); small<20>(ctx, 4); small<64>(ctx, 4); small<1>(ctx, 4);
    tall<16>(ctx, {8, 10, 17, 32, 33, 34, 48, 63, 64}, T);
    tall<32>(ctx, {9, 33, 64}, T);
    // heights
    for (int h = 0; h < 256; h++)
        CASE("height %d", h) {
            if (h >= 2 && h <= 64) { RCPrf<16> p(mk<32>(1), (uint8_t)h); ctx.check(p.tree_height() == h, "height"); p.eval((1ULL << (h - 1)) - 1); ctx.step(); }
            else { expect(ctx, "invalid_argument", [&] { RCPrf<16> p(mk<32>(1), (uint8_t)h); }, "RCPrf constructor"); expect(ctx, "invalid_argument", [&] { RCPrf<32> p(mk<32>(1), (uint8_t)h); }, "RCPrf constructor"); }
        };
    // an empty key refuses everything
    CASE("empty key") {
        ConstrainedRCPrf<16> e(std::vector<std::unique_ptr<ConstrainedRCPrfElement<16>>>{});
        ctx.check(e.is_empty() && e.min_leaf() > e.max_leaf(), "not empty");
        for (uint64_t x : std::vector<uint64_t>{ (uint64_t)1, (uint64_t)77, 1ULL << 63, ~0ULL}) {
            expect(ctx, "out_of_range", [&] { e.eval(x); }, "eval");
            for (uint64_t y : std::vector<uint64_t>{x, ~0ULL}) {
                expect(ctx, "out_of_range", [&] { e.eval_range(x, y, [](uint64_t, const std::array<uint8_t, 16>&) {}); }, "eval_range");
                expect(ctx, "out_of_range", [&] { e.constrain(x, y); }, "constrain");
            }
        }
    };
    // single elements, and sets of elements that do not make up a range
    for (int sh = 1; sh <= 4; sh++)
        for (uint64_t lo = 0; lo < 16; lo += 1ULL << (sh - 1))
            CASE("element subtree height %d from %lu", sh, lo) {
                uint64_t hi = lo + (1ULL << (sh - 1)) - 1;
                std::unique_ptr<ConstrainedRCPrfElement<16>> e;
                if (sh == 1) e.reset(new ConstrainedRCPrfLeafElement<16>(std::array<uint8_t, 16>{{1, 2, 3}}, 5, lo));
                else e.reset(new ConstrainedRCPrfInnerElement<16>(mk<32>(2), 5, (uint8_t)sh, lo, hi));
                for (uint64_t x : outer(5, true)) {
                    if (x >= lo && x <= hi) { e->eval(x); continue; }
                    expect(ctx, "out_of_range", [&] { e->eval(x); }, "element eval");
                }
                // the same subtree twice, or with a hole
                for (uint64_t lo2 = 0; lo2 < 16; lo2++) {
                    std::vector<std::unique_ptr<ConstrainedRCPrfElement<16>>> v;
                    if (sh == 1) v.emplace_back(new ConstrainedRCPrfLeafElement<16>(std::array<uint8_t, 16>{{1}}, 5, lo)); else v.emplace_back(new ConstrainedRCPrfInnerElement<16>(mk<32>(2), 5, (uint8_t)sh, lo, hi));
                    v.emplace_back(new ConstrainedRCPrfLeafElement<16>(std::array<uint8_t, 16>{{2}}, 5, lo2));
                    bool ok = lo2 == hi + 1 || lo2 + 1 == lo;
                    expect(ctx, ok ? "none" : "invalid_argument", [&] { ConstrainedRCPrf<16> c(std::move(v)); }, "assembled key");
                    std::vector<std::unique_ptr<ConstrainedRCPrfElement<16>>> w;
                    if (sh == 1) w.emplace_back(new ConstrainedRCPrfLeafElement<16>(std::array<uint8_t, 16>{{1}}, 5, lo)); else w.emplace_back(new ConstrainedRCPrfInnerElement<16>(mk<32>(2), 5, (uint8_t)sh, lo, hi));
                    w.emplace_back(new ConstrainedRCPrfLeafElement<16>(std::array<uint8_t, 16>{{2}}, 6, lo2));
                    expect(ctx, "invalid_argument", [&] { ConstrainedRCPrf<16> c(std::move(w)); }, "elements of trees of different heights");
                }
            };
    for (int h = 1; h <= 6; h++)
        for (int sh = 0; sh <= 7; sh++)
            for (uint64_t lo = 0; lo <= 4; lo++)
                for (uint64_t hi = 0; hi <= 12; hi++)
                    CASE("element parameters height %d subtree %d [%lu,%lu]", h, sh, lo, hi) {
                        bool ok = sh >= 2 && sh < h && hi >= lo && hi - lo + 1 == 1ULL << (sh - 1);
                        expect(ctx, ok ? "none" : "invalid_argument", [&] { ConstrainedRCPrfInnerElement<16> e(mk<32>(2), (uint8_t)h, (uint8_t)sh, lo, hi); }, "inner element");
                        expect(ctx, ok ? "none" : "invalid_argument", [&] { ConstrainedRCPrfInnerElement<32> e(Prg(mk<32>(2)), (uint8_t)h, (uint8_t)sh, lo, hi); }, "inner element from Prg");
                        expect(ctx, h >= 2 ? "none" : "invalid_argument", [&] { ConstrainedRCPrfLeafElement<16> e(std::array<uint8_t, 16>{{2}}, (uint8_t)h, lo); }, "leaf element");
                    };
    for (int h = 2; h <= 64; h++) // ranges around the end of the numbers
        for (int sh = 0; sh <= h + 1; sh++)
            CASE("element at the end of the numbers, height %d subtree %d", h, sh) {
                for (uint64_t k = 1; k <= 9; k++) for (int d = -2; d <= 2; d++) for (int wide = 0; wide < 2; wide++) {
                    uint64_t lo = 0 - k, hi = lo + (sh ? (sh > 64 ? 0 : sh == 64 + 1 ? 0 : (wide ? 0 - 1ULL : 0) + (1ULL << ((sh - 1) & 63))) : 0) + d;
                    if (hi >= lo) continue;
                    expect(ctx, "invalid_argument", [&] { ConstrainedRCPrfInnerElement<16> e(mk<32>(2), (uint8_t)h, (uint8_t)sh, lo, hi); }, "inner element with a reversed range");
                }
            };
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
