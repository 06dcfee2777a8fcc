// C09: a set hash is the sum, in the prime-order group, of the points of its elements: it depends on the multiset alone, additions
// and removals cancel, different multisets have different hashes, and only encodings of group elements are accepted.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "refed.hpp"
#include <map>
#include <sstream>
using namespace mc;
using namespace mc::refed;
namespace ed = mc::refed;

static std::string point(const std::string& e)
{
    std::string h = ref::blake2b(e), p(32, 0);
    crypto_core_ed25519_from_uniform((unsigned char*)&p[0], (const unsigned char*)h.data());
    return p;
}
static std::string got(const SetHash& s) { return str(s.data()); }
typedef std::vector<int> Vec;
static const std::vector<std::string> EL = {"a", "b", std::string("\0", 1), "ab"};
static Pt total(const Vec& v)
{
    static std::map<std::pair<size_t, int>, Pt> memo;
    Pt r;
    for (size_t i = 0; i < v.size(); i++) {
        if (!v[i]) continue;
        auto k = std::make_pair(i, v[i]);
        if (!memo.count(k)) {
            Pt p; decode(point(EL[i]), p);
            if (v[i] < 0) p = neg(p);
            Pt q;
            for (int j = 0; j < abs(v[i]); j++) q = add(q, p);
            memo[k] = q;
        }
        r = add(r, memo[k]);
    }
    return r;
}
static std::string want(const Vec& v)
{
    static std::map<Vec, std::string> memo;
    auto it = memo.find(v);
    if (it == memo.end()) it = memo.emplace(v, encode(total(v))).first;
    return it->second;
}
static const std::string IDENT = std::string("\1", 1) + std::string(31, '\0');

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    const bool T = ctx.thorough;
    // elements: every length, single-element sets made in three ways
    for (size_t n : lengths(0, T ? 1500 : 400, T ? 4u << 20 : 1u << 22, 1))
        for (int w = 0; w < (n > 400 ? 1 : 5); w++)
            CASE("element length %zu content %d", n, w) {
                std::string e = message(n, w), p = point(e);
                SetHash a; a.add_element(e);
                same(ctx, got(a), p, "add_element");
                SetHash b(std::vector<std::string>{e});
                same(ctx, got(b), p, "set of one element");
                SetHash c; c.remove_element(e);
                Pt q; ctx.check(decode(p, q), "not a point");
                same(ctx, got(c), encode(neg(q)), "remove_element");
                c.add_element(e);
                same(ctx, got(c), IDENT, "removed then added");
                a.remove_element(e);
                ctx.check(a == SetHash() && !(a != SetHash()), "added then removed: not the empty set");
                ctx.outcome(p);
                ctx.step(5);
            };
    // all strings of at most two bytes: no two have the same hash
    for (int slice = 0; slice < 8; slice++)
        CASE("short elements slice %d", slice) {
            for (int x = -257 + slice; x < 65536; x += 8) {
                std::string e = x == -257 ? "" : x < 0 ? std::string(1, (char)(x + 256)) : std::string(1, (char)(x >> 8)) + (char)x;
                SetHash a; a.add_element(e);
                same(ctx, got(a), point(e), "add_element");
                ctx.outcome(got(a));
                ctx.step();
                if (x % 1024 == 0) ctx.tick();
            }
        };
    CASE("no two short elements collide") {
        std::map<std::string, int> seen;
        for (int x = -257; x < (T ? 65536 : 4096); x++) {
            std::string e = x == -257 ? "" : x < 0 ? std::string(1, (char)(x + 256)) : std::string(1, (char)(x >> 8)) + (char)x;
            SetHash a; a.add_element(e);
            ctx.check(seen.emplace(got(a), x).second, "two elements have the same hash");
            ctx.step(); ctx.tick();
        }
    };
    // histories on two live objects: the model is a pair of integer vectors
    const int NOPS = 16;
    sequences(NOPS, 1, T ? 5 : 4, [&](const std::vector<int>& seq) {
        CASE("history %s", join(seq).c_str()) {
            SetHash s[2]; Vec m[2] = {Vec(4, 0), Vec(4, 0)};
            s[1] = SetHash(std::vector<std::string>{EL[0], EL[2]}); m[1] = {1, 0, 1, 0};
            for (int op : seq) {
                switch (op) {
                case 0: s[0].add_element(EL[0]); m[0][0]++; break;
                case 1: s[0].remove_element(EL[0]); m[0][0]--; break;
                case 2: s[0].add_element(EL[1]); m[0][1]++; break;
                case 3: s[0].remove_element(EL[1]); m[0][1]--; break;
                case 4: s[1].add_element(EL[3]); m[1][3]++; break;
                case 5: s[0].add_set(s[1]); for (int i = 0; i < 4; i++) m[0][i] += m[1][i]; break;
                case 6: s[0].remove_set(s[1]); for (int i = 0; i < 4; i++) m[0][i] -= m[1][i]; break;
                case 7: s[1].remove_set(s[0]); for (int i = 0; i < 4; i++) m[1][i] -= m[0][i]; break;
                case 8: std::swap(s[0], s[1]); std::swap(m[0], m[1]); break;
                case 9: s[1] = s[0]; m[1] = m[0]; break;
                case 10: s[0] = SetHash(s[0].data()); break;
                case 11: s[0].add_set(s[0]); for (int& x : m[0]) x *= 2; break;
                case 12: s[0].remove_set(s[0]); for (int& x : m[0]) x = 0; break;
                case 13: { SetHash c(s[0]); c.add_element("other"); SetHash d(std::move(c)); d.remove_element("other"); s[0] = d; break; }
                case 14: { std::vector<std::string> v; Vec w(4, 0); for (int i = 0; i < 4; i++) for (int j = 0; j < std::min(m[0][i], 3); j++) { v.push_back(EL[i]); w[i]++; } s[1] = SetHash(v); m[1] = w; break; }
                case 15: { SetHash e; e.add_set(s[0]); e.add_element(EL[2]); e.remove_set(s[0]); s[1].add_set(e); m[1][2]++; break; }
                }
                ctx.step();
                for (int i = 0; i < 2; i++) {
                    same(ctx, got(s[i]), want(m[i]), i ? "second set" : "first set");
                    ctx.state(fnv(m[i].data(), 16));
                }
                bool eq = m[0] == m[1];
                ctx.check((s[0] == s[1]) == eq && (s[0] != s[1]) == !eq && (s[1] == s[0]) == eq, "equality of the hashes differs from equality of the multisets");
            }
            ctx.outcome(got(s[0]));
        };
    });
    // explicit-state search over the multisets: every transition from every state, the state being rebuilt from its bytes
    const int B = T ? 4 : 2;
    for (int a = -B; a <= B; a++) for (int b = -B; b <= B; b++) for (int c = -1; c <= 1; c++)
        CASE("state %d,%d,%d", a, b, c) {
            Vec v = {a, b, c, 0};
            std::array<uint8_t, 32> raw;
            std::string w = want(v);
            memcpy(raw.data(), w.data(), 32);
            for (int e = 0; e < 4; e++) for (int sgn = -1; sgn <= 1; sgn += 2) {
                SetHash s(raw);
                Vec n = v; n[e] += sgn;
                if (sgn > 0) s.add_element(EL[e]); else s.remove_element(EL[e]);
                same(ctx, got(s), want(n), "successor");
                SetHash u(raw), x; x.add_element(EL[e]);
                if (sgn > 0) u.add_set(x); else u.remove_set(x);
                ctx.check(u == s, "adding a set of one element is not adding the element");
                ctx.state(fnv(n.data(), 16));
                ctx.step(2);
            }
            std::ostringstream os; os << SetHash(raw);
            ctx.check(os.str() == hex(w, 64), "printed as %s", os.str().c_str());
        };
    // all orders of insertion of five elements, all ways of splitting them in two sets
    {
        std::vector<std::string> five = {"", "x", "xx", "y", std::string(200, 'z')};
        std::vector<int> perm = {0, 1, 2, 3, 4};
        std::string reference;
        { Pt r; for (auto& e : five) { Pt p; decode(point(e), p); r = add(r, p); } reference = encode(r); }
        do {
            CASE("order %s", join(perm).c_str()) {
                std::vector<std::string> v; SetHash s;
                for (int i : perm) { v.push_back(five[i]); s.add_element(five[i]); }
                same(ctx, got(s), reference, "one by one");
                same(ctx, got(SetHash(v)), reference, "as a list");
                for (int k = 0; k <= 5; k++) {
                    SetHash l(std::vector<std::string>(v.begin(), v.begin() + k)), r(std::vector<std::string>(v.begin() + k, v.end()));
                    SetHash l2 = l;
                    l2.add_set(r); same(ctx, got(l2), reference, "two parts");
                    r.add_set(l); same(ctx, got(r), reference, "two parts, the other way");
                    SetHash d(reference == got(s) ? s : SetHash()); d.remove_set(l); d.add_set(l); same(ctx, got(d), reference, "removed and added again");
                }
                ctx.step(20);
            };
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
    // large multisets
    for (int n : {10, 100, 1000, 5000})
        CASE("multiset of %d", n) {
            SetHash s; std::vector<std::string> v;
            for (int i = 0; i < n; i++) { std::string e = "element " + std::to_string(i % (n / 2 + 1)); v.push_back(e); s.add_element(e); }
            ctx.check(SetHash(v) == s, "list and incremental hashes differ");
            std::reverse(v.begin(), v.end());
            ctx.check(SetHash(v) == s, "the hash depends on the order");
            for (auto& e : v) s.remove_element(e);
            ctx.check(s == SetHash(), "not empty after removing everything");
            ctx.step(4 * n); ctx.tick();
        };
    // encodings: accepted exactly if they denote an element of the prime-order group
    auto encoding = [&](const std::string& b) {
        std::array<uint8_t, 32> raw; memcpy(raw.data(), b.data(), 32);
        Pt p;
        bool valid = decode(b, p) && main_subgroup(p);
        const char* t = thrown([&] { SetHash s(raw); same(ctx, got(s), b, "data of a rebuilt hash"); SetHash e; e.add_set(s); same(ctx, got(e), b, "sum with the empty set"); });
        ctx.check(!strcmp(t, valid ? "none" : "invalid_argument"), "encoding %s (%s group element): %s", hex(b, 32).c_str(), valid ? "a" : "not a", t);
        ctx.outcome(b); ctx.step();
    };
    for (int base = 0; base < (T ? 12 : 4); base++)
        for (int bit = -1; bit < 256; bit++)
            CASE("encoding %d bit %d", base, bit) {
                std::string b = base == 0 ? IDENT : base == 1 ? want({1, 0, 0, 0}) : base == 2 ? want({1, -1, 2, 0}) : point("seed" + std::to_string(base));
                if (bit >= 0) b[bit / 8] ^= (char)(1 << (bit % 8));
                encoding(b);
            };
    for (int y = 0; y < 256; y++)
        for (int hi = 0; hi < 2; hi++)
            CASE("encoding y %d sign %d", y, hi) { std::string b(32, 0); b[0] = (char)y; b[31] = (char)(hi << 7); encoding(b); };
    for (int y = 0; y < 40; y++)
        for (int hi = 0; hi < 2; hi++)
            CASE("encoding 2^255-%d sign %d", y + 1, hi) { std::string b(32, (char)0xff); b[0] = (char)(0xff - y); b[31] = (char)(0x7f | hi << 7); encoding(b); };
    // the points of order 2, 4, 8, and their sums with group elements
    CASE("points outside the prime-order group") {
        static const char* S8 = "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a";
        std::string t(32, 0);
        for (int i = 0; i < 32; i++) t[i] = (char)strtol(std::string(S8 + 2 * i, 2).c_str(), nullptr, 16);
        Pt p; ctx.check(decode(t, p), "not a point"); ctx.check(!main_subgroup(p), "in the group");
        Pt q; decode(point("a"), q);
        Pt k;
        for (int i = 0; i < 8; i++) { encoding(encode(k)); encoding(encode(add(k, q))); encoding(encode(neg(k))); k = add(k, p); }
        ctx.check(identity(k), "order");
    };
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
