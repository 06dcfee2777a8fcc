// C12: whenever no operation is running, the memory of every key is inaccessible, unchanged, and the only copy.
#define MC_MAIN
#define MC_ALLOCFAIL
#define MC_SODMEM
#include "allocfail.hpp"
#include "sodmem.hpp"
#include "ops.hpp"
#include <map>
using namespace mc;
using namespace mc::ops;

static int pfd[2];
static bool accessible(uintptr_t p)
{
    // the kernel refuses to read memory that is not accessible to us
    if (write(pfd[1], (const void*)p, 1) == 1) { char c; (void)!read(pfd[0], &c, 1); return true; }
    return false;
}
struct Rest
{
    std::map<uint64_t, uint64_t> seen; // serial -> hash of the content
    size_t blocks = 0;
    // after an operation: every live block is locked, and as it was
    void check(Ctx& ctx, const char* after)
    {
        std::map<uint64_t, uint64_t> now;
        for (auto& e : sodmem::live()) {
            size_t n = e.second.size;
            if (accessible(e.first) || accessible(e.first + n - 1)) { ctx.check(false, "after %s: a key of %zu bytes is accessible", after, n); return; }
            uint8_t b[9216]; // on the stack, never in heap memory
            uint64_t h = 7;
            for (size_t o = 0; o < n; o += sizeof b) {
                size_t m = n - o < sizeof b ? n - o : sizeof b;
                if (pread(sodmem::memfd(), b, m, (off_t)(e.first + o)) != (ssize_t)m) { ctx.check(false, "cannot read key memory"); return; }
                h = fnv(b, m, h);
            }
            sodium_memzero(b, sizeof b);
            now[e.second.serial] = h;
            auto it = seen.find(e.second.serial);
            if (it != seen.end()) ctx.check(it->second == now[e.second.serial], "after %s: a key of %zu bytes changed", after, n);
        }
        ctx.check(sodmem::bad_frees() == 0, "after %s: key memory freed twice", after);
        seen.swap(now);
        blocks = seen.size();
    }
};
// no byte of a protected key may also be in accessible memory (heap, globals)
static void only_copy(Ctx& ctx, const char* after)
{
    struct Pat { char b[16]; size_t size; };
    Pat* pats = (Pat*)alloca(sizeof(Pat) * (2 * sodmem::live().size() + 1)); // on the stack, which is not searched
    bool* head = (bool*)alloca(65536);
    memset(head, 0, 65536);
    size_t np = 0;
    for (auto& e : sodmem::live()) {
        size_t n = e.second.size;
        if (n < 16) continue;
        for (int k = 0; k < 2; k++) {
            char b[16];
            if (pread(sodmem::memfd(), b, 16, (off_t)(e.first + (k ? n - 16 : 0))) != 16) { ctx.fail("cannot read key memory"); return; }
            bool flat = true;
            for (int i = 1; i < 16; i++) if (b[i] != b[0]) flat = false;
            if (flat) continue;
            memcpy(pats[np].b, b, 16); pats[np].size = n; np++;
            head[(uint8_t)b[0] | (uint8_t)b[1] << 8] = true;
        }
    }
    char here;
    char line[512];
    FILE* f = fopen("/proc/self/maps", "r");
    static char iobuf[65536];
    setvbuf(f, iobuf, _IOFBF, sizeof iobuf);
    struct R { uintptr_t a, b; } rs[512];
    int nr = 0;
    while (fgets(line, sizeof line, f)) {
        unsigned long a, b; char perm[8];
        if (sscanf(line, "%lx-%lx %7s", &a, &b, perm) != 3 || perm[0] != 'r' || perm[1] != 'w') continue;
        if ((uintptr_t)&here >= a && (uintptr_t)&here < b) continue; // the stack
        if (nr < 512) rs[nr++] = {a, b};
    }
    fclose(f);
    for (int r = 0; r < nr; r++) {
        const uint8_t* p = (const uint8_t*)rs[r].a; size_t n = rs[r].b - rs[r].a;
        if (n > (64u << 20)) continue;
        for (size_t i = 0; i + 16 <= n; i++) {
            if (!head[p[i] | p[i + 1] << 8]) continue;
            for (size_t k = 0; k < np; k++)
                if (!memcmp(p + i, pats[k].b, 16)) { ctx.check(false, "after %s: part of a key of %zu bytes is in accessible memory", after, pats[k].size); return; }
        }
    }
    ctx.checks++;
}
static void history(Ctx& ctx, const std::vector<int>& seq, int needs, bool scan)
{
    {
        size_t before = sodmem::live().size();
        Rest r;
        {
            World W(1, needs), V(2, needs);
            r.check(ctx, "construction");
            size_t n0 = r.blocks;
            std::string names;
            for (int i : seq) {
                const Op& op = all()[i];
                std::string out = run(op, W);
                names += (names.empty() ? "" : ", ") + op.name;
                r.check(ctx, names.c_str());
                ctx.check(r.blocks == n0, "after %s: %zu live keys instead of %zu", names.c_str(), r.blocks, n0);
                ctx.check(failed_as_documented(op, out), "%s: not refused as documented", op.name.c_str());
                ctx.outcome(op.name + out);
                ctx.step();
                if (ctx.failures) return;
            }
            if (scan) only_copy(ctx, names.c_str());
            uint64_t h = 0;
            for (auto& e : r.seen) h = h * 31 + e.second;
            ctx.state(h);
        }
        ctx.check(sodmem::live().size() == before, "key memory is still allocated after all objects are destroyed");
    }
}
// an operation whose n-th allocation (or all from it on) fails leaves by an exception: the keys must be locked all the same
static bool failing(Ctx& ctx, const Op& op, int needs, uint64_t n, bool on)
{
    World W(1, needs);
    Rest r;
    r.check(ctx, "construction");
    size_t n0 = r.blocks;
    Rng::get().reset(fnv(op.name));
    alloc::arm(n, on ? UINT64_MAX : n);
    try { std::string s = op.f(W); alloc::disarm(); }
    catch (...) { alloc::disarm(); }
    if (!alloc::st().failed) return false;
    char what[200];
    snprintf(what, sizeof what, "%s with allocation %llu%s failing", op.name.c_str(), (unsigned long long)n, on ? " and all later ones" : "");
    r.check(ctx, what);
    ctx.check(r.blocks <= n0 && (r.blocks == n0 || (op.flags & MOVE)), "after %s: %zu live keys instead of %zu", what, r.blocks, n0);
    ctx.step();
    return true;
}
static void explore(Ctx& ctx)
{
        Rng::install();
        init_crypto_lib();
        if (pipe(pfd)) return;
        bool T = ctx.thorough;
        {
            auto sel = select(World::SYM | World::RC);
            for (int i : sel) CASE("op %s", all()[i].name.c_str()) { history(ctx, {i}, World::SYM | World::RC, true); };
            for (int i : sel) CASE("pairs %s", all()[i].name.c_str()) { for (int j : sel) { history(ctx, {i, j}, World::SYM | World::RC, false); ctx.tick(); } };
        }
        {
            auto sel = select(World::TDP);
            for (int i : sel) CASE("op %s", all()[i].name.c_str()) { history(ctx, {i}, World::TDP, true); };
        }
        {
            auto sel = select(World::SYM | World::RC);
            for (int i : sel) CASE("failing allocations in %s", all()[i].name.c_str()) {
                const Op& op = all()[i];
                for (bool on : {false, true}) for (uint64_t n = 1; n < 200 && failing(ctx, op, op.needs, n, on) && !ctx.failures; n++) ctx.tick();
            };
        }
        // triples, per family
        for (int fam : {(int)World::SYM, (int)World::RC}) {
            auto sel = select(fam);
            if (!T) { // a failing operation, or a rebuilding one, between two others
                auto mid = select(fam, FAIL | MOVE);
                std::vector<int> ok;
                for (size_t k = 0; k < sel.size(); k++) if (all()[sel[k]].flags == OK && k % 2 == 0) ok.push_back(sel[k]);
                for (int i : mid) for (int j : mid) CASE("triples %s %s", all()[i].name.c_str(), all()[j].name.c_str()) { for (int k : ok) { if (ctx.failures) return; history(ctx, {i, j, k}, fam, false); } ctx.tick(); };
            } else
                for (int i : sel) for (int j : sel) CASE("triples %s %s", all()[i].name.c_str(), all()[j].name.c_str()) { for (int k : sel) { if (ctx.failures) return; history(ctx, {i, j, k}, fam, false); } ctx.tick(); };
        }
        // default-constructed and derived keys of many sizes
        auto sizes = [&](auto tag) {
            constexpr size_t N = decltype(tag)::value;
            CASE("key size %zu", N) {
                Rest r;
                {
                    Rng::get().reset(N);
                    Key<N> a, b = skey<N>(N), c(std::move(b)), d;
                    r.check(ctx, "construction"); ctx.check(r.blocks == 3, "%zu blocks", r.blocks);
                    d = std::move(a);
                    r.check(ctx, "assignment"); ctx.check(r.blocks == 2, "%zu blocks", r.blocks);
                    Prg g(skey<32>(3));
                    auto k = g.derive_key<N>(2); auto ks = g.derive_keys<N>(3, 1);
                    r.check(ctx, "derivation"); ctx.check(r.blocks == 7, "%zu blocks", r.blocks);
                    auto k2 = Prg::derive_key<N>(skey<32>(4), 1); auto ks2 = Prg::derive_keys<N>(skey<32>(4), 2, 1);
                    r.check(ctx, "static derivation"); ctx.check(r.blocks == 10, "%zu blocks", r.blocks);
                    Prf<(uint16_t)N> p(skey<32>(5));
                    auto k3 = p.derive_key("x");
                    r.check(ctx, "prf derivation"); ctx.check(r.blocks == 12, "%zu blocks", r.blocks);
                    only_copy(ctx, "derivations");
                    k.erase(); c = std::move(k2);
                    r.check(ctx, "erasure"); ctx.check(r.blocks == 10, "%zu blocks", r.blocks);
                    ctx.step(12);
                }
                ctx.check(sodmem::live().empty(), "key memory left");
            };
        };
        sizes(std::integral_constant<size_t, 1>()); sizes(std::integral_constant<size_t, 15>()); sizes(std::integral_constant<size_t, 16>()); sizes(std::integral_constant<size_t, 17>());
        sizes(std::integral_constant<size_t, 32>()); sizes(std::integral_constant<size_t, 48>()); sizes(std::integral_constant<size_t, 64>()); sizes(std::integral_constant<size_t, 65>());
        sizes(std::integral_constant<size_t, 100>()); sizes(std::integral_constant<size_t, 4095>()); sizes(std::integral_constant<size_t, 4096>()); sizes(std::integral_constant<size_t, 4097>()); sizes(std::integral_constant<size_t, 9000>());
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
