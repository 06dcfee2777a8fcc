// C21: each single allocation of each operation is made to fail, and then all from each one on.
#define MC_MAIN
#define MC_ALLOCFAIL
#define MC_SODMEM
#include "allocfail.hpp"
#include "sodmem.hpp"
#include "ops.hpp"
#include <map>
using namespace mc;
using namespace mc::ops;

static int pfd[2];
static bool accessible(uintptr_t p)
{
    if (write(pfd[1], (const void*)p, 1) == 1) { char c; (void)!read(pfd[0], &c, 1); return true; }
    return false;
}
static void locked(Ctx& ctx, const char* what, uint64_t n)
{
    for (auto& e : sodmem::live())
        if (accessible(e.first) || accessible(e.first + e.second.size - 1)) { ctx.check(false, "%s, allocation %llu failing: a key of %zu bytes stays accessible", what, (unsigned long long)n, e.second.size); return; }
    ctx.check(sodmem::bad_frees() == 0, "%s, allocation %llu failing: key memory freed twice", what, (unsigned long long)n);
}
// 'V': a value, 'E': an exception; nothing of it stays on the heap
struct Res { char kind; uint64_t h; bool operator==(const Res& o) const { return kind == o.kind && h == o.h; } };
static Res exec(const Op& op, World& W, uint64_t n = 0, uint64_t m = 0)
{
    Rng::get().reset(fnv(op.name));
    alloc::Guard g(n, m);
    try { std::string s = op.f(W); alloc::disarm(); return {'V', fnv(s)}; }
    catch (const std::exception&) { return {'E', 1}; }
    catch (...) { return {'E', 2}; }
}
// one operation with the n-th (mode 1: and all later) allocation failing; returns whether any failed
static bool one(Ctx& ctx, const Op& op, int needs, uint64_t n, int mode, Res normal, const std::vector<int>& probes, const std::map<int, Res>& expect)
{
    const char* nm = op.name.c_str();
    size_t blocks0 = sodmem::live().size();
    bool failed;
    uint64_t failures = ctx.failures;
    int64_t live = alloc::st().live;
    char kind;
    {
        World W(1, needs);
        size_t blocks = sodmem::live().size();
        Res out = exec(op, W, n, mode ? UINT64_MAX : n);
        failed = alloc::st().failed != 0;
        if (!failed) return false;
        ctx.step();
        ctx.check(out == normal || out.kind == 'E', "%s, allocation %llu failing: neither an exception nor the right result", nm, (unsigned long long)n);
        kind = out.kind;
        locked(ctx, nm, n);
        ctx.check(sodmem::live().size() <= blocks && (sodmem::live().size() == blocks || (op.flags & MOVE)), "%s, allocation %llu failing: %zu blocks of key memory instead of %zu", nm, (unsigned long long)n, sodmem::live().size(), blocks);
        // the objects still work
        if (!(op.flags & MOVE) || sodmem::live().size() == blocks) {
            Res again = exec(op, W);
            ctx.check(again == normal, "%s after a failed allocation (%llu): wrong result", nm, (unsigned long long)n);
            for (int p : probes) { Res r = exec(all()[p], W); ctx.check(r == expect.at(p), "%s after %s with allocation %llu failing: wrong result", all()[p].name.c_str(), nm, (unsigned long long)n); }
        }
    }
    if (ctx.failures == failures) ctx.check(alloc::st().live == live, "%s, allocation %llu failing: %lld heap blocks are never released", nm, (unsigned long long)n, (long long)(alloc::st().live - live));
    ctx.outcome(fnv(op.name) + n * 4 + mode * 2 + (kind == 'E'));
    ctx.check(sodmem::live().size() == blocks0, "%s, allocation %llu failing: key memory is still allocated after all objects are destroyed", nm, (unsigned long long)n);
    return true;
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    if (pipe(pfd)) return;
    bool T = ctx.thorough;
    for (int fam : {(int)World::SYM, (int)World::RC, (int)World::TDP}) {
        std::vector<int> probes; // operations of the family that use each object
        static std::map<int, std::map<int, Res>> expects;
        auto& expect = expects[fam];
        for (int i : select(fam)) {
            const std::string& n = all()[i].name;
            if (all()[i].flags != OK) continue;
            if (fam == World::TDP && !(n == "tdp.eval" || n == "tdpi.invert" || n == "pool.eval")) continue;
            if (T || fam == World::TDP || n.find(".static") == std::string::npos) probes.push_back(i);
        }
        {
            World W(1, fam);
            for (int i : probes) expect[i] = exec(all()[i], W);
        }
        for (int i : select(fam)) for (int mode : {0, 1}) {
            const Op& op = all()[i];
            enum { STEP = 16 };
            Res normal;
            { World W(1, fam); exec(op, W); }
            { World W(1, fam); normal = exec(op, W); }
            uint64_t total = alloc::st().count;
            if (getenv("V") && !mode) fprintf(stderr, "%s: %llu\n", op.name.c_str(), (unsigned long long)total);
            std::vector<uint64_t> ord = alloc::ordinals(total);
            for (size_t from = 0; from < ord.size(); from += STEP)
                CASE("%s %s allocations %llu..", op.name.c_str(), mode ? "from" : "single", (unsigned long long)ord[from]) {
                    for (size_t j = from; j < from + STEP && j < ord.size(); j++) { uint64_t n = ord[j]; one(ctx, op, fam, n, mode, normal, probes, expect); ctx.tick(); if (ctx.failures) return; }
                };
        }
    }
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
