// C26: each change of the protection of key memory made by each operation is refused by the system, and then all from each one on.
#define MC_MAIN
#define MC_SODMEM
#include "sodmem.hpp"
#include "ops.hpp"
#include <map>
using namespace mc;
using namespace mc::ops;

static struct { bool on; uint64_t count, at, to, failed, failed_lock; int err; } flt;
static bool refuse(bool locks)
{
    if (!flt.on) return false;
    flt.count++;
    if (!flt.at || flt.count < flt.at || flt.count > flt.to) return false;
    flt.failed++; flt.failed_lock += locks;
    errno = flt.err;
    return true;
}
extern "C" {
int sodium_mprotect_noaccess(void* p) { static auto f = (int (*)(void*))dlsym(RTLD_NEXT, "sodium_mprotect_noaccess"); return refuse(true) ? -1 : f(p); }
int sodium_mprotect_readonly(void* p) { static auto f = (int (*)(void*))dlsym(RTLD_NEXT, "sodium_mprotect_readonly"); return refuse(false) ? -1 : f(p); }
int sodium_mprotect_readwrite(void* p) { static auto f = (int (*)(void*))dlsym(RTLD_NEXT, "sodium_mprotect_readwrite"); return refuse(false) ? -1 : f(p); }
}
static int pfd[2];
static bool accessible(uintptr_t p)
{
    if (write(pfd[1], (const void*)p, 1) == 1) { char c; (void)!read(pfd[0], &c, 1); return true; }
    return false;
}
static size_t open_keys()
{
    size_t n = 0;
    for (auto& e : sodmem::live()) n += accessible(e.first) || accessible(e.first + e.second.size - 1);
    return n;
}
struct Res { char kind; uint64_t h; bool operator==(const Res& o) const { return kind == o.kind && h == o.h; } };
static Res exec(const Op& op, World& W, uint64_t n = 0, uint64_t m = 0, int err = ENOMEM)
{
    Rng::get().reset(fnv(op.name));
    flt = {true, 0, n, m, 0, 0, err};
    Res r;
    try { std::string s = op.f(W); r = {'V', fnv(s)}; }
    catch (const std::exception&) { r = {'E', 1}; }
    catch (...) { r = {'E', 2}; }
    flt.on = false;
    return r;
}
static void one(Ctx& ctx, const Op& op, int fam, uint64_t n, bool later, Res normal, const std::vector<int>& probes, const std::map<int, Res>& expect)
{
    const char* nm = op.name.c_str(); unsigned long long o = n;
    size_t blocks0 = sodmem::live().size();
    {
        World W(1, fam);
        size_t blocks = sodmem::live().size();
        Res out = exec(op, W, n, later ? UINT64_MAX : n);
        if (!flt.failed) return;
        ctx.step();
        ctx.outcome(fnv(op.name) + n * 8 + later * 4 + (out.kind == 'E') * 2 + (flt.failed_lock != 0));
        size_t open = open_keys();
        ctx.check(out == normal || out.kind == 'E', "%s, protection change %llu refused: neither an exception nor the right result", nm, o);
        ctx.check(out.kind == 'E' || (op.flags & FAIL) || open == 0, "%s, protection change %llu refused: it returns, and a key stays accessible", nm, o);
        if (!later) ctx.check(open <= flt.failed_lock, "%s, protection change %llu refused: %zu keys stay accessible", nm, o, open);
        ctx.check(sodmem::bad_frees() == 0, "%s, protection change %llu refused: key memory freed twice", nm, o);
        ctx.check(sodmem::live().size() <= blocks && (sodmem::live().size() == blocks || (op.flags & MOVE)), "%s, protection change %llu refused: %zu blocks of key memory instead of %zu", nm, o, sodmem::live().size(), blocks);
        if (ctx.failures) return;
        if ((ctx.thorough || !later) && !(op.flags & MOVE)) {
            for (int p : probes) {
                exec(all()[p], W);
                for (uint64_t m = 1, t = flt.count; m <= t && m <= 60; m++) {
                    size_t before = open_keys();
                    Res a = exec(all()[p], W, m, m);
                    ctx.check((a.kind == 'E' && flt.failed) || (a == expect.at(p) && open_keys() <= before + flt.failed_lock), "%s with change %llu refused after %s with %llu refused: wrong result", all()[p].name.c_str(), (unsigned long long)m, nm, o);
                    ctx.step();
                }
            }
            ctx.check(sodmem::bad_frees() == 0 && sodmem::live().size() == blocks, "%s, protection change %llu refused and one in each later operation: key memory lost", nm, o);
        }
        if (!(op.flags & MOVE) || sodmem::live().size() == blocks) {
            Res again = exec(op, W);
            ctx.check(again == normal, "%s after a refused protection change (%llu): wrong result", nm, o);
            for (int p : probes) { Res r = exec(all()[p], W); ctx.check(r == expect.at(p), "%s after %s with protection change %llu refused: wrong result", all()[p].name.c_str(), nm, o); }
            ctx.check(open_keys() == 0, "after %s with protection change %llu refused and all objects used again, a key stays accessible", nm, o);
        }
    }
    ctx.check(sodmem::live().size() == blocks0, "%s, protection change %llu refused: key memory is still allocated after all objects are destroyed", nm, o);
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    if (pipe(pfd)) return;
    for (int fam : {(int)World::SYM, (int)World::RC, (int)World::TDP}) {
        std::vector<int> probes;
        static std::map<int, std::map<int, Res>> expects;
        auto& expect = expects[fam];
        for (int i : select(fam)) {
            const std::string& n = all()[i].name;
            if (all()[i].flags != OK) continue;
            if (fam == World::TDP && !(n == "tdp.eval" || n == "tdpi.invert" || n == "pool.eval" || n == "tdp.generate")) continue;
            probes.push_back(i);
        }
        { World W(1, fam); for (int i : probes) expect[i] = exec(all()[i], W); }
        for (int i : select(fam)) {
            const Op& op = all()[i];
            Res normal;
            { World W(1, fam); normal = exec(op, W); }
            uint64_t total = flt.count;
            for (uint64_t n = 1; n <= total; n++) {
                if (total > 600 && n > 200 && n + 200 < total && n % (total / 200)) continue;
                CASE("%s change %llu refused", op.name.c_str(), (unsigned long long)n) { one(ctx, op, fam, n, false, normal, probes, expect); one(ctx, op, fam, n, true, normal, probes, expect); };
            }
            CASE("%s without protection", op.name.c_str()) {
                flt = {true, 0, 1, UINT64_MAX, 0, 0, ENOSYS};
                World W(1, fam);
                for (int k = 0; k < 2; k++) ctx.check(exec(op, W, 1, UINT64_MAX, ENOSYS) == normal, "%s on a system without memory protection: another result", op.name.c_str());
                ctx.step();
            };
        }
    }
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
