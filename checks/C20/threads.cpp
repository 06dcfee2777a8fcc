// C20: pairs of operations on distinct objects in two threads: schedules are enumerated, results compared with those of the operation alone,
// memory accesses checked for conflicts that no synchronisation orders.
#define MC_MAIN
#include "ops.hpp"
#include "tsanrt.hpp"
#include <map>
#include <sys/wait.h>
#include <signal.h>
#include <dlfcn.h>
using namespace mc;
using namespace mc::ops;
typedef std::string S;
#define STR(...) [&] { char b_[1500]; snprintf(b_, sizeof b_, __VA_ARGS__); return S(b_); }()
#define CK(c, ...) (ctx.checks++, (c) ? true : (ctx.fail(__VA_ARGS__), false))

// runs f in a child process (fresh library state) and returns what it returns; a death is reported as text
template<class F> S in_child(F f)
{
    int fd[2];
    if (pipe(fd)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        alarm(300);
        S r = f();
        size_t n = 0; while (n < r.size()) { ssize_t k = write(fd[1], r.data() + n, r.size() - n); if (k <= 0) break; n += k; }
        _exit(0);
    }
    close(fd[1]);
    S r; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, k);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return STR("Dkilled by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) return STR("Dexit %d", WEXITSTATUS(st));
    return r;
}
static const S& alone(int i, int label)
{
    static std::map<std::pair<int, int>, S> m;
    auto it = m.find({i, label});
    if (it == m.end()) it = m.emplace(std::make_pair(i, label), in_child([&] { World W(label, all()[i].needs | World::SYM | World::RC); return run(all()[i], W); })).first;
    return it->second;
}
// the second world's objects made from the first one's: copies where the class has them, otherwise the same key (or a key derived through the same objects)
static void link(World& a, World& b)
{
    b.sh.reset(new SetHash(*a.sh));
    if (a.c) { auto r = a.w->wrap(*a.c); b.c.reset(new Cipher(a.w->unwrap<Cipher>(r))); }
    if (a.p32) { auto r = a.w->wrap(*a.p32); b.p32.reset(new Prf<32>(a.w->unwrap<Prf<32>>(r))); auto q = a.w->wrap(*a.p100); b.p100.reset(new Prf<100>(a.w->unwrap<Prf<100>>(q))); }
    if (a.g) { auto r = a.w->wrap(*a.g); b.g.reset(new Prg(a.w->unwrap<Prg>(r))); }
    if (a.pp) { auto r = a.w->wrap(*a.pp); b.pp.reset(new Prp(a.w->unwrap<Prp>(r))); }
    if (a.rc) { b.crc.reset(new ConstrainedRCPrf<16>(a.rc->constrain(2, 13))); auto r = a.w->wrap(*a.rc2); b.rc2.reset(new RCPrf<70>(a.w->unwrap<RCPrf<70>>(r))); auto q = a.w->wrap(*a.rc); b.rc.reset(new RCPrf<16>(a.w->unwrap<RCPrf<16>>(q))); }
    if (a.t) { b.t.reset(new Tdp(*a.t)); b.pool.reset(new TdpMultPool(*a.pool)); auto r = a.w->wrap(*a.ti); b.ti.reset(new TdpInverse(a.w->unwrap<TdpInverse>(r))); }
}
static World* W[2]; static int op[2], lab[2]; static bool cold; static S res[2];
static void body(int t)
{
    if (cold) W[t] = new World(lab[t], all()[op[t]].needs | World::SYM | World::RC); // everything, also the construction, for the first time in this process
    res[t] = run(all()[op[t]], *W[t]);
}
static S where(void* pc)
{
    Dl_info d;
    if (!pc || !dladdr(pc, &d)) return "?";
    char cmd[300], line[300] = "";
    snprintf(cmd, sizeof cmd, "addr2line -Cfpe /proc/%d/exe 0x%lx 2>/dev/null", getpid(), (unsigned long)((char*)pc - (char*)d.dli_fbase - 1));
    FILE* f = popen(cmd, "r");
    if (f) { if (!fgets(line, sizeof line, f)) line[0] = 0; pclose(f); }
    S s = line; while (!s.empty() && s.back() == '\n') s.pop_back();
    return s.substr(0, 160);
}
constexpr uint64_t kTwoSwitches = 40000;
struct Tally { uint64_t two = 0, schedules = 0, accesses = 0, points = 0, syncs = 0; };
// one schedule; "" or a description of what went wrong
static S one(int first, const std::vector<uint32_t>& plan, const S want[2], Tally& T, sched::Report* out = nullptr)
{
    res[0] = res[1] = "";
    alarm(60); // for one schedule; they take milliseconds
    sched::Report r = sched::run(body, first, plan);
    T.schedules++; T.accesses += r.accesses; T.points += r.points[0] + r.points[1]; T.syncs += r.syncs;
    if (out) *out = r;
    S at = STR("thread %d first, switches at %s: ", first + 1, plan.empty() ? "the end" : join(std::vector<int>(plan.begin(), plan.end())).c_str());
    if (r.overflow) return at + "INCOMPLETE the monitor's tables are too small";
    if (r.deadlock) return at + "deadlock";
    if (r.races) { sched::Race& q = r.race[0]; return at + STR("conflicting unsynchronised accesses: thread %d %s %u bytes in %s; thread %d %s them in %s", q.tid + 1, q.write ? "writes" : "reads", q.size, where(q.pc).c_str(), 2 - q.tid, q.other_write ? "wrote" : "read", where(q.other).c_str()); }
    for (int t = 0; t < 2; t++) if (res[t] != want[t]) return at + STR("%s gives %s, alone %s", all()[op[t]].name.c_str(), hex(res[t]).c_str(), hex(want[t]).c_str());
    return "";
}
enum Mode { INDEPENDENT, LINKED, COLD };
static void pair(Ctx& ctx, Mode mode, int i, int j, int bound)
{
    lab[0] = 1; lab[1] = mode == INDEPENDENT ? 2 : mode == COLD ? 2 : 1; op[0] = i; op[1] = j; cold = mode == COLD;
    S want[2] = {alone(i, lab[0]), alone(j, lab[1])};
    S r = in_child([&]() -> S {
        Tally T; sched::Report r; S e;
        auto tally = [&] { return STR("K%lu %lu %lu %lu %lu", T.two, T.schedules, T.accesses, T.points, T.syncs); };
        if (cold) { e = one(0, {}, want, T, &r); return e.empty() ? tally() : e; }
        W[0] = new World(lab[0], all()[i].needs | World::SYM | World::RC | (all()[j].needs)); W[1] = new World(lab[1], all()[j].needs | World::SYM | World::RC | (mode == LINKED ? all()[i].needs : 0));
        if (mode == LINKED) link(*W[0], *W[1]);
        for (int first = 0; first < 2; first++) {
            if (!(e = one(first, {}, want, T, &r)).empty()) return e;
            if (bound < 1) continue;
            uint32_t n = r.points[first], m = r.points[1 - first];
            bool two = bound >= 2 && (uint64_t)n * m <= kTwoSwitches;
            if (two) T.two++;
            for (uint32_t k = 1; k <= n; k++) {
                if (!(e = one(first, {k}, want, T)).empty()) return e;
                if (two) for (uint32_t l = 1; l <= m; l++) if (!(e = one(first, {k, l}, want, T)).empty()) return e;
            }
        }
        return tally();
    });
    unsigned long two = 0, sc = 0, ac = 0, po = 0, sy = 0;
    if (r[0] == 'K' && sscanf(r.c_str(), "K%lu %lu %lu %lu %lu", &two, &sc, &ac, &po, &sy) == 5) {
        ctx.step(2 * sc); ctx.checks += 2 * sc; ctx.count("schedules", sc); ctx.count("memory_accesses", ac); ctx.count("scheduling_points", po); ctx.count("first_threads_with_all_two_switch_schedules", two); ctx.count("synchronisation_operations", sy);
        ctx.state(fnv(STR("%d %d %d", i, j, (int)mode))); ctx.outcome(want[0]); ctx.outcome(want[1]);
    } else ctx.fail("%s || %s: %s", all()[i].name.c_str(), all()[j].name.c_str(), r.c_str());
}
static void explore(Ctx& ctx)
{
    init_crypto_lib();
    Rng::install();
    bool T = ctx.thorough;
    int n = (int)all().size();
    const char* mn[] = {"independent", "linked", "cold"};
    auto tdp = [](int i) { return (all()[i].needs & World::TDP) != 0; };
    auto cls = [](int i) { return all()[i].name.substr(0, all()[i].name.find_first_of(".0123456789")); };
    for (int mode = 0; mode < 3; mode++)
        for (int i = 0; i < n; i++)
            for (int j = mode == COLD ? 0 : i; j < n; j++) {
                int bound = 1;
                bool same = cls(i) == cls(j) || (tdp(i) && tdp(j));
                if (mode == COLD && !(i == j || (T && same))) continue;
                if (mode == LINKED && !same && !T) continue;
                if (tdp(i) != tdp(j)) bound = 0;
                if (tdp(i) && tdp(j)) bound = T ? 1 : (i == j);
                if (!tdp(i) && !tdp(j) && same && T) bound = 2;
                CASE("%s objects: %s || %s, switches %d", mn[mode], all()[i].name.c_str(), all()[j].name.c_str(), bound) { pair(ctx, (Mode)mode, i, j, bound); };
            }
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
