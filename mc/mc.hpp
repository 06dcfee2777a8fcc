// Explicit enumeration engine shared by every harness.
//
// A harness is a deterministic program that walks a finite space of cases in a fixed order. Each case is
// announced with CASE("key ...") { body };  where the key names the case completely: given to --only, it
// re-executes exactly this case on the real code (replay). Cases are distributed over --shard I/N processes.
// The engine counts the cases executed, the transitions (operations of the code under test), and the distinct
// states/outcomes observed; the current key is kept in a shared mapping so that a crash, a sanitizer report or
// a hang is attributed to its case by the runner (bin/check.py).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    h ^= h >> 29;
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }

inline std::string hex(const void* p, size_t n, size_t max = 48)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    std::string s; char t[3];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 3, "%02x", b[i]); s += t; }
    if (n > max) s += "..";
    return s;
}
inline std::string hex(const std::string& s, size_t max = 48) { return hex(s.data(), s.size(), max); }

// Deterministic byte filler (splitmix64): position- and label-dependent, used for keys and payloads.
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline void fill(void* out, size_t n, uint64_t label)
{
    uint8_t* o = static_cast<uint8_t*>(out);
    for (size_t i = 0; i < n; i++) o[i] = (uint8_t)(mix(label * 0x10001ULL + i / 8) >> (8 * (i % 8)));
}
inline std::string bytes(size_t n, uint64_t label) { std::string s(n, 0); fill(&s[0], n, label); return s; }

struct Shared { volatile uint64_t ticks; char key[4080]; };

struct Ctx
{
    int shard = 0, nshards = 1;
    bool thorough = false;
    std::string only, out;
    std::vector<std::string> args;
    uint64_t seed = 1;

    uint64_t index = 0, cases = 0, transitions = 0, checks = 0, failures = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> fails;
    std::vector<std::pair<std::string, uint64_t>> extra; // named counters
    Shared* sh = nullptr;
    Shared local;
    bool matched = false;

    bool begin(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        uint64_t i = index++;
        if (only.empty() && (int)(i % nshards) != shard) return false;
        va_list ap; va_start(ap, fmt);
        char tmp[4080];
        vsnprintf(tmp, sizeof tmp, fmt, ap);
        va_end(ap);
        if (!only.empty()) { if (only != tmp) return false; matched = true; }
        strcpy(sh->key, tmp);
        sh->ticks = sh->ticks + 1;
        cases++;
        if (cases == 1 || cases == 2 || (cases & (cases - 1)) == 0) { if (samples.size() < 24) samples.push_back(tmp); }
        return true;
    }
    // keeps the watchdog quiet inside a long case
    void tick() { sh->ticks = sh->ticks + 1; }
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        va_list ap; va_start(ap, fmt);
        char tmp[2000];
        vsnprintf(tmp, sizeof tmp, fmt, ap);
        va_end(ap);
        failures++;
        fails.emplace_back(sh->key, tmp);
        fprintf(stderr, "FAIL [%s] %s\n", sh->key, tmp);
        static const size_t maxf = getenv("MC_MAXF") ? atoi(getenv("MC_MAXF")) : 25; if (fails.size() >= maxf) { finish(); _exit(1); }
    }
    bool check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        checks++;
        if (ok) return true;
        va_list ap; va_start(ap, fmt);
        char tmp[2000];
        vsnprintf(tmp, sizeof tmp, fmt, ap);
        va_end(ap);
        fail("%s", tmp);
        return false;
    }
    void state(uint64_t h) { states.insert(h); }
    void outcome(uint64_t h) { outcomes.insert(h); }
    void outcome(const std::string& s) { outcomes.insert(fnv(s)); }
    void step(uint64_t n = 1) { transitions += n; }
    void count(const char* name, uint64_t n = 1)
    {
        for (auto& e : extra) if (e.first == name) { e.second += n; return; }
        extra.emplace_back(name, n);
    }

    struct Body { Ctx& c; template<class F> void operator=(F&& f) { c.guard(f); } };
    Body body() { return Body{*this}; }
    template<class F> void guard(F&& f)
    {
        try { f(); }
        catch (const std::exception& e) { fail("unexpected exception: %s", e.what()); }
        catch (...) { fail("unexpected exception of unknown type"); }
    }

    static std::string esc(const std::string& s)
    {
        std::string o;
        for (unsigned char ch : s) {
            char t[8];
            if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
            else if (ch < 32 || ch > 126) { snprintf(t, 8, "\\u%04x", ch); o += t; }
            else o += (char)ch;
        }
        return o;
    }
    void finish()
    {
        if (out.empty()) return;
        FILE* f = fopen((out + ".tmp").c_str(), "w");
        fprintf(f, "{\"cases\":%lu,\"index\":%lu,\"transitions\":%lu,\"checks\":%lu,\"failures\":%lu,\"matched\":%s,\n",
                cases, index, transitions, checks, failures, matched ? "true" : "false");
        fprintf(f, "\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
        fprintf(f, "],\n\"extra\":{");
        for (size_t i = 0; i < extra.size(); i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", extra[i].first.c_str(), extra[i].second);
        fprintf(f, "},\n\"fails\":[");
        for (size_t i = 0; i < fails.size(); i++)
            fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", esc(fails[i].first).c_str(), esc(fails[i].second).c_str());
        fprintf(f, "]}\n");
        fclose(f);
        // the distinct states and outcomes, for an exact union over the shards
        for (int k = 0; k < 2; k++) {
            FILE* g = fopen((out + (k ? ".outcomes" : ".states")).c_str(), "wb");
            for (uint64_t h : (k ? outcomes : states)) fwrite(&h, 8, 1, g);
            fclose(g);
        }
        rename((out + ".tmp").c_str(), out.c_str());
    }
};

#define CASE(...) if (ctx.begin(__VA_ARGS__)) ctx.body() = [&]()

// --- enumeration helpers ------------------------------------------------------------------------------

// Calls f on every sequence over {0..n-1} of length lo..hi, in order of length.
template<class F> void sequences(int n, int lo, int hi, F f)
{
    for (int len = lo; len <= hi; len++) {
        std::vector<int> v(len, 0);
        for (;;) {
            f(v);
            int i = len - 1;
            while (i >= 0 && ++v[i] == n) v[i--] = 0;
            if (i < 0) break;
        }
    }
}
inline std::string join(const std::vector<int>& v)
{
    std::string s;
    for (int x : v) { if (!s.empty()) s += '.'; s += std::to_string(x); }
    return s.empty() ? "-" : s;
}

// Lengths: every one up to `all`, then the neighbourhood of every power of two (and of 3*2^k) up to `max`.
inline std::vector<size_t> lengths(size_t lo, size_t all, size_t max, int around = 2)
{
    std::vector<size_t> v;
    for (size_t i = lo; i <= all; i++) v.push_back(i);
    for (size_t p = 1; p <= max; p *= 2)
        for (size_t m = 2; m <= 3; m++)
            for (int d = -around; d <= around; d++) {
                size_t x = p / 2 * m + d;
                if (x > all && x >= lo && x <= max + around && (v.empty() || x > v.back())) v.push_back(x);
            }
    return v;
}

int explore_main(int argc, char** argv, void (*explore)(Ctx&));

} // namespace mc

#ifdef MC_MAIN
namespace mc {
int explore_main(int argc, char** argv, void (*explore)(Ctx&))
{
    static Ctx ctx;
    std::string cur;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--shard") { sscanf(argv[++i], "%d/%d", &ctx.shard, &ctx.nshards); }
        else if (a == "--only") ctx.only = argv[++i];
        else if (a == "--out") ctx.out = argv[++i];
        else if (a == "--cur") cur = argv[++i];
        else if (a == "--thorough") ctx.thorough = true;
        else ctx.args.push_back(a);
    }
    if (const char* s = getenv("VERIF_SEED")) ctx.seed = strtoull(s, nullptr, 10);
    ctx.sh = &ctx.local;
    if (!cur.empty()) {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
        if (ftruncate(fd, sizeof(Shared)) == 0) {
            void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) ctx.sh = static_cast<Shared*>(m);
        }
        close(fd);
    }
    strcpy(ctx.sh->key, "(setup)");
    explore(ctx);
    strcpy(ctx.sh->key, "(end)");
    ctx.finish();
    if (ctx.out.empty())
        printf("cases=%lu transitions=%lu checks=%lu states=%zu outcomes=%zu failures=%lu\n", ctx.cases, ctx.transitions,
               ctx.checks, ctx.states.size(), ctx.outcomes.size(), ctx.failures);
    fflush(nullptr);
    _exit(ctx.failures ? 1 : 0);
}
} // namespace mc
#endif
