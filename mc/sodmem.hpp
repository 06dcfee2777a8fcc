// The library's locked memory, observed: sodium_malloc and sodium_free are replaced by wrappers that keep a registry of the live
// blocks; their contents can be read whatever their protection (through /proc/self/mem).
// Define MC_SODMEM before including in exactly one translation unit.
#pragma once
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <sodium.h>
#include <string>
#include <unistd.h>
#include <vector>

namespace mc { namespace sodmem {
struct Block { size_t size; uint64_t serial; };
// the registry itself does not use the (observed, failing) allocators
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
template<class T> struct Raw
{
    typedef T value_type;
    Raw() {}
    template<class U> Raw(const Raw<U>&) {}
    T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { __libc_free(p); }
    template<class U> bool operator==(const Raw<U>&) const { return true; }
    template<class U> bool operator!=(const Raw<U>&) const { return false; }
};
typedef std::map<uintptr_t, Block, std::less<uintptr_t>, Raw<std::pair<const uintptr_t, Block>>> Map;
inline Map& live() { static Map* m = new Map; return *m; }
inline std::mutex& mu() { static auto* m = new std::mutex; return *m; }
inline uint64_t& allocs() { static uint64_t n = 0; return n; }
inline uint64_t& frees() { static uint64_t n = 0; return n; }
inline uint64_t& bad_frees() { static uint64_t n = 0; return n; }
// fault: the allocation with this ordinal (1, 2, ...; counted from arm()) fails
inline uint64_t& fail_at() { static uint64_t n = 0; return n; }
inline uint64_t& counter() { static uint64_t n = 0; return n; }
inline void arm(uint64_t n) { fail_at() = n; counter() = 0; }

// called with the address and size of each block before it is released
inline void (*&on_free())(uintptr_t, size_t) { static void (*f)(uintptr_t, size_t) = nullptr; return f; }

inline int memfd() { static int fd = open("/proc/self/mem", O_RDWR | O_CLOEXEC); return fd; }
inline std::string peek(uintptr_t p, size_t n)
{
    std::string s(n, 0);
    ssize_t r = pread(memfd(), &s[0], n, (off_t)p);
    s.resize(r < 0 ? 0 : (size_t)r);
    return s;
}
// Protection of the page of an address: "rw", "r-", "--", ...
inline std::vector<std::pair<std::pair<uintptr_t, uintptr_t>, std::string>> maps()
{
    std::vector<std::pair<std::pair<uintptr_t, uintptr_t>, std::string>> v;
    static char buf[1 << 20];
    int fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    size_t n = 0; ssize_t r;
    while ((r = read(fd, buf + n, sizeof buf - 1 - n)) > 0) n += (size_t)r;
    close(fd);
    buf[n] = 0;
    for (char* p = buf; *p;) {
        unsigned long a, b; char perm[8];
        if (sscanf(p, "%lx-%lx %7s", &a, &b, perm) == 3) v.push_back({{a, b}, std::string(perm, 3)});
        p = strchr(p, '\n');
        if (!p) break;
        p++;
    }
    return v;
}
inline std::string prot_of(const std::vector<std::pair<std::pair<uintptr_t, uintptr_t>, std::string>>& m, uintptr_t p)
{
    size_t lo = 0, hi = m.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (m[mid].first.second <= p) lo = mid + 1; else hi = mid; }
    if (lo < m.size() && m[lo].first.first <= p) return m[lo].second;
    return "unmapped";
}
}} // namespace mc::sodmem

#ifdef MC_SODMEM
extern "C" {
void* sodium_malloc(size_t n)
{
    using namespace mc::sodmem;
    static auto real = (void* (*)(size_t))dlsym(RTLD_NEXT, "sodium_malloc");
    { std::lock_guard<std::mutex> g(mu()); if (fail_at() && ++counter() == fail_at()) { errno = ENOMEM; return nullptr; } }
#ifdef MC_ALLOCFAIL
    if (mc::alloc::fails()) { errno = ENOMEM; return nullptr; }
#endif
    void* p = real(n);
    std::lock_guard<std::mutex> g(mu());
    allocs()++;
    if (p) live()[(uintptr_t)p] = {n, allocs()};
    return p;
}
void* sodium_allocarray(size_t c, size_t s)
{
    if (s && c > SIZE_MAX / s) return nullptr;
    return sodium_malloc(c * s);
}
void sodium_free(void* p)
{
    using namespace mc::sodmem;
    static auto real = (void (*)(void*))dlsym(RTLD_NEXT, "sodium_free");
    if (p) {
        std::lock_guard<std::mutex> g(mu());
        frees()++;
        auto it = live().find((uintptr_t)p);
        if (on_free() && it != live().end()) on_free()(it->first, it->second.size);
        if (!live().erase((uintptr_t)p)) { bad_frees()++; return; } // not (or no longer) allocated
    }
    real(p);
}
}
#endif
