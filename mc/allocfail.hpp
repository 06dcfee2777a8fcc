// Allocation faults: every allocation made by the library or by the code calling it (operator new, malloc, calloc, realloc, and with
// sodmem.hpp sodium_malloc) is counted, and the one with a chosen ordinal fails. Live blocks are counted too.
// The library's malloc family is redirected by the linker: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free.
// Define MC_ALLOCFAIL before including in exactly one translation unit.
#pragma once
#include <vector>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace mc { namespace alloc {
struct State { uint64_t on = 0, count = 0, fail_at = 0, fail_to = 0, failed = 0; int64_t live = 0, bytes = 0; void (*released)(void*, size_t) = nullptr; };
inline State& st() { static State s; return s; }
// which of an operation's allocations to let fail: every one up to 4000 (no operation of the pinned tree makes more);
// of a longer operation the first and the last 1500 and 1000 evenly spaced between
inline std::vector<uint64_t> ordinals(uint64_t total)
{
    std::vector<uint64_t> v;
    uint64_t stride = total <= 4000 ? 1 : (total - 3000 + 999) / 1000;
    for (uint64_t n = 1; n <= total; n += (n > 1500 && n + 1500 < total) ? stride : 1) v.push_back(n);
    return v;
}
// start counting; allocations n..m fail (0: none)
inline void arm(uint64_t n, uint64_t m = 0) { State& s = st(); s.on = 1; s.count = 0; s.failed = 0; s.fail_at = n; s.fail_to = m ? m : n; }
inline void disarm() { st().on = 0; }
inline bool fails()
{
    State& s = st();
    if (!s.on) return false;
    s.count++;
    if (s.fail_at && s.count >= s.fail_at && s.count <= s.fail_to) { s.failed++; return true; }
    return false;
}
struct Guard { Guard(uint64_t n, uint64_t m = 0) { arm(n, m); } ~Guard() { disarm(); } };
}} // namespace mc::alloc

#define ALLOC_WRAP "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"

#ifdef MC_ALLOCFAIL
#include <malloc.h>
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
// where the contents of released blocks are looked at: what a new block holds by accident is not the new owner's
static void mc_paint(void* p, size_t from) { if (p && mc::alloc::st().released) { size_t n = malloc_usable_size(p); if (from < n) __builtin_memset((char*)p + from, 0xee, n - from); } }
void* __wrap_malloc(size_t n)
{
    if (mc::alloc::fails()) return nullptr;
    void* p = __real_malloc(n);
    mc_paint(p, 0);
    if (p) mc::alloc::st().live++;
    return p;
}
void* __wrap_calloc(size_t n, size_t s)
{
    if (mc::alloc::fails()) return nullptr;
    void* p = __real_calloc(n, s);
    mc_paint(p, n * s);
    if (p) mc::alloc::st().live++;
    return p;
}
void __wrap_free(void* p)
{
    if (!p) return;
    mc::alloc::st().live--;
    if (mc::alloc::st().released) mc::alloc::st().released(p, malloc_usable_size(p));
    __real_free(p);
}
void* __wrap_realloc(void* o, size_t n)
{
    if (!o) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(o); return nullptr; }
    if (mc::alloc::fails()) return nullptr;
    // always a fresh block, so that what the old one holds is seen to be released
    void* p = __real_malloc(n);
    if (!p) return nullptr;
    mc_paint(p, 0);
    size_t m = malloc_usable_size(o);
    __builtin_memcpy(p, o, m < n ? m : n);
    mc::alloc::st().live++;
    __wrap_free(o);
    return p;
}
}
void* operator new(size_t n)
{
    void* p = __wrap_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
// over-aligned objects: posix_memalign is not wrapped
void* operator new(size_t n, std::align_val_t a)
{
    if (mc::alloc::fails()) throw std::bad_alloc();
    void* p = nullptr;
    if (posix_memalign(&p, (size_t)a < sizeof(void*) ? sizeof(void*) : (size_t)a, n ? n : 1)) throw std::bad_alloc();
    mc_paint(p, 0);
    mc::alloc::st().live++;
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
#endif
