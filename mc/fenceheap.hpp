// A heap of exactly sized blocks: while it is on, every allocation made by the library or by the code calling it (operator new, and the malloc
// family redirected by the linker) ends (END) or starts (BEGIN) at an inaccessible page, and a released block becomes inaccessible.
// Alignment: a block of n bytes is aligned to the largest power of two (at most 16) that divides n, which suits every object of that size.
// Define MC_FENCEHEAP before including in exactly one translation unit. Single-threaded.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

namespace mc { namespace fheap {
enum Mode { OFF, END, BEGIN };
struct Arena { uint8_t* base = nullptr; uint32_t slots = 0, fresh = 0, head = 0, count = 0; uint32_t* ring = nullptr; uint32_t* size = nullptr; };
struct State { Mode mode = OFF; Arena a[12]; uint64_t allocs = 0; int64_t live = 0; };
inline State& st() { static State s; return s; }
struct On { Mode old; explicit On(Mode m) : old(st().mode) { st().mode = m; } ~On() { st().mode = old; } };
struct Off { Mode old; Off() : old(st().mode) { st().mode = OFF; } ~Off() { st().mode = old; } };
}} // namespace mc::fheap

#ifdef MC_FENCEHEAP
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
}
namespace mc { namespace fheap {
static void* map(size_t n, int prot) { void* p = mmap(nullptr, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; }
static void* get(size_t n, bool zero)
{
    State& s = st();
    int k = 0; while ((size_t(4096) << k) < n) k++;
    if (k >= 12) return __real_calloc(1, n);
    Arena& a = s.a[k]; size_t body = size_t(4096) << k, stride = body + 4096;
    if (!a.base) {
        a.slots = k < 3 ? 6000 : 200;
        a.base = (uint8_t*)map(a.slots * stride + 4096, PROT_NONE) + 4096;
        a.ring = (uint32_t*)map(a.slots * 4, PROT_READ | PROT_WRITE); a.size = (uint32_t*)map(a.slots * 4, PROT_READ | PROT_WRITE);
    }
    uint32_t i;
    if (a.count > 64 || (a.fresh == a.slots && a.count)) { i = a.ring[a.head]; a.head = (a.head + 1) % a.slots; a.count--; } // released blocks stay inaccessible for a while
    else if (a.fresh < a.slots) i = a.fresh++;
    else return __real_calloc(1, n);
    uint8_t* b = a.base + i * stride;
    mprotect(b, body, PROT_READ | PROT_WRITE);
    a.size[i] = (uint32_t)n;
    uint8_t* p = s.mode == BEGIN ? b : b + body - n;
    memset(p, zero ? 0 : 0xD7, n);
    s.allocs++; s.live++;
    return p;
}
static Arena* find(void* p, uint32_t& i, int& k)
{
    for (k = 0; k < 12; k++) { Arena& a = st().a[k]; size_t stride = (size_t(4096) << k) + 4096; if (a.base && p >= a.base && p < a.base + a.slots * stride) { i = (uint32_t)(((uint8_t*)p - a.base) / stride); return &a; } }
    return nullptr;
}
static bool put(void* p)
{
    uint32_t i; int k; Arena* a = find(p, i, k);
    if (!a) return false;
    size_t body = size_t(4096) << k;
    if (a->size[i] == 0) abort(); // released twice
    a->size[i] = 0;
    uint8_t* b = a->base + i * (body + 4096);
    mprotect(b, body, PROT_NONE);
    a->ring[(a->head + a->count++) % a->slots] = i;
    st().live--;
    return true;
}
}} // namespace mc::fheap
extern "C" {
void* __wrap_malloc(size_t n) { return mc::fheap::st().mode ? mc::fheap::get(n ? n : 1, false) : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t s) { return mc::fheap::st().mode ? mc::fheap::get(n * s ? n * s : 1, true) : __real_calloc(n, s); }
void __wrap_free(void* p) { if (p && !mc::fheap::put(p)) __real_free(p); }
void* __wrap_realloc(void* o, size_t n)
{
    uint32_t i; int k;
    mc::fheap::Arena* a = o ? mc::fheap::find(o, i, k) : nullptr;
    if (!o) return __wrap_malloc(n);
    if (!a) return __real_realloc(o, n);
    void* p = __wrap_malloc(n); size_t m = a->size[i];
    memcpy(p, o, m < n ? m : n);
    __wrap_free(o);
    return p;
}
}
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
#endif
