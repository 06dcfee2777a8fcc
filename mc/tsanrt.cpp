// Runtime for code compiled with -fsanitize=thread (without libtsan): every memory access and synchronisation operation of the library and of its
// templates is reported here. Two threads run one at a time under a scheduler that enumerates the switches; accesses are checked for data races by vector clocks.
// Calls into libsodium and the C library's memory functions are redirected here by the linker (--wrap), reported as accesses to their arguments, and
// (libsodium) are scheduling points. This file is compiled without instrumentation.
#include "tsanrt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#define PC __builtin_return_address(0)

namespace mc { namespace sched {
struct Cell { uint64_t key; uint32_t epoch; uint32_t rclk[2], wclk[2]; uint8_t rmask[2], wmask[2]; void* pc[2]; };
static const uint32_t NCELL = 1u << 20;
static Cell* cells; static uint32_t used, epoch;
struct Sync { uint64_t key; uint32_t epoch; uint32_t vc[2]; };
static const uint32_t NSYNC = 1u << 12;
static Sync syncs[NSYNC];
static uint32_t VC[2][2];
static thread_local int me = -1;
static thread_local int quiet = 0;
static volatile bool on = false;
static bool finished[2], blocked[2];
static sem_t go[2], done;
static Report rep;
static const uint32_t* plan; static size_t nplan, iplan; // remaining switches
static uint32_t spins;
static void (*body)(int);

static inline uint64_t h64(uint64_t x) { x *= 0x9e3779b97f4a7c15ULL; return x ^ (x >> 29); }
static Cell* cell(uint64_t k)
{
    for (uint32_t i = (uint32_t)h64(k) & (NCELL - 1);; i = (i + 1) & (NCELL - 1)) {
        Cell& c = cells[i];
        if (c.epoch != epoch) { if (used > NCELL / 2) { rep.overflow = true; return nullptr; } used++; c = Cell{}; c.epoch = epoch; c.key = k; return &c; }
        if (c.key == k) return &c;
    }
}
static void touch(uint64_t a, size_t n, bool w, void* pc)
{
    if (!on || me < 0 || quiet || n == 0) return;
    rep.accesses++;
    int t = me, o = 1 - me;
    uint64_t end = a + n;
    while (a < end) {
        uint64_t g = a >> 3; unsigned lo = a & 7, hi = end - (g << 3) < 8 ? (unsigned)(end - (g << 3)) : 8;
        uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell* c = cell(g);
        if (!c) return;
        bool ww = (c->wmask[o] & m) && c->wclk[o] > VC[t][o], rw = w && (c->rmask[o] & m) && c->rclk[o] > VC[t][o];
        if (ww || rw) { if (rep.races < 8) rep.race[rep.races] = {a, pc, c->pc[o], t, w, ww, (unsigned)n}; rep.races++; on = false; sem_post(&done); for (;;) pause(); /* the schedule ends here: what follows may be arbitrary */ }
        if (w) { c->wmask[t] |= m; c->wclk[t] = VC[t][t]; } else { c->rmask[t] |= m; c->rclk[t] = VC[t][t]; }
        c->pc[t] = pc;
        a = (g + 1) << 3;
    }
}
// a block handed out by an allocator is new memory
static void fresh(void* p, size_t n)
{
    if (!on || me < 0 || !p) return;
    if (n > (1 << 22)) n = 1 << 22;
    uint64_t a = (uint64_t)p, g1 = (a + n + 7) >> 3;
    for (uint64_t g = a >> 3; g < g1; g++)
        for (uint32_t i = (uint32_t)h64(g) & (NCELL - 1);; i = (i + 1) & (NCELL - 1)) {
            Cell& c = cells[i];
            if (c.epoch != epoch) break;
            if (c.key == g) { c = Cell{}; c.epoch = epoch; c.key = g; break; }
        }
}
static Sync* sync(uint64_t k)
{
    for (uint32_t i = (uint32_t)h64(k) & (NSYNC - 1), n = 0; n < NSYNC; i = (i + 1) & (NSYNC - 1), n++) {
        Sync& s = syncs[i];
        if (s.epoch != epoch) { s = Sync{k, epoch, {0, 0}}; return &s; }
        if (s.key == k) return &s;
    }
    rep.overflow = true;
    return nullptr;
}
static void acquire(void* p) { if (!on || me < 0) return; Sync* s = sync((uint64_t)p); if (s) for (int i = 0; i < 2; i++) if (s->vc[i] > VC[me][i]) VC[me][i] = s->vc[i]; }
static void release(void* p) { if (!on || me < 0) return; Sync* s = sync((uint64_t)p); if (s) for (int i = 0; i < 2; i++) if (VC[me][i] > s->vc[i]) s->vc[i] = VC[me][i]; VC[me][me]++; rep.syncs++; }

static void wait(sem_t* s) { while (sem_wait(s) != 0) {} }
static void yield_to_other() { int t = me; rep.switches++; spins = 0; sem_post(&go[1 - t]); wait(&go[t]); }
static void point()
{
    if (!on || me < 0 || quiet) return;
    rep.points[me]++;
    if (iplan < nplan && plan[iplan] == rep.points[me] && !finished[1 - me]) { iplan++; yield_to_other(); }
}
// the thread cannot go on before the other one has run
static void block()
{
    if (finished[1 - me] || blocked[1 - me]) {
        rep.deadlock = true; on = false;
        sem_post(&done);
        for (;;) pause();
    }
    blocked[me] = true; yield_to_other(); blocked[me] = false;
}
static void* thread_main(void* p)
{
    int t = (int)(intptr_t)p;
    wait(&go[t]);
    me = t;
    body(t);
    me = -1;
    finished[t] = true;
    if (finished[1 - t]) sem_post(&done); else sem_post(&go[1 - t]);
    return nullptr;
}
Report run(void (*f)(int), int first, const std::vector<uint32_t>& p)
{
    if (!cells) cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    epoch++; used = 0; spins = 0; body = f;
    rep = Report();
    plan = p.data(); nplan = p.size(); iplan = 0;
    for (int i = 0; i < 2; i++) { VC[i][i] = 1; VC[i][1 - i] = 0; finished[i] = blocked[i] = false; sem_init(&go[i], 0, 0); }
    sem_init(&done, 0, 0);
    pthread_t th[2];
    for (int i = 0; i < 2; i++) if (pthread_create(&th[i], nullptr, thread_main, (void*)(intptr_t)i)) abort();
    on = true;
    sem_post(&go[first]);
    wait(&done);
    on = false;
    if (!rep.deadlock && !rep.races) for (int i = 0; i < 2; i++) pthread_join(th[i], nullptr);
    return rep;
}
static void atomic_op(void* p) { if (!on || me < 0) return; point(); if (++spins > 400 && !finished[1 - me]) yield_to_other(); acquire(p); release(p); }
}} // namespace mc::sched
using namespace mc::sched;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { touch((uint64_t)p, n, false, PC); } void __tsan_write##n(void* p) { touch((uint64_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { touch((uint64_t)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { touch((uint64_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { touch((uint64_t)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { touch((uint64_t)p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { touch((uint64_t)p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { touch((uint64_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch((uint64_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { touch((uint64_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch((uint64_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { touch((uint64_t)p, 8, false, PC); }
typedef uint8_t a8; typedef uint16_t a16; typedef uint32_t a32; typedef uint64_t a64;
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int) { atomic_op((void*)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { atomic_op((void*)p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { atomic_op((void*)p); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_op((void*)p); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_op((void*)p); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) { atomic_op((void*)p); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) { if (me >= 0) { acquire((void*)1); release((void*)1); } __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// --- the allocator
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); fresh(p, n); return p; }
void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); fresh(p, n * m); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p != q) fresh(p, n); return p; }
void free(void* p) { __libc_free(p); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); fresh(p, n); return p; }
int posix_memalign(void** r, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return ENOMEM; fresh(p, n); *r = p; return 0; }

void* __real_sodium_malloc(size_t); void* __real_sodium_allocarray(size_t, size_t);
// a word that stands for the protection of a page
static uint64_t page_word(uint64_t p) { return (p >> 12 << 3) ^ (1ULL << 60); }
static void fresh_pages(void* p, size_t n) { fresh(p, n); if (p) for (uint64_t q = (uint64_t)p >> 12 << 12; q < (uint64_t)p + n; q += 4096) fresh((void*)page_word(q), 8); }
void* __wrap_sodium_malloc(size_t n) { point(); void* p = __real_sodium_malloc(n); fresh_pages(p, n); return p; }
void* __wrap_sodium_allocarray(size_t n, size_t m) { point(); void* p = __real_sodium_allocarray(n, m); fresh_pages(p, n * m); return p; }

// --- memory functions
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch((uint64_t)s, n, false, PC); touch((uint64_t)d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch((uint64_t)s, n, false, PC); touch((uint64_t)d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch((uint64_t)d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { touch((uint64_t)a, n, false, PC); touch((uint64_t)b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); touch((uint64_t)s, n + 1, false, PC); return n; }
void* __wrap___memcpy_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
void* __wrap___memmove_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memmove(d, s, n); }
void* __wrap___memset_chk(void* d, int c, size_t n, size_t) { return __wrap_memset(d, c, n); }

// --- synchronisation
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on || me < 0) return __real_pthread_mutex_lock(m);
    point();
    for (;;) { int r = __real_pthread_mutex_trylock(m); if (r != EBUSY) { acquire(m); return r; } block(); }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { point(); int r = __real_pthread_mutex_trylock(m); if (r == 0) acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { release(m); int r = __real_pthread_mutex_unlock(m); point(); return r; }
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on || me < 0) return __real_pthread_rwlock_rdlock(m); point(); for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) { acquire(m); return r; } block(); } }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on || me < 0) return __real_pthread_rwlock_wrlock(m); point(); for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) { acquire(m); return r; } block(); } }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { release(m); int r = __real_pthread_rwlock_unlock(m); point(); return r; }
// 0: not started, 1: done, 2 (second byte): in progress
int __wrap___cxa_guard_acquire(uint8_t* g)
{
    for (;;) {
        point();
        if (__atomic_load_n(&g[0], 5)) { acquire(g); return 0; }
        if (!g[1]) { g[1] = 1; acquire(g); return 1; }
        if (!on || me < 0) abort(); // recursive initialisation
        block();
    }
}
void __wrap___cxa_guard_release(uint8_t* g) { release(g); g[1] = 0; __atomic_store_n(&g[0], 1, 5); point(); }
void __wrap___cxa_guard_abort(uint8_t* g) { release(g); g[1] = 0; }
struct OnceState { pthread_once_t* c; uint8_t g[2]; };
static OnceState onces[64];
int __wrap_pthread_once(pthread_once_t* c, void (*f)())
{
    for (auto& o : onces) {
        if (!o.c) o.c = c;
        if (o.c == c) { if (__wrap___cxa_guard_acquire(o.g)) { f(); __wrap___cxa_guard_release(o.g); } return 0; }
    }
    abort();
}

// --- libsodium: arguments are registers 0..5 and stack words from 6
struct Arg { int8_t ptr; char rw; int16_t len; }; // len >= 0: constant; < 0: argument number -1-len
struct Fun { const char* name; Arg a[8]; };
#define L(i) (int16_t)(-1 - (i))
#define SODIUM(X) \
    X(sodium_memzero, {0, 'w', L(1)}) X(sodium_memcmp, {0, 'r', L(2)}, {1, 'r', L(2)}) X(sodium_free, {-1, 0, 0}) \
    X(sodium_mprotect_readonly, {0, 'p', 1}) X(sodium_mprotect_noaccess, {0, 'p', 1}) X(sodium_mprotect_readwrite, {0, 'p', 1}) \
    X(crypto_generichash_blake2b, {0, 'w', L(1)}, {2, 'r', L(3)}, {4, 'r', L(5)}) X(crypto_generichash_blake2b_salt_personal, {0, 'w', L(1)}, {2, 'r', L(3)}, {4, 'r', L(5)}, {6, 'r', 16}, {7, 'r', 16}) \
    X(crypto_generichash, {0, 'w', L(1)}, {2, 'r', L(3)}, {4, 'r', L(5)}) \
    X(crypto_generichash_init, {0, 'w', 384}, {1, 'r', L(2)}) X(crypto_generichash_update, {0, 'w', 384}, {1, 'r', L(2)}) X(crypto_generichash_final, {0, 'w', 384}, {1, 'w', L(2)}) \
    X(crypto_generichash_blake2b_init, {0, 'w', 384}, {1, 'r', L(2)}) X(crypto_generichash_blake2b_update, {0, 'w', 384}, {1, 'r', L(2)}) X(crypto_generichash_blake2b_final, {0, 'w', 384}, {1, 'w', L(2)}) \
    X(crypto_hash_sha512, {0, 'w', 64}, {1, 'r', L(2)}) X(crypto_hash_sha512_init, {0, 'w', 208}) X(crypto_hash_sha512_update, {0, 'w', 208}, {1, 'r', L(2)}) X(crypto_hash_sha512_final, {0, 'w', 208}, {1, 'w', 64}) \
    X(randombytes_buf, {0, 'w', L(1)}) X(randombytes_random, {-1, 0, 0}) X(randombytes_uniform, {-1, 0, 0}) \
    X(crypto_stream_chacha20, {0, 'w', L(1)}, {2, 'r', 8}, {3, 'r', 32}) X(crypto_stream_chacha20_xor, {0, 'w', L(2)}, {1, 'r', L(2)}, {3, 'r', 8}, {4, 'r', 32}) \
    X(crypto_stream_chacha20_xor_ic, {0, 'w', L(2)}, {1, 'r', L(2)}, {3, 'r', 8}, {5, 'r', 32}) \
    X(crypto_stream_chacha20_ietf, {0, 'w', L(1)}, {2, 'r', 12}, {3, 'r', 32}) X(crypto_stream_chacha20_ietf_xor_ic, {0, 'w', L(2)}, {1, 'r', L(2)}, {3, 'r', 12}, {5, 'r', 32}) \
    X(crypto_core_ed25519_add, {0, 'w', 32}, {1, 'r', 32}, {2, 'r', 32}) X(crypto_core_ed25519_sub, {0, 'w', 32}, {1, 'r', 32}, {2, 'r', 32}) \
    X(crypto_core_ed25519_is_valid_point, {0, 'r', 32}) X(crypto_core_ed25519_from_uniform, {0, 'w', 32}, {1, 'r', 32}) \
    X(crypto_aead_chacha20poly1305_ietf_encrypt, {0, 'w', L(3)}, {1, 'w', 8}, {2, 'r', L(3)}, {4, 'r', L(5)}, {7, 'r', 12}, {8, 'r', 32}) \
    X(crypto_aead_chacha20poly1305_ietf_decrypt, {0, 'w', 1}, {1, 'w', 8}, {3, 'r', L(4)}, {5, 'r', L(6)}, {7, 'r', 12}, {8, 'r', 32}) \
    X(sodium_mlock, {-1, 0, 0}) X(sodium_munlock, {-1, 0, 0}) X(sodium_increment, {0, 'w', L(1)})
static const Fun funs[] = {
#define X(n, ...) {#n, {__VA_ARGS__, {-1, 0, 0}}},
    SODIUM(X)
#undef X
};
// called by the trampolines: r[0..5] = rdi, rsi, rdx, rcx, r8, r9; stack words follow at `stack`
__attribute__((used)) void mc_sodium_call(uint64_t id, uint64_t* r, uint64_t* stack, void* pc)
{
    if (!on || me < 0) return;
    point();
    const Fun& f = funs[id];
    for (int i = 0; i < 8 && f.a[i].ptr >= 0; i++) {
        const Arg& a = f.a[i];
        auto arg = [&](int k) { return k < 6 ? r[k] : stack[k - 6]; };
        uint64_t p = arg(a.ptr), n = a.len >= 0 ? (uint64_t)a.len : arg(-1 - a.len);
        if (!p) continue;
        // a change of protection concerns the whole page: it is a write to a word that stands for it
        if (a.rw == 'p') touch(page_word(p), 8, true, pc);
        else touch(p, n > (1 << 24) ? 1 << 24 : n, a.rw == 'w', pc);
    }
}
}
#define X(n, ...) ".globl __wrap_" #n "\n.type __wrap_" #n ",@function\n__wrap_" #n ":\n" \
    "push %rbp\nmov %rsp,%rbp\nsub $48,%rsp\nmov %rdi,0(%rsp)\nmov %rsi,8(%rsp)\nmov %rdx,16(%rsp)\nmov %rcx,24(%rsp)\nmov %r8,32(%rsp)\nmov %r9,40(%rsp)\n" \
    "mov %rsp,%rsi\nlea 16(%rbp),%rdx\nmov 8(%rbp),%rcx\nmov $mc_n,%edi\ncall mc_sodium_call@PLT\n" \
    "mov 0(%rsp),%rdi\nmov 8(%rsp),%rsi\nmov 16(%rsp),%rdx\nmov 24(%rsp),%rcx\nmov 32(%rsp),%r8\nmov 40(%rsp),%r9\nleave\njmp __real_" #n "@PLT\n.set mc_n, mc_n+1\n"
asm(".text\n.set mc_n, 0\n" SODIUM(X));
#undef X
