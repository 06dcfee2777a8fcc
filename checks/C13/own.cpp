// C13: every key has exactly one owner: buffers are wiped, moved-from keys and objects are empty and refuse to work, memory is freed once.
#define MC_MAIN
#define MC_SODMEM
#include "sodmem.hpp"
#include "objects.hpp"
#include "ops.hpp"
#include <new>
#include <set>
using namespace mc;
using namespace mc::objects;

// a slot holding an object or nothing
template<class T> struct Slot
{
    alignas(T) unsigned char mem[sizeof(T)]; bool has = false;
    T& get() { return *std::launder(reinterpret_cast<T*>(mem)); }
    template<class... A> void make(A&&... a) { drop(); new (mem) T(std::forward<A>(a)...); has = true; }
    void drop() { if (has) { get().~T(); has = false; memset(mem, 0xDD, sizeof mem); } }
    ~Slot() { drop(); }
    Slot() { memset(mem, 0xDD, sizeof mem); }
};
// ---- keys -----------------------------------------------------------------------------------------------------------------------
// model of one slot: -2 destroyed, -1 empty (moved-from or erased), >= 0 the key's name
template<size_t N> struct Keys
{
    static const int S = 3;
    Slot<Key<N>> s[S]; int m[S] = {-2, -2, -2}; int next = 0;
    static std::string content(int name) { return name >= 1000 ? rnd(name) : mc::bytes(N, 31 * name + N); }
    static std::string rnd(int name) { Rng r; r.reset(name); std::string x(N, 0); r.bytes(u8(x), N); return x; }
    static int nops(int slots) { return slots * 6 + slots * slots * 2 + slots * (slots - 1) / 2; }
    // returns false if the operation does not apply
    bool apply(Ctx& ctx, int slots, int op)
    {
        int k = op / slots, i = op % slots;
        if (k < 6) {
            switch (k) {
            case 0: { // from a buffer
                int name = next++;
                std::string b = "GUARD" + content(name) + "GUARD";
                s[i].make(u8(b) + 5); m[i] = name;
                ctx.check(b == "GUARD" + std::string(N, 0) + "GUARD", "the caller's buffer was not wiped exactly");
                return true;
            }
            case 1: { int name = 1000 + next++; Rng::get().reset(name); s[i].make(); m[i] = name; return true; }
            case 2: if (m[i] == -2) return false; s[i].get().erase(); m[i] = -1; return true;
            case 3: if (m[i] == -2) return false; s[i].drop(); m[i] = -2; return true;
            case 4: { // refused construction changes nothing
                const char* t = thrown([&] { Key<N> x((uint8_t*)nullptr); });
                ctx.check(!strcmp(t, "invalid_argument"), "null buffer: %s", t);
                return true;
            }
            case 5: { // through a vector, which reallocates
                if (m[i] == -2) return false;
                std::vector<Key<N>> v; v.push_back(std::move(s[i].get()));
                for (int q = 0; q < 3; q++) v.push_back(ops::skey<N>(q));
                s[i].get() = std::move(v[0]);
                return true;
            }
            }
        }
        op -= 6 * slots;
        int a = op / slots, b = op % slots;
        if (a < slots) { // move construction of b into a
            if (a == b || m[b] == -2) return false;
            s[a].make(std::move(s[b].get()));
            m[a] = m[b]; m[b] = -1;
            return true;
        }
        op -= slots * slots; a = op / slots; b = op % slots;
        if (a < slots) { // assignment (to itself too)
            if (m[a] == -2 || m[b] == -2) return false;
            Key<N>& r = (s[a].get() = std::move(s[b].get()));
            ctx.check(&r == &s[a].get(), "assignment does not return its left side");
            if (a != b) { m[a] = m[b]; m[b] = -1; }
            return true;
        }
        op -= slots * slots; // swaps
        static const int A[] = {0, 0, 1}, B[] = {1, 2, 2};
        a = A[op]; b = B[op];
        if (m[a] == -2 || m[b] == -2) return false;
        std::swap(s[a].get(), s[b].get()); std::swap(m[a], m[b]);
        return true;
    }
    void check(Ctx& ctx, size_t base, const char* after)
    {
        std::set<std::string> want;
        size_t n = 0;
        for (int i = 0; i < S; i++) {
            if (m[i] == -2) continue;
            if (m[i] == -1) {
                const char* t = thrown([&] { key_bytes(s[i].get()); });
                ctx.check(!strcmp(t, "runtime_error"), "after %s: empty key %d: %s", after, i, t);
            } else {
                n++;
                same(ctx, key_bytes(s[i].get()), content(m[i]), "content of a key");
            }
        }
        ctx.check(sodmem::live().size() == base + n, "after %s: %zu blocks of key memory for %zu keys", after, sodmem::live().size() - base, n);
        ctx.check(sodmem::bad_frees() == 0, "after %s: freed twice", after);
    }
    uint64_t shape() const { uint64_t h = N; for (int i = 0; i < S; i++) h = h * 7 + (m[i] >= 0 ? 2 : m[i] + 2); return h; }
    static void run(Ctx& ctx, int slots, const std::vector<int>& seq)
    {
        size_t base = sodmem::live().size();
        {
            Keys<N> w;
            for (int op : seq) {
                if (!w.apply(ctx, slots, op)) return;
                ctx.step();
                w.check(ctx, base, join(seq).c_str());
                ctx.state(w.shape());
                if (ctx.failures) return;
            }
        }
        ctx.check(sodmem::live().size() == base && sodmem::bad_frees() == 0, "key memory left, or freed twice, after %s", join(seq).c_str());
    }
    static void explore(Ctx& ctx, int d2, int d3)
    {
        for (int slots : {2, 3}) {
            int n = nops(slots);
            // one case per first two operations
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
                CASE("key<%zu> %d slots, histories starting with %d.%d", N, slots, a, b) {
                    sequences(n, 0, (slots == 2 ? d2 : d3) - 2, [&](const std::vector<int>& t) {
                        if (ctx.failures) return;
                        std::vector<int> v = {a, b}; v.insert(v.end(), t.begin(), t.end());
                        run(ctx, slots, v); ctx.tick();
                    });
                };
        }
    }
};
// ---- objects --------------------------------------------------------------------------------------------------------------------
template<class K, class = void> struct Assignable : std::false_type {};
template<class K> struct Assignable<K, std::enable_if_t<std::is_move_assignable<typename K::C>::value>> : std::true_type {};
template<class T> static auto assign(T& a, T&& b, int) -> decltype(a = std::move(b), void()) { a = std::move(b); }
template<class T> static void assign(T&, T&&, long) {}

struct KHmac
{
    typedef HMac<Hash, 40> C;
    static const char* name() { return "HMac"; }
    static int variants() { return 8; }
    static C make(int v) { return HMac<Hash, 40>(mk<40>(v)); }
    static std::string behaviour(C& c, int) { return str(c.hmac("abc")); }
    static std::string expected(int v) { return ref::hmac_blake2b(key_content(40, v), "abc"); }
};
struct KWrapper
{
    typedef Wrapper C;
    static const char* name() { return "Wrapper"; }
    static int variants() { return 8; }
    static C make(int v) { return Wrapper(mk<32>(v)); }
    static std::string behaviour(C& c, int v)
    {
        Rng::get().reset(700 + v);
        Prg g(mk<32>(9));
        std::string o = refwrap::tostr(c.wrap(g));
        auto r = refwrap::tovec(refwrap::wrap(key_content(32, v), mc::bytes(16, 3), 3, "", key_content(32, 10)));
        return o + c.unwrap<Prg>(r).derive(9);
    }
    static std::string expected(int v)
    {
        Rng r; r.reset(700 + v);
        std::string nonce(16, 0); r.bytes(u8(nonce), 16);
        return refwrap::wrap(key_content(32, v), nonce, 3, "", key_content(32, 9)) + ref::keystream(key_content(32, 10), 0, 9);
    }
};
template<class K> struct Objects
{
    typedef typename K::C T;
    static const bool assignable = Assignable<K>::value;
    static const int S = 2;
    Slot<T> s[S]; int m[S] = {-2, -2};
    // ops: make variant 1 or 3 in a slot (4), destroy (2), use (2), move-construct (2), assign incl. self (4), through a function returning it (2)
    static int nops() { return 16; }
    bool apply(int op)
    {
        if (op < 4) { int i = op & 1, v = op & 2 ? 3 : 1; s[i].drop(); new (s[i].mem) T(K::make(v)); s[i].has = true; m[i] = v; return true; }
        op -= 4;
        if (op < 2) { if (m[op] == -2) return false; s[op].drop(); m[op] = -2; return true; }
        op -= 2;
        if (op < 2) { if (m[op] < 0) return false; K::behaviour(s[op].get(), m[op]); return true; }
        op -= 2;
        if (op < 2) { int a = op, b = 1 - op; if (m[b] == -2) return false; s[a].drop(); new (s[a].mem) T(std::move(s[b].get())); s[a].has = true; m[a] = m[b]; m[b] = -1; return true; }
        op -= 2;
        if (op < 4) {
            int a = op & 1, b = op >> 1;
            if (!assignable || m[a] == -2 || m[b] == -2) return false;
            if (a == b && self_breaks) return false;
            assign(s[a].get(), std::move(s[b].get()), 0);
            if (a != b) { m[a] = m[b]; m[b] = -1; }
            return true;
        }
        op -= 4;
        { if (m[op] == -2) return false; std::vector<T> v; v.reserve(1); v.push_back(std::move(s[op].get())); s[op].drop(); new (s[op].mem) T(std::move(v[0])); s[op].has = true; return true; }
    }
    // assigning a standard container to itself leaves it in an unspecified state
    static const bool self_breaks = std::is_same<T, ConstrainedRCPrf<16>>::value || std::is_same<T, ConstrainedRCPrf<40>>::value;
    void check(Ctx& ctx, const std::vector<size_t>& blocks, size_t base, const char* after)
    {
        size_t n = 0;
        for (int i = 0; i < S; i++) {
            if (m[i] == -2) continue;
            if (m[i] == -1) {
                const char* t = thrown([&] { K::behaviour(s[i].get(), 1); });
                ctx.check(strcmp(t, "none") && strcmp(t, "unknown"), "after %s: a moved-from %s still works", after, K::name());
            } else {
                same(ctx, K::behaviour(s[i].get(), m[i]), K::expected(m[i]), "behaviour");
                n += blocks[m[i]];
            }
        }
        ctx.check(sodmem::live().size() == base + n, "after %s: %zu blocks of key memory, expected %zu", after, sodmem::live().size() - base, n);
        ctx.check(sodmem::bad_frees() == 0, "after %s: freed twice", after);
    }
    static void run(Ctx& ctx, const std::vector<int>& seq, const std::vector<size_t>& blocks)
    {
        size_t base = sodmem::live().size();
        {
            Objects<K> w;
            for (int op : seq) {
                if (!w.apply(op)) return;
                ctx.step();
                w.check(ctx, blocks, base, join(seq).c_str());
                uint64_t h = fnv(K::name());
                for (int i = 0; i < S; i++) h = h * 11 + w.m[i] + 3;
                ctx.state(h);
                if (ctx.failures) return;
            }
        }
        ctx.check(sodmem::live().size() == base, "key memory left after %s", join(seq).c_str());
    }
    static void explore(Ctx& ctx, int depth)
    {
        std::vector<size_t> blocks(16, 0);
        for (int v : {1, 3}) { size_t b = sodmem::live().size(); T o(K::make(v)); blocks[v] = sodmem::live().size() - b; }
        for (int a = 0; a < nops(); a++) for (int b = 0; b < nops(); b++)
            CASE("%s histories starting with %d.%d", K::name(), a, b) {
                sequences(nops(), 0, depth - 2, [&](const std::vector<int>& t) {
                    if (ctx.failures) return;
                    std::vector<int> v = {a, b}; v.insert(v.end(), t.begin(), t.end());
                    run(ctx, v, blocks); ctx.tick();
                });
            };
    }
};
// ---- consumption ----------------------------------------------------------------------------------------------------------------
template<size_t N, class F> void consumes(Ctx& ctx, const char* what, F f)
{
    CASE("consumes: %s", what) {
        for (int kw = 0; kw < 6; kw++) {
            size_t base = sodmem::live().size();
            {
                Key<N> k = mk<N>(kw);
                f(std::move(k));
                const char* t = thrown([&] { key_bytes(k); });
                ctx.check(!strcmp(t, "runtime_error"), "the key given to %s can still be used", what);
                ctx.check(sodmem::live().size() == base, "%s keeps %zu blocks of key memory", what, sodmem::live().size() - base);
                // the emptied key can be given new content
                k = mk<N>(3);
                same(ctx, key_bytes(k), key_content(N, 3), "reused key");
            }
            ctx.check(sodmem::live().size() == base && sodmem::bad_frees() == 0, "memory after %s", what);
            ctx.step();
        }
    };
}
template<size_t N, class F> void refuses_empty(Ctx& ctx, const char* what, F f)
{
    CASE("empty key: %s", what) {
        size_t base = sodmem::live().size();
        {
            Key<N> k = mk<N>(0), l(std::move(k));
            const char* t = thrown([&] { f(std::move(k)); });
            ctx.check(strcmp(t, "none") && strcmp(t, "unknown"), "%s works with an empty key", what);
            same(ctx, key_bytes(l), key_content(N, 0), "the key's new owner");
            ctx.step();
        }
        ctx.check(sodmem::live().size() == base && sodmem::bad_frees() == 0, "memory after %s", what);
    };
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    bool T = ctx.thorough;
    KTdpi::expected(0);
    Keys<32>::explore(ctx, T ? 6 : 5, T ? 5 : 4);
    Keys<1>::explore(ctx, 4, 3); Keys<17>::explore(ctx, 4, 3); Keys<48>::explore(ctx, 4, 3); Keys<112>::explore(ctx, 4, 3); Keys<4096>::explore(ctx, 4, 3);
    Objects<KCipher>::explore(ctx, T ? 6 : 5); Objects<KPrg>::explore(ctx, T ? 6 : 5); Objects<KPrp>::explore(ctx, T ? 6 : 5);
    Objects<KPrf<32>>::explore(ctx, T ? 5 : 4); Objects<KPrf<100>>::explore(ctx, T ? 5 : 4); Objects<KHmac>::explore(ctx, T ? 5 : 4); Objects<KWrapper>::explore(ctx, T ? 5 : 4);
    Objects<KRc<16>>::explore(ctx, T ? 5 : 4); Objects<KCrc<16>>::explore(ctx, T ? 5 : 4); Objects<KCrc<40>>::explore(ctx, 4);

    auto with32 = [&](auto go) {
        static Prf<264> prf(mk<32>(1));
        go("Cipher", [](Key<32>&& k) { Cipher c(std::move(k)); std::string o; c.encrypt("x", o); });
        go("Prf", [](Key<32>&& k) { Prf<20> c(std::move(k)); c.prf("x"); });
        go("Prf<100>", [](Key<32>&& k) { Prf<100> c(std::move(k)); c.prf("x"); });
        go("HMac", [](Key<32>&& k) { HMac<Hash, 32> c(std::move(k)); c.hmac("x"); });
        go("HMac sha512", [](Key<32>&& k) { HMac<hash::sha512, 32> c(std::move(k)); c.hmac("x"); });
        go("Prg", [](Key<32>&& k) { Prg c(std::move(k)); c.derive(10); });
        go("Prg keys", [](Key<32>&& k) { Prg c(std::move(k)); c.derive_keys<32>(2); });
        go("RCPrf", [](Key<32>&& k) { RCPrf<16> c(std::move(k), 5); c.eval(3); });
        go("RCPrf range", [](Key<32>&& k) { RCPrf<16> c(std::move(k), 5); c.eval_range(3, 9, [](uint64_t, const std::array<uint8_t, 16>&) {}); });
        go("RCPrf constrain", [](Key<32>&& k) { RCPrf<16> c(std::move(k), 5); c.constrain(3, 9); });
        go("inner element", [](Key<32>&& k) { ConstrainedRCPrfInnerElement<16> c(std::move(k), 6, 3, 8, 11); c.eval(9); });
        go("Wrapper", [](Key<32>&& k) { Wrapper c(std::move(k)); Prg g(mk<32>(3)); c.wrap(g); });
        go("Prg::derive string", [](Key<32>&& k) { std::string o; Prg::derive(std::move(k), 9, o); });
        go("Prg::derive offset string", [](Key<32>&& k) { std::string o; Prg::derive(std::move(k), 3, 9, o); });
        go("Prg::derive pointer", [](Key<32>&& k) { uint8_t o[9]; Prg::derive(std::move(k), 3, 9, o); });
        go("Prg::derive array", [](Key<32>&& k) { std::array<uint8_t, 9> o; Prg::derive(std::move(k), 3, o); });
        go("Prg::derive returning", [](Key<32>&& k) { Prg::derive(std::move(k), 9); });
        go("Prg::derive offset returning", [](Key<32>&& k) { Prg::derive(std::move(k), 70, 9); });
        go("Prg::derive_key", [](Key<32>&& k) { Prg::derive_key<32>(std::move(k), 1); });
        go("Prg::derive_key<20>", [](Key<32>&& k) { Prg::derive_key<20>(std::move(k), 1); });
        go("Prg::derive_keys", [](Key<32>&& k) { Prg::derive_keys<32>(std::move(k), 3); });
        go("Prg::derive_keys<20>", [](Key<32>&& k) { Prg::derive_keys<20>(std::move(k), 3, 1); });
        go("Tdp::generate", [](Key<32>&& k) { static Tdp t(RSA_KEYS[0].pub); t.generate(std::move(k), "s"); });
        go("Tdp::generate_array", [](Key<32>&& k) { static Tdp t(RSA_KEYS[0].pub); t.generate_array(std::move(k), "s"); });
        go("TdpInverse::generate", [](Key<32>&& k) { static TdpInverse t(RSA_KEYS[0].priv); t.generate(std::move(k), "s"); });
        go("TdpInverse::generate_array", [](Key<32>&& k) { static TdpInverse t(RSA_KEYS[0].priv); t.generate_array(std::move(k), "s"); });
        go("TdpMultPool::generate", [](Key<32>&& k) { static TdpMultPool t(RSA_KEYS[0].pub, 2); t.generate(std::move(k), "s"); });
        go("TdpMultPool::generate_array", [](Key<32>&& k) { static TdpMultPool t(RSA_KEYS[0].pub, 2); t.generate_array(std::move(k), "s"); });
    };
    with32([&](const char* what, auto f) { consumes<32>(ctx, what, f); refuses_empty<32>(ctx, what, f); });
    auto prp = [](Key<48>&& k) { Prp p(std::move(k)); p.encrypt(std::string("x")); };
    consumes<48>(ctx, "Prp", prp); refuses_empty<48>(ctx, "Prp", prp);
    consumes<32>(ctx, "a refused RCPrf", [](Key<32>&& k) { thrown([&] { RCPrf<16> c(std::move(k), 65); }); Key<32> x(std::move(k)); });
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
