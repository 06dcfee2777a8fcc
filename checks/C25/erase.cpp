// C25: no heap block is released while it still contains a piece of a secret. Every operation is executed twice with the same random
// answers: once to learn the secrets that pass through the locked memory (all keys, contexts and serialised objects), once to search every
// released block for them; then again with each of its allocations failing.
#define MC_MAIN
#define MC_ALLOCFAIL
#define MC_SODMEM
#include "allocfail.hpp"
#include "sodmem.hpp"
#include "ops.hpp"
#include "objects.hpp"
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
using namespace mc;
using namespace mc::ops;

// The pieces of 8 bytes looked for, in memory of their own
struct Pieces
{
    enum { N = 1 << 18 };
    static constexpr size_t K = 8;
    struct E { uint8_t b[K]; uint32_t gen; };
    E* t = (E*)mmap(nullptr, sizeof(E) * N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uint8_t* head = (uint8_t*)mmap(nullptr, 65536 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uint32_t gen = 1;
    size_t count = 0;
    void clear() { gen++; count = 0; memset(head, 0, 65536); }
    static uint64_t h(const uint8_t* b) { uint64_t x; memcpy(&x, b, 8); return mix(x * 31); }
    static bool dull(const uint8_t* b)
    {
        int distinct = 0;
        for (int i = 0; i < (int)K; i++) { bool seen = false; for (int j = 0; j < i; j++) seen |= b[i] == b[j]; distinct += !seen; }
        return distinct < 6;
    }
    void add(const uint8_t* b)
    {
        if (dull(b) || count > N / 2) return;
        for (uint64_t i = h(b);; i++) {
            E& e = t[i % N];
            if (e.gen == gen) { if (!memcmp(e.b, b, K)) return; continue; }
            memcpy(e.b, b, K); e.gen = gen; count++;
            head[b[0] | b[1] << 8] = 1;
            return;
        }
    }
    bool has(const uint8_t* b) const
    {
        if (!head[b[0] | b[1] << 8]) return false;
        for (uint64_t i = h(b);; i++) {
            const E& e = t[i % N];
            if (e.gen != gen) return false;
            if (!memcmp(e.b, b, K)) return true;
        }
    }
    void add_all(const uint8_t* p, size_t n, size_t step = 1) { for (size_t i = 0; i + K <= n; i += step) add(p + i); if (n >= K) add(p + n - K); }
    long find(const uint8_t* p, size_t n) const { for (size_t i = 0; i + K <= n; i++) if (has(p + i)) return (long)i; return -1; }
};
static Pieces secret, open_;  // secrets; what is public anyway
static bool learning, watching, fixed;
static size_t found_size, scanned; static long found_at; static bool found; static uint8_t found_piece[Pieces::K];

static void learn(const uint8_t* b, size_t n)
{
    secret.add_all(b, n);
    if (n <= 4096) { // keys enter HMAC masked
        uint8_t m[4096];
        for (uint8_t x : {(uint8_t)0x36, (uint8_t)0x5c}) { for (size_t i = 0; i < n; i++) m[i] = b[i] ^ x; secret.add_all(m, n); }
        sodium_memzero(m, sizeof m);
    }
}
static void learn_block(uintptr_t p, size_t n)
{
    uint8_t b[9000];
    if (n > sizeof b) n = sizeof b;
    if (pread(sodmem::memfd(), b, n, (off_t)p) == (ssize_t)n) learn(b, n);
    sodium_memzero(b, sizeof b);
}
static void on_free(uintptr_t p, size_t n) { if (learning) learn_block(p, n); }
static void released(void* p, size_t n)
{
    if (!watching || found) return;
    scanned++;
    const uint8_t* q = (const uint8_t*)p;
    for (size_t i = 0; i + Pieces::K <= n; i++)
        if (secret.has(q + i) && !open_.has(q + i)) { found = true; found_size = n; found_at = (long)i; memcpy(found_piece, q + i, Pieces::K); return; }
}
// RSA secrets: the numbers as stored in memory and as written in encodings, and the text
static std::string PRIV[8], PUB[8];
static void learn_rsa(int k)
{
    const std::string& s = PRIV[k];
    // the text begins with the public part: 273 bytes, 370 characters
    secret.add_all((const uint8_t*)s.data() + 35 + 376, s.size() - 35 - 376 - 32, 1);
    open_.add_all((const uint8_t*)s.data(), 35 + 368, 1); open_.add_all((const uint8_t*)s.data() + s.size() - 32, 32, 1);
    mbedtls_rsa_context r; mbedtls_rsa_init(&r, 0, 0);
    mbedtls_rsa_parse_key(&r, (const unsigned char*)s.c_str(), s.size() + 1, nullptr, 0);
    for (mbedtls_mpi* m : {&r.P, &r.Q, &r.D, &r.DP, &r.DQ, &r.QP}) {
        uint8_t b[512];
        size_t n = mbedtls_mpi_size(m);
        mbedtls_mpi_write_binary(m, b, n);
        secret.add_all(b, n, 1);
        secret.add_all((const uint8_t*)m->p, m->n * sizeof(*m->p));
        sodium_memzero(b, sizeof b);
    }
    // what is public: the modulus and the exponent
    uint8_t b[512]; size_t n = mbedtls_mpi_size(&r.N);
    mbedtls_mpi_write_binary(&r.N, b, n); open_.add_all(b, n, 1);
    open_.add_all((const uint8_t*)r.N.p, r.N.n * sizeof(*r.N.p), 1);
    mbedtls_rsa_free(&r);
}
static void learn_live() { for (auto& e : sodmem::live()) learn_block(e.first, e.second.size); }

// The caller's own objects are kept alive
static std::string kept[8];
typedef std::string (*Body)(World&);
struct Extra { const char* name; int needs; Body f; };
// all objects of the world, and the operation
static void once(const std::string& name, Body f, int needs, uint64_t n, bool on, bool watch)
{
    found = false;
    for (auto& k : kept) sodium_memzero(&k[0], k.size());
    {
        World W(1, needs); // (the harness' own copy of a private key's text is released here)
        watching = watch;
        if (learning) { learn_live(); if (needs & World::TDP) learn_rsa(W.rsa); }
        Rng::get().reset(fnv(name));
        alloc::arm(n, on ? UINT64_MAX : n);
        try {
            std::string s = f(W);
            alloc::disarm();
            watching = false;
            if (learning) open_.add_all((const uint8_t*)s.data(), s.size(), 1);
        } catch (...) { alloc::disarm(); }
        watching = watch;
        if (learning) learn_live();
    }
    watching = false;
}
static void examine(Ctx& ctx, const std::string& name, Body f, int needs, bool fail)
{
    secret.clear(); open_.clear();
    learning = true; once(name, f, needs, 0, false, false); learning = false;
    ctx.count("secret_pieces", secret.count);
    once(name, f, needs, 0, false, true);
    uint64_t total = alloc::st().count;
    ctx.check(!found, "%s: a released block of %zu bytes contains a piece of a secret at %ld: %s", name.c_str(), found_size, found_at, hex(found_piece, Pieces::K).c_str());
    ctx.step(); ctx.outcome(fnv(name));
    if (!fail) return;
    for (uint64_t n : alloc::ordinals(total)) for (bool on : {false, true}) {
        if (ctx.failures) return;
        once(name, f, needs, n, on, true);
        ctx.check(!found, "%s with allocation %llu%s failing: a released block of %zu bytes contains a piece of a secret at %ld: %s", name.c_str(), (unsigned long long)n, on ? " and all later" : "", found_size, found_at, hex(found_piece, Pieces::K).c_str());
        ctx.step(); ctx.outcome(fnv(name) + 2 * n + on); ctx.tick();
    }
}
static std::string digest(std::string& s) { uint64_t h = fnv(s); sodium_memzero(&s[0], s.size()); return std::to_string(h); }
static const std::vector<Extra>& extras()
{
    static std::vector<Extra>* v = nullptr;
    if (v) return *v;
    v = new std::vector<Extra>;
#define X(name, needs, ...) v->push_back({name, World::needs, [](World& W) -> std::string { __VA_ARGS__ }})
    X("leaf.destroy", RC, auto k = W.rc->constrain(5, 5); auto a = k.eval(5); if (learning) learn(a.data(), 16); return "";);
    X("leaf.wrap", RC, auto k = W.rc->constrain(3, 8); auto a = k.eval(3); auto b = k.eval(8); if (learning) { learn(a.data(), 16); learn(b.data(), 16); } auto r = W.w->wrap(k); auto l = W.w->unwrap<ConstrainedRCPrf<16>>(r); auto m(std::move(l)); return "";);
    X("leaf.again", RC, auto k = W.rc->constrain(1, 12); auto l = k.constrain(1, 5); auto a = l.eval(1); if (learning) { learn(a.data(), 16); } l = W.rc->constrain(2, 3); return "";);
    X("leaf.refused", RC, auto k = W.rc->constrain(3, 8); auto a = k.eval(3); auto b = k.eval(8); if (learning) { learn(a.data(), 16); learn(b.data(), 16); } auto r = W.w->wrap(k); try { W.w->unwrap<ConstrainedRCPrf<17>>(r); } catch (...) {} return "";);
    X("leaf.large", RC, auto k = W.rc2->constrain(5, 5); auto a = k.eval(5); if (learning) learn(a.data(), a.size()); auto m(std::move(k)); return "";);
    X("leaf.large.wrap", RC, auto k = W.rc2->constrain(3, 6); auto a = k.eval(3); auto b = k.eval(6); if (learning) { learn(a.data(), a.size()); learn(b.data(), b.size()); } auto r = W.w->wrap(k); auto l = W.w->unwrap<ConstrainedRCPrf<70>>(r); return "";);
    X("prg.string", SYM, W.g->derive(100, kept[0]); if (learning) learn((const uint8_t*)kept[0].data(), 100); return "";);
    X("prg.string.offset", SYM, W.g->derive(37, 100, kept[1]); if (learning) learn((const uint8_t*)kept[1].data(), 100); return "";);
    X("prg.static.string", SYM, Prg::derive(skey<32>(8), 100, kept[2]); Prg::derive(skey<32>(9), 37, 100, kept[3]); if (learning) { learn((const uint8_t*)kept[2].data(), 100); learn((const uint8_t*)kept[3].data(), 100); } return "";);
    X("cipher.decrypt", SYM, static std::string in = mc::bytes(300, 9); if (learning) learn((const uint8_t*)in.data(), 300); static std::string ct; W.c->encrypt(in, ct); W.c->decrypt(ct, kept[4]); return "";);
    X("prp.both", SYM, static std::string in = mc::bytes(300, 10); if (learning) learn((const uint8_t*)in.data(), 300); static std::string ct; W.pp->encrypt(in, ct); W.pp->decrypt(ct, kept[5]); return "";);
    X("hmac.input", SYM, static std::string in = mc::bytes(300, 11); if (learning) secret.add_all((const uint8_t*)in.data(), 300); W.hb->hmac(in); W.hs->hmac(in); W.p32->prf(in); W.p100->prf(in); return "";);
    X("tdpi.export", TDP, std::string s = W.ti->private_key(); return digest(s););
    X("tdpi.import", TDP, TdpInverse d(PRIV[W.rsa]); return d.invert(msg256(2)););
    X("tdpi.import.other", TDP, if (learning) learn_rsa(3); TdpInverse d(PRIV[3]); return d.invert_mult(msg256(2), 3););
    X("tdpi.import.damaged", TDP, static std::string s = PRIV[W.rsa]; s[s.size() / 2] = '*'; try { TdpInverse d(s); } catch (...) {} return "";);
    X("tdpi.import.cut", TDP, static std::string s = PRIV[W.rsa]; size_t e = s.find("-----END"); s.erase(e - 70, 60); try { TdpInverse d(s); } catch (...) {} return "";);
    X("tdpi.invert.both", TDP, return W.ti->invert(msg256(2)) + W.ti->invert(msg256(3)) + W.ti->invert_mult(msg256(4), 7););
    X("tdpi.wrap.twice", TDP, auto r = W.w->wrap(*W.ti); auto d = W.w->unwrap<TdpInverse>(r); auto q = W.w->wrap(d); auto e = W.w->unwrap<TdpInverse>(q); return std::string(q.begin(), q.end()) + std::string(r.begin(), r.end()););
#undef X
    return *v;
}
// A then B on the same objects
static Body pair_a, pair_b;
static std::string pair_body(World& W)
{
    std::string a;
    try { a = pair_a(W); } catch (std::exception&) { }
    return a + pair_b(W);
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    alloc::st().released = released;
    sodmem::on_free() = on_free;
    Rng::get().seen = [](const uint8_t* p, size_t n) { if (learning && n <= 16) open_.add_all(p, n, 1); }; // nonces (no operation draws so short a key)
    for (int k = 0; k < 4; k++) { PRIV[k] = RSA_KEYS[k].priv; PUB[k] = RSA_KEYS[k].pub; }
    bool T = ctx.thorough;
    for (size_t i = 0; i < all().size(); i++) {
        const Op& op = all()[i];
        if (op.name == "tdpi.private_key" || op.name == "tdpi.import" || op.name == "tdpi.import.bad") continue; // the harness would hold the text itself; see extras
        CASE("%s", op.name.c_str()) { examine(ctx, op.name, op.f, op.needs, true); };
    }
    for (auto& x : extras()) CASE("%s", x.name) { examine(ctx, x.name, x.f, x.needs, true); };
    if (T) for (const Op& a : all()) for (const Op& b : all()) {
        if ((a.needs & b.needs) == 0 || a.name == "tdpi.private_key" || a.name.find("tdpi.import") == 0 || b.name == "tdpi.private_key" || b.name.find("tdpi.import") == 0) continue;
        CASE("%s then %s", a.name.c_str(), b.name.c_str()) { pair_a = a.f; pair_b = b.f; examine(ctx, a.name + " then " + b.name, pair_body, a.needs | b.needs, false); };
    }
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
