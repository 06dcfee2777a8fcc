// C18: big-number arithmetic against GMP: all operands over an alphabet of boundary limbs, all signs, paddings, destinations and aliasings.
#define MC_MAIN
#include "mc.hpp"
#include "fenced.hpp"
#include <gmpxx.h>
extern "C" {
#include "mbedtls/bignum.h"
}
using namespace mc;
#define CK(c, ...) (ctx.checks++, (c) ? true : (ctx.fail(__VA_ARGS__), false)) // the message is only built on failure
typedef uint64_t L;
typedef std::vector<L> Mag;

// A number with a chosen representation: limbs (low first), sign, extra zero limbs on top; `pad` = -1 gives the freshly initialised (limbless) number
struct Num
{
    mbedtls_mpi m;
    Num() { mbedtls_mpi_init(&m); }
    Num(const Mag& v, int s, int pad = 0) { mbedtls_mpi_init(&m); set(v, s, pad); }
    Num(const Num& o) { mbedtls_mpi_init(&m); *this = o; }
    Num& operator=(const Num& o)
    {
        mbedtls_mpi_free(&m);
        if (o.m.n) { mbedtls_mpi_grow(&m, o.m.n); memcpy(m.p, o.m.p, 8 * o.m.n); }
        m.s = o.m.s;
        return *this;
    }
    ~Num() { mbedtls_mpi_free(&m); }
    void set(const Mag& v, int s, int pad)
    {
        size_t n = v.size() + pad;
        if (n) { mbedtls_mpi_grow(&m, n); memset(m.p, 0, 8 * n); for (size_t i = 0; i < v.size(); i++) m.p[i] = v[i]; }
        m.s = s;
    }
    bool same(const Num& o) const { return m.n == o.m.n && m.s == o.m.s && (m.n == 0 || memcmp(m.p, o.m.p, 8 * m.n) == 0); }
};
static mpz_class z(const mbedtls_mpi& m)
{
    mpz_class r;
    if (m.n) mpz_import(r.get_mpz_t(), m.n, -1, 8, 0, 0, m.p);
    if (m.s == -1) r = -r;
    return r;
}
static mpz_class z(const Num& n) { return z(n.m); }
// equality of value, without building a number
static bool eq(const mbedtls_mpi& m, const mpz_class& e)
{
    size_t n = m.n;
    while (n && m.p[n - 1] == 0) n--;
    if (n != mpz_size(e.get_mpz_t())) return false;
    if (n && memcmp(m.p, mpz_limbs_read(e.get_mpz_t()), 8 * n)) return false;
    if (m.s != 1 && m.s != -1) return false;
    return n == 0 || m.s == sgn(e);
}
static std::string s(const mpz_class& v) { return v.get_str(16); }
static std::string s(const Num& n) { return s(z(n)) + "[" + std::to_string(n.m.n) + "]"; }

static const L M = ~(L)0;
static const std::vector<L>& alphabet(int k)
{
    static const std::vector<L> all = {0, 1, M, (L)1 << 63, M << 32, 0x9e3779b97f4a7c15ULL, M - 1, M >> 1, M >> 32, 2, ((L)1 << 63) + 1, (L)1 << 32};
    static std::vector<L> r[13];
    if (r[k].empty()) r[k].assign(all.begin(), all.begin() + k);
    return r[k];
}
// all magnitudes with up to len limbs over the first k letters (top limb not zero), zero first
static std::vector<Mag> magnitudes(int len, int k, int min = 0)
{
    std::vector<Mag> v;
    sequences(k, min, len, [&](const std::vector<int>& q) {
        Mag m; for (int i : q) m.push_back(alphabet(k)[i]);
        if (!m.empty() && m.back() == 0) return;
        v.push_back(m);
    });
    return v;
}
static mpz_class zm(const Mag& m) { mpz_class r; if (m.size()) mpz_import(r.get_mpz_t(), m.size(), -1, 8, 0, 0, m.data()); return r; }
static Num stale() { return Num(Mag{M, M, 0x1234, M, 5, M, M, 7, M, 9, M}, -1); }

typedef int (*Op3)(mbedtls_mpi*, const mbedtls_mpi*, const mbedtls_mpi*);
static uint64_t tally = 0;
// X = f(A, B) for every destination; err is the expected return value
static bool three(Ctx& ctx, const char* name, Op3 f, const Num& A, const Num& B, const mpz_class& want, int err = 0)
{
    for (int d = 0; d < 5; d++) {
        Num a(A), b(B), x;
        if (d == 1) x = stale();
        mbedtls_mpi *X = &x.m, *PA = &a.m, *PB = &b.m;
        if (d == 2) X = PA;
        if (d == 3) X = PB;
        if (d == 4) { if (!A.same(B)) continue; PB = PA; X = PA; }
        int r = f(X, PA, PB);
        ctx.step(); tally++;
        if (!CK(r == err, "%s(%s, %s) destination %d returned %d, expected %d", name, s(A).c_str(), s(B).c_str(), d, r, err)) return false;
        if (err == 0 && !CK(eq(*X, want), "%s(%s, %s) destination %d gives %s, expected %s", name, s(A).c_str(), s(B).c_str(), d, s(z(*X)).c_str(), s(want).c_str())) return false;
        if (!CK((X == &a.m || a.same(A)) && (X == &b.m || b.same(B)), "%s(%s, %s) destination %d changed an operand", name, s(A).c_str(), s(B).c_str(), d)) return false;
    }
    return true;
}
static bool division(Ctx& ctx, const Num& A, const Num& B, const mpz_class& za, const mpz_class& zb)
{
    mpz_class q, r; int err = 0;
    if (zb == 0) err = MBEDTLS_ERR_MPI_DIVISION_BY_ZERO;
    else mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), za.get_mpz_t(), zb.get_mpz_t());
    // quotient and remainder go to: 0 nowhere, 1 a new number, 2 a number with an old value, 3 A, 4 B
    static const int dest[][2] = {{1, 1}, {1, 0}, {0, 1}, {2, 2}, {3, 1}, {4, 1}, {1, 3}, {1, 4}, {3, 4}, {4, 3}, {3, 0}, {4, 0}, {0, 3}, {0, 4}, {0, 0}};
    for (auto& d : dest) {
        Num a(A), b(B), x, y; mbedtls_mpi *P[5] = {nullptr, &x.m, &x.m, &a.m, &b.m}, *R[5] = {nullptr, &y.m, &y.m, &a.m, &b.m};
        if (d[0] == 2) { x = stale(); y = stale(); }
        int e = mbedtls_mpi_div_mpi(P[d[0]], R[d[1]], &a.m, &b.m);
        ctx.step(); tally++;
        if (!CK(e == err, "div(%s, %s) to %d,%d returned %d, expected %d", s(A).c_str(), s(B).c_str(), d[0], d[1], e, err)) return false;
        if (err) continue;
        if (!CK(!d[0] || eq(*P[d[0]], q), "div(%s, %s) to %d,%d: quotient %s, expected %s", s(A).c_str(), s(B).c_str(), d[0], d[1], s(z(*P[d[0]])).c_str(), s(q).c_str())) return false;
        if (!CK(!d[1] || eq(*R[d[1]], r), "div(%s, %s) to %d,%d: remainder %s, expected %s", s(A).c_str(), s(B).c_str(), d[0], d[1], s(z(*R[d[1]])).c_str(), s(r).c_str())) return false;
        if (!CK((d[0] == 3 || d[1] == 3 || a.same(A)) && (d[0] == 4 || d[1] == 4 || b.same(B)), "div(%s, %s) to %d,%d changed an operand", s(A).c_str(), s(B).c_str(), d[0], d[1])) return false;
    }
    return true;
}
static bool pair(Ctx& ctx, const Num& A, const Num& B, bool slow = true)
{
    mpz_class a = z(A), b = z(B), aa = abs(a), bb = abs(b);
    CK(mbedtls_mpi_cmp_mpi(&A.m, &B.m) == (cmp(a, b) < 0 ? -1 : cmp(a, b) > 0), "cmp_mpi(%s, %s)", s(A).c_str(), s(B).c_str());
    CK(mbedtls_mpi_cmp_abs(&A.m, &B.m) == (cmp(aa, bb) < 0 ? -1 : cmp(aa, bb) > 0), "cmp_abs(%s, %s)", s(A).c_str(), s(B).c_str());
    bool ok = three(ctx, "add_mpi", mbedtls_mpi_add_mpi, A, B, a + b) && three(ctx, "sub_mpi", mbedtls_mpi_sub_mpi, A, B, a - b) && three(ctx, "add_abs", mbedtls_mpi_add_abs, A, B, aa + bb)
        && three(ctx, "sub_abs", mbedtls_mpi_sub_abs, A, B, aa - bb, aa < bb ? MBEDTLS_ERR_MPI_NEGATIVE_VALUE : 0) && three(ctx, "mul_mpi", mbedtls_mpi_mul_mpi, A, B, a * b);
    if (!ok || !slow) return ok;
    mpz_class r;
    if (b > 0) mpz_mod(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    return division(ctx, A, B, a, b) && three(ctx, "mod_mpi", mbedtls_mpi_mod_mpi, A, B, r, b == 0 ? MBEDTLS_ERR_MPI_DIVISION_BY_ZERO : b < 0 ? MBEDTLS_ERR_MPI_NEGATIVE_VALUE : 0);
}
static bool number_theory(Ctx& ctx, const Num& A, const Num& B)
{
    mpz_class a = z(A), b = z(B), g = gcd(a, b), inv; int err = 0;
    if (b <= 1) err = MBEDTLS_ERR_MPI_BAD_INPUT_DATA;
    else if (!mpz_invert(inv.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t())) err = MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
    return three(ctx, "gcd", mbedtls_mpi_gcd, A, B, g) && three(ctx, "inv_mod", mbedtls_mpi_inv_mod, A, B, inv, err);
}
static bool power(Ctx& ctx, const Num& A, const Num& E, const Num& N)
{
    mpz_class a = z(A), e = z(E), n = z(N), w; int err = 0;
    if (e < 0 || n <= 0 || mpz_even_p(n.get_mpz_t())) err = MBEDTLS_ERR_MPI_BAD_INPUT_DATA;
    else mpz_powm(w.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t());
    for (int d = 0; d < 3; d++) {
        Num x, c(A); if (d == 1) x = stale();
        mbedtls_mpi* X = d == 2 ? &c.m : &x.m; mbedtls_mpi rr; mbedtls_mpi_init(&rr);
        Num e0(E), n0(N);
        for (int round = 0; round < (d == 1 ? 2 : 1); round++) { // the second time with the precomputed value
            int r = mbedtls_mpi_exp_mod(X, &c.m, &e0.m, &n0.m, d ? &rr : nullptr);
            ctx.step(); tally++;
            if (!CK(r == err, "exp_mod(%s, %s, %s) variant %d returned %d, expected %d", s(A).c_str(), s(E).c_str(), s(N).c_str(), d, r, err)) return false;
            if (!err && !CK(eq(*X, w), "exp_mod(%s, %s, %s) variant %d.%d gives %s, expected %s", s(A).c_str(), s(E).c_str(), s(N).c_str(), d, round, s(z(*X)).c_str(), s(w).c_str())) return false;
            if (!CK((d == 2 || c.same(A)) && e0.same(E) && n0.same(N), "exp_mod(%s, %s, %s) variant %d changed an operand", s(A).c_str(), s(E).c_str(), s(N).c_str(), d)) return false;
        }
        mbedtls_mpi_free(&rr);
    }
    return true;
}

static void pairs(Ctx& ctx)
{
    bool T = ctx.thorough;
    // signs and representations
    struct Rep { int s, pad; };
    static const Rep reps[] = {{1, 0}, {-1, 0}, {1, 1}, {-1, 2}};
    auto small = magnitudes(2, T ? 12 : 8);
    for (size_t i = 0; i < small.size(); i++) CASE("two limbs, all representations, A=%zu", i) {
        for (auto& B : small) for (auto& ra : reps) for (auto& rb : reps) if (!pair(ctx, Num(small[i], ra.s, ra.pad), Num(B, rb.s, rb.pad))) return;
        ctx.outcome(tally);
    };
    auto three_ = magnitudes(3, T ? 9 : 7);
    for (size_t i = 0; i < three_.size(); i++) CASE("three limbs, A=%zu", i) {
        for (auto& B : three_) for (int sa : {1, -1}) for (int sb : {1, -1}) if (!pair(ctx, Num(three_[i], sa), Num(B, sb), sa == 1 || sb == 1)) return;
        ctx.outcome(tally);
    };
    // long division: four and five limbs by two and three
    auto nums = magnitudes(5, T ? 8 : 7, 4), dens = magnitudes(3, T ? 9 : 7, 2);
    for (size_t i = 0; i < dens.size(); i++) CASE("long division, B=%zu", i) {
        mpz_class b = zm(dens[i]), q, r, w;
        Num B(dens[i], 1), X, R;
        for (auto& a : nums) {
            if (a.size() == 5 && a[2] != 0 && a[2] != M) continue;
            Num A(a, 1); mpz_class za = zm(a);
            mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), za.get_mpz_t(), b.get_mpz_t());
            int e = mbedtls_mpi_div_mpi(&X.m, &R.m, &A.m, &B.m);
            ctx.step(); tally++;
            if (!CK(e == 0 && eq(X.m, q) && eq(R.m, r), "div(%s, %s) gives %s and %s, expected %s and %s", s(A).c_str(), s(B).c_str(), s(X).c_str(), s(R).c_str(), s(q).c_str(), s(r).c_str())) return;
        }
        ctx.outcome(tally);
    };
    // long carries and borrows, products of every pair of sizes
    std::vector<Mag> runs;
    for (int n = 1; n <= (T ? 40 : 24); n++) for (int p = 0; p < 4; p++) {
        Mag m(n);
        for (int i = 0; i < n; i++) m[i] = p == 0 ? M : p == 1 ? (i == n - 1) : p == 2 ? mix(n * 100 + i) : (i == 0 || i == n - 1 ? 1 : 0);
        if (m.back() == 0) m.back() = 1;
        runs.push_back(m);
    }
    for (size_t i = 0; i < runs.size(); i++) CASE("long numbers, A=%zu", i) {
        for (auto& B : runs) for (int sa : {1, -1}) for (int sb : {1, -1}) if (!pair(ctx, Num(runs[i], sa), Num(B, sb))) return;
        ctx.outcome(tally);
    };
    // every pair of small integers, with and without limbs
    int S = T ? 200 : 70;
    for (int a = -S; a <= S; a++) CASE("small integers, A=%d", a) {
        Num A(Mag{(L)abs(a)}, a < 0 ? -1 : 1);
        for (int b = -S; b <= S; b++) {
            Num B(Mag{(L)abs(b)}, b < 0 ? -1 : 1);
            if (!pair(ctx, A, B) || !number_theory(ctx, A, B)) return;
        }
        if (!pair(ctx, A, Num()) || !pair(ctx, Num(), A) || !pair(ctx, Num(), Num()) || !number_theory(ctx, A, Num()) || !number_theory(ctx, Num(), A)) return;
        ctx.outcome(tally);
    };
    auto nt = magnitudes(2, T ? 12 : 9);
    for (size_t i = 0; i < nt.size(); i++) CASE("gcd and inverse, A=%zu", i) {
        for (auto& B : nt) for (int sa : {1, -1}) if (!number_theory(ctx, Num(nt[i], sa), Num(B, 1, nt[i].size() & 1))) return;
        ctx.outcome(tally);
    };
    for (size_t i = 0; i < runs.size(); i++) CASE("gcd and inverse of long numbers, A=%zu", i) {
        for (auto& B : runs) if ((B.size() < 20 || T) && !number_theory(ctx, Num(runs[i], 1), Num(B, 1))) return;
        ctx.outcome(tally);
    };
}
static void powers(Ctx& ctx)
{
    bool T = ctx.thorough;
    for (int n = -3; n <= (T ? 201 : 61); n++) CASE("small powers modulo %d", n) {
        Num N(Mag{(L)abs(n)}, n < 0 ? -1 : 1);
        for (int a = -40; a <= 40; a++) for (int e = -2; e <= 33; e++) if (!power(ctx, Num(Mag{(L)abs(a)}, a < 0 ? -1 : 1), Num(Mag{(L)abs(e)}, e < 0 ? -1 : 1), N)) return;
        if (!power(ctx, Num(), Num(Mag{5}, 1), N) || !power(ctx, Num(Mag{5}, 1), Num(), N) || !power(ctx, Num(Mag{5}, -1), Num(), N)) return;
        ctx.outcome(tally);
    };
    CASE("powers modulo the limbless zero") { power(ctx, Num(Mag{5}, 1), Num(Mag{5}, 1), Num()); power(ctx, Num(), Num(), Num()); };
    auto mods = magnitudes(2, T ? 12 : 8, 1), bases = magnitudes(2, T ? 8 : 5), exps = magnitudes(2, T ? 8 : 5);
    for (size_t i = 0; i < mods.size(); i++) CASE("powers modulo two limbs, N=%zu", i) {
        Mag n = mods[i]; n[0] |= 1;
        for (auto& a : bases) for (auto& e : exps) if (!power(ctx, Num(a, e.size() & 1 ? -1 : 1), Num(e, 1, a.size() & 1), Num(n, 1))) return;
        ctx.outcome(tally);
    };
    // every length of exponent across the window sizes, with several bit patterns
    for (int bits = 1; bits <= (T ? 2100 : 1100); bits++) CASE("exponents of %d bits", bits) {
        for (int p = 0; p < 7; p++) {
            Mag e((bits + 63) / 64);
            for (int b = 0; b < bits; b++) {
                bool on = b == bits - 1 || (p == 0 ? true : p == 1 ? false : p == 2 ? b % 2 : p == 3 ? b % 7 < 1 : p == 4 ? b % 7 < 6 : p == 5 ? (mix(bits * 1000 + b) & 1) : b < 3);
                if (on) e[b / 64] |= (L)1 << (b % 64);
            }
            Mag n = p & 1 ? Mag{mix(bits) | 1, M} : Mag{0xffffffff00000001ULL, 0, mix(bits) | 1};
            if (!power(ctx, Num(Mag{mix(p), 77 * (L)bits, (L)(p & 2)}, 1), Num(e, 1), Num(n, 1))) return;
        }
        ctx.outcome(tally);
    };
    // every length of modulus
    for (int limbs = 1; limbs <= 32; limbs++) CASE("moduli of %d limbs", limbs) {
        for (int p = 0; p < 4; p++) {
            Mag n(limbs, p == 0 ? M : 0), a(limbs + (p == 3)), e{mix(p) | 1, 3};
            for (int i = 0; i < limbs; i++) if (p > 1) n[i] = mix(limbs * 64 + i + p);
            n[0] |= 1; if (n.back() == 0) n.back() = (L)1 << 63;
            for (size_t i = 0; i < a.size(); i++) a[i] = p == 1 ? M : mix(i + 7777 * limbs);
            if (!power(ctx, Num(a, 1), Num(e, 1), Num(n, 1)) || !power(ctx, Num(a, -1), Num(e, 1), Num(n, 1)) || !power(ctx, Num(n, -1), Num(e, 1), Num(n, 1))) return;
        }
        ctx.outcome(tally);
    };
}
static void one_number(Ctx& ctx)
{
    bool T = ctx.thorough;
    std::vector<int64_t> ints = {0, 1, -1, 2, -2, 3, 10, -10, 255, 65537, 0x7fffffff, -0x7fffffff, 0x100000000LL, 0x100000001LL, -0x123456789LL, INT64_MAX, INT64_MAX - 1, -INT64_MAX, (int64_t)1 << 62, 0x5555555555555555LL};
    auto vals = magnitudes(3, T ? 10 : 8);
    for (size_t i = 0; i < vals.size(); i++) CASE("integer operands, A=%zu", i) {
        for (int sg : {1, -1}) for (int pad = 0; pad < 2; pad++) {
            Num A(vals[i], sg, pad); mpz_class a = z(A);
            for (int64_t k : ints) {
                mpz_class b = (long)k;
                CK(mbedtls_mpi_cmp_int(&A.m, k) == (cmp(a, b) < 0 ? -1 : cmp(a, b) > 0), "cmp_int(%s, %ld)", s(A).c_str(), (long)k);
                for (int d = 0; d < 3; d++) {
                    Num c(A), x; if (d == 1) x = stale();
                    mbedtls_mpi* X = d == 2 ? &c.m : &x.m;
                    CK(mbedtls_mpi_add_int(X, &c.m, k) == 0 && eq(*X, a + b), "add_int(%s, %ld) gives %s", s(A).c_str(), (long)k, s(z(*X)).c_str());
                    c = A; CK(mbedtls_mpi_sub_int(X, &c.m, k) == 0 && eq(*X, a - b), "sub_int(%s, %ld) gives %s", s(A).c_str(), (long)k, s(z(*X)).c_str());
                    c = A; CK(mbedtls_mpi_mul_int(X, &c.m, (L)k) == 0 && eq(*X, a * (unsigned long)(L)k), "mul_int(%s, %lu) gives %s", s(A).c_str(), (L)k, s(z(*X)).c_str());
                    c = A; Num R; int r = mbedtls_mpi_div_int(X, &R.m, &c.m, k);
                    if (k == 0) CK(r == MBEDTLS_ERR_MPI_DIVISION_BY_ZERO, "div_int(%s, 0) returned %d", s(A).c_str(), r);
                    else CK(r == 0 && eq(*X, a / b) && eq(R.m, a % b), "div_int(%s, %ld) gives %s and %s", s(A).c_str(), (long)k, s(z(*X)).c_str(), s(R).c_str());
                    ctx.step(4);
                }
                L m = 77; int r = mbedtls_mpi_mod_int(&m, &A.m, k);
                if (k <= 0) CK(r == (k ? MBEDTLS_ERR_MPI_NEGATIVE_VALUE : MBEDTLS_ERR_MPI_DIVISION_BY_ZERO), "mod_int(%s, %ld) returned %d", s(A).c_str(), (long)k, r);
                else { mpz_class w; mpz_mod(w.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); CK(r == 0 && w == (unsigned long)m, "mod_int(%s, %ld) gives %lx, expected %s", s(A).c_str(), (long)k, m, s(w).c_str()); }
                ctx.step(2);
            }
            for (int b = 1; b < 300; b++) { // small divisors
                L m = 0; mbedtls_mpi_mod_int(&m, &A.m, b); mpz_class w; mpz_fdiv_r_ui(w.get_mpz_t(), a.get_mpz_t(), b);
                CK(w == (unsigned long)m, "mod_int(%s, %d) gives %lu", s(A).c_str(), b, m); ctx.step();
            }
            // shifts
            for (int c = 0; c <= 260; c++) {
                Num x(A), y(A); mpz_class l = a << c, r = abs(a) >> c; if (sg < 0) r = -r;
                CK(mbedtls_mpi_shift_l(&x.m, c) == 0 && eq(x.m, l), "%s << %d gives %s", s(A).c_str(), c, s(x).c_str());
                CK(mbedtls_mpi_shift_r(&y.m, c) == 0 && eq(y.m, r), "%s >> %d gives %s", s(A).c_str(), c, s(y).c_str());
                CK(mbedtls_mpi_get_bit(&A.m, c) == mpz_tstbit(mpz_class(abs(a)).get_mpz_t(), c), "bit %d of %s", c, s(A).c_str());
                for (int v = 0; v < 2; v++) {
                    Num q(A); mpz_class w = abs(a); if (v) mpz_setbit(w.get_mpz_t(), c); else mpz_clrbit(w.get_mpz_t(), c);
                    if (sg < 0) w = -w;
                    CK(mbedtls_mpi_set_bit(&q.m, c, v) == 0 && eq(q.m, w), "bit %d of %s set to %d gives %s", c, s(A).c_str(), v, s(q).c_str());
                }
                ctx.step(5);
            }
            Num q(A); CK(mbedtls_mpi_set_bit(&q.m, 3, 2) == MBEDTLS_ERR_MPI_BAD_INPUT_DATA && q.same(A), "set_bit with value 2");
            size_t bl = a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2);
            CK(mbedtls_mpi_bitlen(&A.m) == bl && mbedtls_mpi_size(&A.m) == (bl + 7) / 8, "bitlen of %s is %zu, size %zu", s(A).c_str(), mbedtls_mpi_bitlen(&A.m), mbedtls_mpi_size(&A.m));
            CK(mbedtls_mpi_lsb(&A.m) == (a == 0 ? 0 : mpz_scan1(a.get_mpz_t(), 0)), "lsb of %s is %zu", s(A).c_str(), mbedtls_mpi_lsb(&A.m));
            // copies
            for (int t = 0; t < 3; t++) {
                Num x, y(A); if (t == 1) x = stale();
                mbedtls_mpi* X = t == 2 ? &y.m : &x.m;
                CK(mbedtls_mpi_copy(X, &y.m) == 0 && eq(*X, a) && eq(y.m, a), "copy of %s gives %s", s(A).c_str(), s(z(*X)).c_str());
                Num u(A), v(t == 1 ? stale() : Num()); mpz_class old = z(v);
                mbedtls_mpi_swap(&u.m, &v.m); CK(eq(u.m, old) && eq(v.m, a), "swap of %s and %s", s(a).c_str(), s(old).c_str());
                for (int c : {0, 1, 2, 128, 255}) {
                    Num g(t == 1 ? stale() : Num()), h(A);
                    CK(mbedtls_mpi_safe_cond_assign(&g.m, &h.m, c) == 0 && eq(g.m, c ? a : old) && eq(h.m, a), "conditional assignment of %s to %s (%d) gives %s", s(a).c_str(), s(old).c_str(), c, s(g).c_str());
                    Num j(t == 1 ? stale() : Num()), k(A);
                    CK(mbedtls_mpi_safe_cond_swap(&j.m, &k.m, c) == 0 && eq(j.m, c ? a : old) && eq(k.m, c ? old : a), "conditional swap of %s and %s (%d)", s(a).c_str(), s(old).c_str(), c);
                }
                Num w(A); CK(mbedtls_mpi_shrink(&w.m, t) == 0 && eq(w.m, a), "shrink of %s to %d limbs gives %s", s(A).c_str(), t, s(w).c_str());
                Num gr(A); CK(mbedtls_mpi_grow(&gr.m, 4 * t) == 0 && eq(gr.m, a) && gr.m.n >= (size_t)4 * t, "grow of %s", s(A).c_str());
                ctx.step(16);
            }
        }
        ctx.outcome(fnv(vals[i].data(), 8 * vals[i].size()));
    };
    CASE("numbers without limbs") {
        Num x; mpz_class zero;
        CK(mbedtls_mpi_bitlen(&x.m) == 0 && mbedtls_mpi_size(&x.m) == 0 && mbedtls_mpi_lsb(&x.m) == 0 && mbedtls_mpi_get_bit(&x.m, 5) == 0 && mbedtls_mpi_cmp_int(&x.m, 0) == 0 && mbedtls_mpi_cmp_int(&x.m, 1) == -1 && mbedtls_mpi_cmp_int(&x.m, -1) == 1, "properties of a new number");
        for (int c : {0, 1, 63, 64, 65, 200}) { Num l, r; CK(mbedtls_mpi_shift_l(&l.m, c) == 0 && eq(l.m, zero) && mbedtls_mpi_shift_r(&r.m, c) == 0 && eq(r.m, zero), "shift of a new number by %d", c); }
        for (int b : {1, 2, 3, 10, 65537}) { L m = 5; CK(mbedtls_mpi_mod_int(&m, &x.m, b) == 0 && m == 0, "mod_int of a new number by %d", b); }
        for (int64_t k : ints) { Num l; CK(mbedtls_mpi_lset(&l.m, k) == 0 && eq(l.m, mpz_class((long)k)), "lset %ld", (long)k); Num o = stale(); CK(mbedtls_mpi_lset(&o.m, k) == 0 && eq(o.m, mpz_class((long)k)), "lset %ld over another value", (long)k); }
        Num y; CK(mbedtls_mpi_copy(&y.m, &x.m) == 0 && eq(y.m, zero), "copy of a new number"); y = stale(); CK(mbedtls_mpi_copy(&y.m, &x.m) == 0 && eq(y.m, zero), "copy of a new number over another");
        Num s1; CK(mbedtls_mpi_set_bit(&s1.m, 70, 1) == 0 && eq(s1.m, mpz_class(1) << 70), "set_bit of a new number");
        Num big; CK(mbedtls_mpi_grow(&big.m, 10001) == MBEDTLS_ERR_MPI_ALLOC_FAILED && big.m.n == 0, "growing beyond the limit");
        mbedtls_mpi_free(nullptr); mbedtls_mpi_init(nullptr);
        ctx.step(60);
    };
    // binary import and export
    for (size_t len = 0; len <= 66; len++) CASE("binary of %zu bytes", len) {
        for (int p = 0; p < 6; p++) for (size_t lead = 0; lead <= (p == 5 ? len : 0); lead++) {
            std::string b = p == 0 ? std::string(len, 0) : p == 1 ? std::string(len, (char)0xff) : p == 2 ? bytes(len, len) : p == 3 ? std::string(len, (char)0x80) : p == 4 ? std::string(len ? len - 1 : 0, 0) + std::string(len ? 1 : 0, 1) : std::string(lead, 0) + bytes(len - lead, 3 + len);
            mpz_class w; mpz_import(w.get_mpz_t(), len, 1, 1, 0, 0, b.data());
            Fence in(len, Fence::END); memcpy(in.p, b.data(), len);
            for (int d = 0; d < 2; d++) {
                Num x; if (d) x = stale();
                CK(mbedtls_mpi_read_binary(&x.m, in.p, len) == 0 && eq(x.m, w), "import of %s gives %s", hex(b).c_str(), s(x).c_str());
                size_t need = mbedtls_mpi_size(&x.m);
                for (size_t n = 0; n <= len + 9; n++) {
                    Fence out(n, d ? Fence::BEGIN : Fence::END); memset(out.p, 0xA5, n);
                    int r = mbedtls_mpi_write_binary(&x.m, out.p, n);
                    if (n < need) CK(r == MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL, "export of %s to %zu bytes returned %d", s(x).c_str(), n, r);
                    else { mpz_class v; mpz_import(v.get_mpz_t(), n, 1, 1, 0, 0, out.p); CK(r == 0 && v == w, "export of %s to %zu bytes gives %s", s(x).c_str(), n, hex(out.p, n).c_str()); }
                    ctx.step();
                }
                // the same bytes from the generator
                struct G { const uint8_t* p; size_t n; } g = {in.p, len};
                Num y; if (d) y = stale();
                int r = mbedtls_mpi_fill_random(&y.m, len, [](void* c, unsigned char* o, size_t n) -> int { G* g = (G*)c; if (n != g->n) return -99; memcpy(o, g->p, n); return 0; }, &g);
                CK(r == 0 && eq(y.m, w), "random number of %zu bytes", len);
                CK(mbedtls_mpi_fill_random(&y.m, len, [](void*, unsigned char*, size_t) -> int { return -0x34; }, nullptr) != 0, "failure of the generator ignored");
            }
        }
        ctx.outcome(len);
    };
    // text
    auto texts = magnitudes(2, T ? 12 : 9);
    for (int n : {3, 5, 9, 17}) for (int p = 0; p < 2; p++) { Mag m(n, M); if (p) for (auto& x : m) x = mix(n * 50 + (&x - m.data())); texts.push_back(m); }
    for (int v = 1; v < 300; v += 7) texts.push_back(Mag{(L)v});
    for (int radix = 2; radix <= 16; radix++) for (size_t i = 0; i < texts.size(); i++) CASE("text in radix %d, A=%zu", radix, i) {
        for (int sg : {1, -1}) for (int pad = 0; pad < 2; pad++) {
            if (texts[i].empty() && sg < 0) continue;
            Num A(texts[i], sg, pad); mpz_class a = z(A);
            size_t need = 12345; char dummy;
            int r = mbedtls_mpi_write_string(&A.m, radix, &dummy, 0, &need);
            CK(r == MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL && need >= 1, "text of %s, no room: returned %d", s(A).c_str(), r);
            std::string best = a.get_str(radix);
            if (!CK(need > best.size(), "text of %s in radix %d: announced %zu bytes, needs %zu", s(A).c_str(), radix, need, best.size() + 1)) return;
            for (size_t n = need < 6 ? 0 : need - 6; n <= need + 2; n++) {
                Fence out(n, Fence::END); size_t o = 777; memset(out.p, 0x5A, n);
                r = mbedtls_mpi_write_string(&A.m, radix, (char*)out.p, n, &o);
                ctx.step();
                if (n < need) { CK(r == MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL && o == need, "text of %s in %zu bytes (needs %zu) returned %d, %zu", s(A).c_str(), n, need, r, o); continue; }
                if (!CK(r == 0 && o >= 1 && o <= n && out.p[o - 1] == 0 && strlen((char*)out.p) == o - 1, "text of %s in %zu bytes returned %d, length %zu", s(A).c_str(), n, r, o)) return;
                mpz_class b; std::string t((char*)out.p);
                if (t.empty()) b = 0; else if (b.set_str(t, radix)) { ctx.fail("text of %s in radix %d is %s", s(A).c_str(), radix, t.c_str()); return; }
                if (!CK(b == a, "text of %s in radix %d is %s", s(A).c_str(), radix, t.c_str())) return;
                for (int d = 0; d < 2; d++) { Num x; if (d) x = stale(); CK(mbedtls_mpi_read_string(&x.m, radix, t.c_str()) == 0 && eq(x.m, a), "reading %s in radix %d gives %s", t.c_str(), radix, s(x).c_str()); }
            }
            std::string low = best; for (auto& ch : low) ch = tolower(ch);
            std::string zeros = (sg < 0 ? "-000" : "000") + (sg < 0 ? low.substr(1) : low);
            for (auto& t : {low, zeros}) {
                Fence in(t.size() + 1, Fence::END); memcpy(in.p, t.c_str(), t.size() + 1);
                Num x; CK(mbedtls_mpi_read_string(&x.m, radix, (char*)in.p) == 0 && eq(x.m, a), "reading %s in radix %d gives %s", t.c_str(), radix, s(x).c_str()); ctx.step();
            }
        }
        ctx.outcome(radix * 1000 + i);
    };
    for (int radix = -1; radix <= 18; radix++) CASE("malformed text in radix %d", radix) {
        Num x; size_t o; char buf[300];
        if (radix < 2 || radix > 16) {
            CK(mbedtls_mpi_read_string(&x.m, radix, "1") == MBEDTLS_ERR_MPI_BAD_INPUT_DATA && mbedtls_mpi_write_string(&x.m, radix, buf, 300, &o) == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "radix %d accepted", radix);
            return;
        }
        for (int c = 1; c < 256; c++) for (int pos = 0; pos < 4; pos++) {
            std::string t = "101"; t.insert(pos, 1, (char)c);
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
            bool good = d < radix || (c == '-' && pos == 0);
            int r = mbedtls_mpi_read_string(&x.m, radix, t.c_str());
            CK(r == (good ? 0 : MBEDTLS_ERR_MPI_INVALID_CHARACTER), "radix %d, text %s returned %d", radix, hex(t).c_str(), r);
            Num y; CK(mbedtls_mpi_add_int(&y.m, &x.m, 1) == 0 && eq(y.m, z(x) + 1), "a number is unusable after a refused text"); // still usable
            ctx.step(2);
        }
        ctx.outcome(radix);
    };
}
static int stream(void* c, unsigned char* o, size_t n) { uint64_t* st = (uint64_t*)c; for (size_t i = 0; i < n; i++) o[i] = (unsigned char)(mix((*st)++) >> 11); return 0; }
static void primes(Ctx& ctx)
{
    bool T = ctx.thorough;
    auto verdict = [&](const mpz_class& v, uint64_t label) {
        Num A; size_t n = mpz_size(v.get_mpz_t()); Mag m(n); for (size_t i = 0; i < n; i++) m[i] = mpz_getlimbn(v.get_mpz_t(), i);
        A.set(m, 1, label & 1);
        uint64_t st = label << 20; int r = mbedtls_mpi_is_prime(&A.m, stream, &st); bool p = mpz_probab_prime_p(v.get_mpz_t(), 40) != 0;
        ctx.step();
        CK(r == (p ? 0 : MBEDTLS_ERR_MPI_NOT_ACCEPTABLE), "is_prime(%s) returned %d, it is %s", s(v).c_str(), r, p ? "prime" : "composite");
    };
    int B = 256, top = T ? 1 << 21 : 1 << 18;
    for (int b = 0; b < top; b += B) CASE("primes from %d", b) { for (int v = b; v < b + B; v++) verdict(mpz_class(v), v + 1); ctx.outcome(b); };
    // powers of two and their neighbourhoods, Carmichael numbers, strong pseudoprimes, squares and products of primes
    for (int e = 16; e <= (T ? 2100 : 1100); e += e < 140 ? 1 : 37) CASE("primes around 2^%d", e) {
        for (int d = -40; d <= 40; d++) verdict((mpz_class(1) << e) + d, e + 1);
        mpz_class p; mpz_nextprime(p.get_mpz_t(), mpz_class(mpz_class(1) << e).get_mpz_t()); mpz_class q; mpz_nextprime(q.get_mpz_t(), p.get_mpz_t());
        verdict(p, e); verdict(p * p, e); verdict(p * q, e); verdict(p * 1009, e); ctx.outcome(e);
    };
    CASE("pseudoprimes") {
        for (const char* t : {"561", "1105", "1729", "2465", "2821", "6601", "8911", "825265", "321197185", "5394826801", "2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981", "1195068768795265792518361315725116351898245581"}) for (int l = 0; l < 20; l++) verdict(mpz_class(t), 500 + l);
    };
    // the number of independent bases: composites with many strong liars; a single witness among liars must be noticed at as many draws as HAC, table 4.4, demands
    struct Draws { std::vector<mpz_class> liars; mpz_class witness; int at, n; };
    auto draw = [](void* c, unsigned char* o, size_t n) -> int {
        Draws& d = *(Draws*)c; const mpz_class& v = d.n == d.at ? d.witness : d.liars[d.n % d.liars.size()]; d.n++;
        memset(o, 0, n); size_t len = (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8; if (len > n) return 0;
        mpz_export(o + n - len, nullptr, 1, 1, 0, 0, v.get_mpz_t()); return 0;
    };
    for (int bits : {96, 128, 149, 150, 151, 200, 249, 250, 300, 349, 350, 351, 500, 512, 649, 650, 700, 849, 850, 1024, 1299, 1300, 1536, 2048}) for (int l = 0; l < (T ? 12 : 2); l++) CASE("bases for a composite of %d bits, %d", bits, l) {
        const int K = 1009; int b1 = bits / 2, b2 = bits - b1;
        auto near = [&](int b, int label) { mpz_class v = (mpz_class(3) << (b - 2)) + (mpz_class((unsigned long)mix(label)) % (mpz_class(1) << (b - 4))); v -= v % (4 * K); v += 2 * K + 1; while (!mpz_probab_prime_p(v.get_mpz_t(), 30)) v += 4 * K; return v; }; // 3 modulo 4, 1 modulo K
        mpz_class pr[2] = {near(b1, bits * 100 + l), near(b2, bits * 100 + l + 50)}, n = pr[0] * pr[1], W = n - 1, R = W, inv; size_t sh = 0; while (mpz_even_p(R.get_mpz_t())) { R /= 2; sh++; }
        if (pr[0] == pr[1]) pr[1] = near(b2 + 0, bits * 100 + l + 77), n = pr[0] * pr[1], W = n - 1;
        mpz_invert(inv.get_mpz_t(), pr[0].get_mpz_t(), pr[1].get_mpz_t());
        Draws d; mpz_class root[2];
        for (int i = 0; i < 2; i++) for (int g = 2; root[i] <= 1; g++) { mpz_class e = (pr[i] - 1) / K, b = g; mpz_powm(root[i].get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), pr[i].get_mpz_t()); }
        for (int a = 1; d.liars.size() < 64; a++) {
            mpz_class x, y; mpz_powm_ui(x.get_mpz_t(), root[0].get_mpz_t(), a % K, pr[0].get_mpz_t()); mpz_powm_ui(y.get_mpz_t(), root[1].get_mpz_t(), (a * 7 + a / 5) % K, pr[1].get_mpz_t());
            mpz_class v = x + pr[0] * (((y - x) * inv % pr[1] + pr[1]) % pr[1]);
            if (v % 4 == 3 && v > 1 && v < W) d.liars.push_back(v);
        }
        for (d.witness = 7;; d.witness += 4) { mpz_class t; mpz_powm(t.get_mpz_t(), d.witness.get_mpz_t(), W.get_mpz_t(), n.get_mpz_t()); if (t != 1) break; }
        Num A; size_t ln = mpz_size(n.get_mpz_t()); Mag m(ln); for (size_t i = 0; i < ln; i++) m[i] = mpz_getlimbn(n.get_mpz_t(), i); A.set(m, 1, 0);
        d.at = -1; d.n = 0; int r = mbedtls_mpi_is_prime(&A.m, draw, &d), total = d.n, used = 0, need = bits >= 1300 ? 2 : bits >= 850 ? 3 : bits >= 650 ? 4 : bits >= 350 ? 8 : bits >= 250 ? 12 : bits >= 150 ? 18 : 27;
        ctx.step();
        if (r != 0) return; // recognised all the same
        for (int t = 0; t < total; t++) { d.at = t; d.n = 0; r = mbedtls_mpi_is_prime(&A.m, draw, &d); ctx.step(); used += r != 0; }
        CK(used >= need, "a composite of %d bits is tested with %d bases, %d are needed", bits, used, need);
        ctx.outcome(bits * 100 + used);
    };
    for (int bits : {32, 40, 64, 65, 96, 128, 129, 192, 256, 320, 512, 520}) for (int l = 0; l < (T ? 60 : 12); l++) CASE("generated primes of %d bits, %d", bits, l) {
        Num X; if (l & 1) X = stale();
        uint64_t st = (uint64_t)(bits * 100 + l) << 24; int r = mbedtls_mpi_gen_prime(&X.m, bits, 0, stream, &st); mpz_class v = z(X);
        CK(r == 0 && v > 0 && mpz_probab_prime_p(v.get_mpz_t(), 40) && mpz_sizeinbase(v.get_mpz_t(), 2) == (size_t)bits, "a generated prime of %d bits is %s (returned %d)", bits, s(X).c_str(), r); ctx.step();
        if (bits <= 128) {
            Num Y; r = mbedtls_mpi_gen_prime(&Y.m, bits, 1, stream, &st); v = z(Y); mpz_class h = v / 2;
            CK(r == 0 && mpz_probab_prime_p(v.get_mpz_t(), 40) && mpz_probab_prime_p(h.get_mpz_t(), 40) && mpz_sizeinbase(v.get_mpz_t(), 2) == (size_t)bits, "a generated safe prime of %d bits is %s (returned %d)", bits, s(Y).c_str(), r); ctx.step();
        }
        ctx.outcome(fnv(s(X)));
    };
    CASE("refused sizes of primes") { Num X; uint64_t st = 1; for (size_t b : {0, 1, 2, 8193, 100000}) CK(mbedtls_mpi_gen_prime(&X.m, b, 0, stream, &st) == MBEDTLS_ERR_MPI_BAD_INPUT_DATA, "gen_prime of %zu bits accepted", b); };
    CASE("failing generator") {
        static int left; auto g = [](void*, unsigned char* o, size_t n) -> int { if (left-- <= 0) return -0x77; fill(o, n, left + 5); return 0; };
        for (int k = 0; k < 30; k++) { Num X; left = k; int r = mbedtls_mpi_gen_prime(&X.m, 256, 0, g, nullptr); bool used = left < 0; CK(used ? r != 0 : true, "the generator fails at its call %d and gen_prime succeeds", k); ctx.step(); }
    };
}
static void explore(Ctx& ctx)
{
    pairs(ctx);
    powers(ctx);
    one_number(ctx);
    primes(ctx);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
