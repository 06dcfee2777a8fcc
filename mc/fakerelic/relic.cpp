// The stand-in for RELIC (see relic/relic.h): integers by GMP, group elements by their logarithms.
#include <gmpxx.h>
extern "C" {
#include <relic/relic.h>
}
#include <cstdio>
#include <cstdlib>
#include <sodium.h>
#include <string>

typedef mpz_class Z;
static void die(const char* what)
{
    fprintf(stderr, "Assertion: RELIC would fail: %s\n", what);
    abort();
}
static const Z& order()
{
    static const Z r("16798108731015832284940804142231733909759579603404752749028378864165570215949"); // BN-P254
    return r;
}
static Z get(const bn_st* a)
{
    Z z;
    if (a->used < 0 || a->used > RLC_BN_SIZE) die("corrupt integer");
    mpz_import(z.get_mpz_t(), a->used, -1, 8, 0, 0, a->dp);
    return a->sign == RLC_NEG ? Z(-z) : z;
}
static void put(bn_st* a, const Z& z)
{
    size_t n = mpz_sgn(z.get_mpz_t()) ? (mpz_sizeinbase(z.get_mpz_t(), 2) + 63) / 64 : 0;
    if (n > RLC_BN_SIZE) die("precision of an integer exceeded");
    memset(a->dp, 0, sizeof a->dp);
    mpz_export(a->dp, nullptr, -1, 8, 0, 0, z.get_mpz_t());
    a->alloc = RLC_BN_SIZE;
    a->used = n ? (int)n : 1;
    a->sign = sgn(z) < 0 ? RLC_NEG : RLC_POS;
}
static Z pmod(const Z& a, const Z& m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static int c3(int c) { return c < 0 ? RLC_LT : c > 0 ? RLC_GT : RLC_EQ; }

static ctx_t ctx;
static bool live;
extern "C" {
int core_init(void) { live = true; ctx.code = RLC_OK; return RLC_OK; }
int core_clean(void) { live = false; return RLC_OK; }
ctx_t* core_get(void) { return live ? &ctx : nullptr; }
int pc_param_set_any(void) { return RLC_OK; }

void bn_init(bn_st* a, int) { put(a, 0); }
void bn_clean(bn_st* a) { put(a, 0); }
void bn_copy(bn_st* c, const bn_st* a) { put(c, get(a)); }
void bn_abs(bn_st* c, const bn_st* a) { put(c, abs(get(a))); }
void bn_neg(bn_st* c, const bn_st* a) { put(c, -get(a)); }
int bn_sign(const bn_st* a) { return a->sign; }
void bn_zero(bn_st* a) { put(a, 0); }
int bn_is_zero(const bn_st* a) { return get(a) == 0; }
int bn_is_even(const bn_st* a) { return mpz_even_p(get(a).get_mpz_t()); }
int bn_bits(const bn_st* a) { Z z = get(a); return z == 0 ? 0 : (int)mpz_sizeinbase(z.get_mpz_t(), 2); }
int bn_get_bit(const bn_st* a, int bit) { return mpz_tstbit(Z(abs(get(a))).get_mpz_t(), bit); }
void bn_set_bit(bn_st* a, int bit, int v) { Z z = abs(get(a)); v ? mpz_setbit(z.get_mpz_t(), bit) : mpz_clrbit(z.get_mpz_t(), bit); put(a, z); }
void bn_set_dig(bn_st* a, dig_t d) { Z z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &d); put(a, z); }
void bn_get_dig(dig_t* d, const bn_st* a) { *d = a->dp[0]; }
void bn_rand(bn_st* a, int sign, int bits)
{
    uint8_t b[8 * RLC_BN_SIZE];
    size_t n = (bits + 7) / 8;
    if (n > sizeof b) die("precision of an integer exceeded");
    randombytes_buf(b, n);
    if (bits % 8) b[0] &= (1 << bits % 8) - 1;
    Z z; mpz_import(z.get_mpz_t(), n, 1, 1, 0, 0, b);
    put(a, sign == RLC_NEG ? Z(-z) : z);
}
void bn_rand_mod(bn_st* a, bn_st* b) { bn_rand(a, RLC_POS, bn_bits(b) + 40); put(a, pmod(get(a), get(b))); }
int bn_size_str(const bn_st* a, int radix) { return (int)get(a).get_str(radix).size() + 1; }
void bn_read_str(bn_st* a, const char* s, int len, int radix)
{
    Z z; if (z.set_str(std::string(s, strnlen(s, len)), radix)) die("not a number");
    put(a, z);
}
void bn_write_str(char* s, int len, const bn_st* a, int radix)
{
    std::string t = get(a).get_str(radix);
    if ((int)t.size() + 1 > len) die("buffer too small for an integer");
    memcpy(s, t.c_str(), t.size() + 1);
}
int bn_size_bin(const bn_st* a) { return (bn_bits(a) + 7) / 8; }
void bn_read_bin(bn_st* a, const uint8_t* bin, int len) { Z z; mpz_import(z.get_mpz_t(), len, 1, 1, 0, 0, bin); put(a, z); }
void bn_write_bin(uint8_t* bin, int len, const bn_st* a)
{
    int n = bn_size_bin(a);
    if (n > len) die("buffer too small for an integer");
    memset(bin, 0, len);
    Z z = abs(get(a));
    mpz_export(bin + (len - n), nullptr, 1, 1, 0, 0, z.get_mpz_t());
}
int bn_cmp_abs(const bn_st* a, const bn_st* b) { return c3(cmp(abs(get(a)), abs(get(b)))); }
int bn_cmp(const bn_st* a, const bn_st* b) { return c3(cmp(get(a), get(b))); }
int bn_cmp_dig(const bn_st* a, dig_t b) { bn_t t; bn_set_dig(t, b); return bn_cmp(a, t); }
void bn_add(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) + get(b)); }
void bn_sub(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) - get(b)); }
void bn_mul(bn_st* c, const bn_st* a, const bn_st* b) { put(c, get(a) * get(b)); }
void bn_add_dig(bn_st* c, const bn_st* a, dig_t b) { bn_t t; bn_set_dig(t, b); bn_add(c, a, t); }
void bn_sub_dig(bn_st* c, const bn_st* a, dig_t b) { bn_t t; bn_set_dig(t, b); bn_sub(c, a, t); }
void bn_mul_dig(bn_st* c, const bn_st* a, dig_t b) { bn_t t; bn_set_dig(t, b); bn_mul(c, a, t); }
void bn_sqr(bn_st* c, const bn_st* a) { bn_mul(c, a, a); }
void bn_dbl(bn_st* c, const bn_st* a) { bn_add(c, a, a); }
void bn_lsh(bn_st* c, const bn_st* a, int n) { put(c, get(a) << n); }
void bn_rsh(bn_st* c, const bn_st* a, int n) { Z z = abs(get(a)) >> n; put(c, a->sign == RLC_NEG ? Z(-z) : z); }
void bn_hlv(bn_st* c, const bn_st* a) { bn_rsh(c, a, 1); }
void bn_div(bn_st* c, const bn_st* a, const bn_st* b)
{
    if (bn_is_zero(b)) die("division by zero");
    Z q; mpz_fdiv_q(q.get_mpz_t(), get(a).get_mpz_t(), get(b).get_mpz_t()); put(c, q);
}
void bn_mod(bn_st* c, const bn_st* a, const bn_st* m)
{
    if (bn_is_zero(m)) die("division by zero");
    put(c, pmod(get(a), get(m)));
}
void bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m)
{
    Z r, x = get(a), e = get(b), n = get(m), i;
    if (e < 0 && !mpz_invert(i.get_mpz_t(), x.get_mpz_t(), n.get_mpz_t())) die("no inverse");
    mpz_powm(r.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t());
    put(c, r);
}
void bn_gcd(bn_st* c, const bn_st* a, const bn_st* b) { put(c, gcd(get(a), get(b))); }
void bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b)
{
    Z g, s, t;
    mpz_gcdext(g.get_mpz_t(), s.get_mpz_t(), t.get_mpz_t(), get(a).get_mpz_t(), get(b).get_mpz_t());
    put(c, g); if (d) put(d, s); if (e) put(e, t);
}
void bn_mod_inv(bn_st* c, const bn_st* a, const bn_st* m)
{
    Z r; if (!mpz_invert(r.get_mpz_t(), get(a).get_mpz_t(), get(m).get_mpz_t())) die("no inverse");
    put(c, r);
}
void md_map_sh256(uint8_t* h, const uint8_t* m, int n) { crypto_hash_sha256(h, m, n); }
void rand_bytes(uint8_t* b, int n) { randombytes_buf(b, n); }
void g1_get_ord(bn_st* n) { put(n, order()); }
void g2_get_ord(bn_st* n) { put(n, order()); }
void gt_get_ord(bn_st* n) { put(n, order()); }
}

template<class T> static Z lg(const T* a) { Z z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, a->e); if (z >= order()) die("corrupt element"); return z; }
template<class T> static void sl(T* a, const Z& z)
{
    Z r = pmod(z, order());
    memset(a->e, 0, sizeof a->e);
    mpz_export(a->e, nullptr, -1, 8, 0, 0, r.get_mpz_t());
}
template<class T> static void rnd(T* a) { bn_t k; bn_rand(k, RLC_POS, 320); sl(a, pmod(get(k), order() - 1) + 1); }
static void be(uint8_t* out, int len, const Z& z)
{
    bn_t t; put(t, z); bn_write_bin(out, len, t);
}
static Z eb(const uint8_t* in, int len) { bn_t t; bn_read_bin(t, in, len); return get(t); }
// x coordinate: the smaller of the logarithms of the point and of its opposite; a compressed point is the sign and x
template<class T> static void wr(uint8_t* bin, int len, const T* a, int pack, int f)
{
    Z e = lg(a);
    int need = e == 0 ? 1 : 1 + (pack ? 1 : 2) * f;
    if (len < need) die("buffer too small for a point");
    memset(bin, 0, len);
    if (e == 0) return;
    Z o = order() - e;
    bool up = e > o;
    bin[0] = pack ? 2 + up : 4;
    be(bin + 1, f, up ? o : e);
    if (!pack) be(bin + 1 + f, f, e);
}
template<class T> static void rd(T* a, const uint8_t* bin, int len, int f)
{
    if (len == 1 && bin[0] == 0) { sl(a, 0); return; }
    if (len == 1 + f && (bin[0] == 2 || bin[0] == 3)) {
        Z x = eb(bin + 1, f);
        if (x == 0 || x * 2 >= order()) die("not a point");
        sl(a, bin[0] == 3 ? order() - x : x);
        return;
    }
    if (len == 1 + 2 * f && bin[0] == 4) {
        Z e = eb(bin + 1 + f, f);
        if (e == 0 || e >= order()) die("not a point");
        sl(a, e);
        return;
    }
    die("not the encoding of a point");
}
#define DEF(P, T, F)                                                                                        \
    extern "C" {                                                                                            \
    void P##_get_gen(T* g) { sl(g, 1); }                                                                    \
    int P##_is_infty(const T* a) { return lg(a) == 0; }                                                     \
    void P##_set_infty(T* a) { sl(a, 0); }                                                                  \
    void P##_copy(T* r, const T* p) { sl(r, lg(p)); }                                                       \
    int P##_cmp(const T* p, const T* q) { return lg(p) == lg(q) ? RLC_EQ : RLC_NE; }                        \
    void P##_rand(T* p) { rnd(p); }                                                                         \
    int P##_size_bin(const T* a, int pack) { return lg(a) == 0 ? 1 : 1 + (pack ? 1 : 2) * F; }              \
    void P##_read_bin(T* a, const uint8_t* bin, int len) { rd(a, bin, len, F); }                            \
    void P##_write_bin(uint8_t* bin, int len, const T* a, int pack) { wr(bin, len, a, pack, F); }           \
    void P##_neg(T* r, const T* p) { sl(r, -lg(p)); }                                                       \
    void P##_dbl(T* r, const T* p) { sl(r, lg(p) * 2); }                                                    \
    void P##_norm(T* r, const T* p) { sl(r, lg(p)); }                                                       \
    void P##_sub(T* r, const T* p, const T* q) { sl(r, lg(p) - lg(q)); }                                    \
    void P##_mul(T* r, const T* p, const bn_st* k) { sl(r, lg(p) * get(k)); }                               \
    void P##_mul_gen(T* r, const bn_st* k) { sl(r, get(k)); }                                               \
    void P##_map(T* p, const uint8_t* m, int n)                                                             \
    {                                                                                                       \
        uint8_t h[64];                                                                                      \
        crypto_hash_sha512(h, m, n);                                                                        \
        sl(p, pmod(eb(h, 64), order() - 1) + 1);                                                            \
    }                                                                                                       \
    }
DEF(g1, ep_st, RLC_FP_BYTES)
DEF(g2, ep2_st, 2 * RLC_FP_BYTES)
extern "C" {
void g1_add(ep_st* r, const ep_st* p, const ep_st* q) { sl(r, lg(p) + lg(q)); }
void ep2_add_projc(ep2_st* r, const ep2_st* p, const ep2_st* q) { sl(r, lg(p) + lg(q)); }

void gt_get_gen(fp12_st* g) { sl(g, 1); }
int gt_is_unity(const fp12_st* a) { return lg(a) == 0; }
void gt_set_unity(fp12_st* a) { sl(a, 0); }
void gt_copy(fp12_st* r, const fp12_st* a) { sl(r, lg(a)); }
int gt_cmp(const fp12_st* a, const fp12_st* b) { return lg(a) == lg(b) ? RLC_EQ : RLC_NE; }
void gt_rand(fp12_st* a) { rnd(a); }
int gt_size_bin(const fp12_st*, int pack) { return (pack ? 8 : 12) * RLC_FP_BYTES; }
void gt_write_bin(uint8_t* bin, int len, const fp12_st* a, int pack)
{
    if (len != gt_size_bin(a, pack)) die("wrong buffer for an element of GT");
    // every byte of the encoding depends on the element, as in the real group
    Z e = lg(a), x = e;
    for (int i = 0; i < len / RLC_FP_BYTES; i++) { be(bin + i * RLC_FP_BYTES, RLC_FP_BYTES, x); x = pmod(x * 5 + 3, order()); }
}
void gt_read_bin(fp12_st* a, const uint8_t* bin, int len)
{
    if (len != 8 * RLC_FP_BYTES && len != 12 * RLC_FP_BYTES) die("not the encoding of an element of GT");
    sl(a, eb(bin, RLC_FP_BYTES));
    uint8_t b[12 * RLC_FP_BYTES];
    gt_write_bin(b, len, a, len == 8 * RLC_FP_BYTES);
    if (memcmp(b, bin, len)) die("not the encoding of an element of GT");
}
void gt_mul(fp12_st* c, const fp12_st* a, const fp12_st* b) { sl(c, lg(a) + lg(b)); }
void gt_sqr(fp12_st* c, const fp12_st* a) { sl(c, lg(a) * 2); }
void gt_inv(fp12_st* c, const fp12_st* a) { sl(c, -lg(a)); }
void fp12_exp_cyc(fp12_st* c, const fp12_st* a, const bn_st* b) { sl(c, lg(a) * get(b)); }
void pp_map_oatep_k12(fp12_st* r, const ep_st* p, const ep2_st* q) { sl(r, lg(p) * lg(q)); }
}
