// A stand-in for the RELIC pairing library, which is not installed here: the part of its interface that src/ppke uses (and its
// neighbours), on a transparent group.  An element of G1, G2 or GT is represented by its discrete logarithm modulo the order of BN-P254,
// the pairing multiplies the logarithms: every law of a bilinear group of prime order holds, and two elements are equal, serialised
// equally or paired to the same result exactly when they would be in the real groups up to the choice of encoding.  As in RELIC, some
// operations are macros that end in a semicolon.
#pragma once
#include "relic_conf.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define RLC_OK 0
#define RLC_ERR 1
#define RLC_LT -1
#define RLC_EQ 0
#define RLC_GT 1
#define RLC_NE 2
#define RLC_POS 0
#define RLC_NEG 1
#define RLC_MIN(A, B) ((A) < (B) ? (A) : (B))
#define RLC_MAX(A, B) ((A) > (B) ? (A) : (B))
#define RLC_CEIL(A, B) (((A)-1) / (B) + 1)
#define RLC_DIG 64
#define RLC_BN_DIGS (RLC_BN_BITS / 64)
#define RLC_BN_SIZE (2 * RLC_BN_DIGS + 2)
#define RLC_MD_LEN 32
typedef uint64_t dig_t;
typedef struct { int alloc; int used; int sign; dig_t dp[RLC_BN_SIZE]; } bn_st;
typedef bn_st bn_t[1];
typedef struct { dig_t e[4]; } ep_st;   // the logarithm of a point of G1
typedef ep_st ep_t[1];
typedef struct { dig_t e[4]; } ep2_st;  // of G2
typedef ep2_st ep2_t[1];
typedef struct { dig_t e[4]; } fp12_st; // of GT
typedef fp12_st fp12_t[1];
typedef ep_t g1_t;
typedef ep2_t g2_t;
typedef fp12_t gt_t;
typedef struct { int code; } ctx_t;

int core_init(void);
int core_clean(void);
ctx_t* core_get(void);
int pc_param_set_any(void);

// as in RELIC with ALLOC = AUTO: nothing, except that new integers are cleared
#define bn_null(A) /* empty */
void bn_init(bn_st* a, int digits);
#define bn_new(A) bn_init((bn_st*)(A), RLC_BN_SIZE);
#define bn_free(A) /* empty */
void bn_clean(bn_st* a);
void bn_copy(bn_st* c, const bn_st* a);
void bn_abs(bn_st* c, const bn_st* a);
void bn_neg(bn_st* c, const bn_st* a);
int bn_sign(const bn_st* a);
void bn_zero(bn_st* a);
int bn_is_zero(const bn_st* a);
int bn_is_even(const bn_st* a);
int bn_bits(const bn_st* a);
int bn_get_bit(const bn_st* a, int bit);
void bn_set_bit(bn_st* a, int bit, int value);
void bn_set_dig(bn_st* a, dig_t d);
void bn_get_dig(dig_t* d, const bn_st* a);
void bn_rand(bn_st* a, int sign, int bits);
void bn_rand_mod(bn_st* a, bn_st* b);
int bn_size_str(const bn_st* a, int radix);
void bn_read_str(bn_st* a, const char* str, int len, int radix);
void bn_write_str(char* str, int len, const bn_st* a, int radix);
int bn_size_bin(const bn_st* a);
void bn_read_bin(bn_st* a, const uint8_t* bin, int len);
void bn_write_bin(uint8_t* bin, int len, const bn_st* a);
int bn_cmp_abs(const bn_st* a, const bn_st* b);
int bn_cmp_dig(const bn_st* a, dig_t b);
int bn_cmp(const bn_st* a, const bn_st* b);
void bn_add(bn_st* c, const bn_st* a, const bn_st* b);
void bn_add_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_sub(bn_st* c, const bn_st* a, const bn_st* b);
void bn_sub_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_mul(bn_st* c, const bn_st* a, const bn_st* b);
void bn_mul_dig(bn_st* c, const bn_st* a, dig_t b);
void bn_sqr(bn_st* c, const bn_st* a);
void bn_dbl(bn_st* c, const bn_st* a);
void bn_hlv(bn_st* c, const bn_st* a);
void bn_lsh(bn_st* c, const bn_st* a, int bits);
void bn_rsh(bn_st* c, const bn_st* a, int bits);
void bn_div(bn_st* c, const bn_st* a, const bn_st* b);
void bn_mod(bn_st* c, const bn_st* a, const bn_st* m);
void bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m);
void bn_gcd(bn_st* c, const bn_st* a, const bn_st* b);
void bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b);
void bn_mod_inv(bn_st* c, const bn_st* a, const bn_st* m);

void md_map_sh256(uint8_t* hash, const uint8_t* msg, int len);
void rand_bytes(uint8_t* buf, int size);

#define g1_null(A) /* empty */
#define g1_new(A) /* empty */
#define g1_free(A) /* empty */
#define g2_null(A) /* empty */
#define g2_new(A) /* empty */
#define g2_free(A) /* empty */
#define gt_null(A) /* empty */
#define gt_new(A) /* empty */
#define gt_free(A) /* empty */

void g1_get_ord(bn_st* n);
void g2_get_ord(bn_st* n);
void gt_get_ord(bn_st* n);
#define MC_POINTS(P, T)                                       \
    void P##_get_gen(T* g);                                    \
    int P##_is_infty(const T* a);                              \
    void P##_set_infty(T* a);                                  \
    void P##_copy(T* r, const T* p);                           \
    int P##_cmp(const T* p, const T* q);                       \
    void P##_rand(T* p);                                       \
    int P##_size_bin(const T* a, int pack);                    \
    void P##_read_bin(T* a, const uint8_t* bin, int len);      \
    void P##_write_bin(uint8_t* bin, int len, const T* a, int pack); \
    void P##_neg(T* r, const T* p);                            \
    void P##_dbl(T* r, const T* p);                            \
    void P##_norm(T* r, const T* p);                           \
    void P##_sub(T* r, const T* p, const T* q);                \
    void P##_mul(T* r, const T* p, const bn_st* k);            \
    void P##_mul_gen(T* r, const bn_st* k);                    \
    void P##_map(T* p, const uint8_t* msg, int len);
MC_POINTS(g1, ep_st)
MC_POINTS(g2, ep2_st)
void g1_add(ep_st* r, const ep_st* p, const ep_st* q);
void ep2_add_projc(ep2_st* r, const ep2_st* p, const ep2_st* q);
#define g2_add(R, P, Q) ep2_add_projc(R, P, Q);

void gt_get_gen(fp12_st* g);
int gt_is_unity(const fp12_st* a);
void gt_set_unity(fp12_st* a);
void gt_copy(fp12_st* r, const fp12_st* a);
int gt_cmp(const fp12_st* a, const fp12_st* b);
void gt_rand(fp12_st* a);
int gt_size_bin(const fp12_st* a, int pack);
void gt_read_bin(fp12_st* a, const uint8_t* bin, int len);
void gt_write_bin(uint8_t* bin, int len, const fp12_st* a, int pack);
void gt_mul(fp12_st* c, const fp12_st* a, const fp12_st* b);
void gt_sqr(fp12_st* c, const fp12_st* a);
void gt_inv(fp12_st* c, const fp12_st* a);
void fp12_exp_cyc(fp12_st* c, const fp12_st* a, const bn_st* b);
#define gt_exp(C, A, B) fp12_exp_cyc(C, A, B);
void pp_map_oatep_k12(fp12_st* r, const ep_st* p, const ep2_st* q);
#define pp_map_k12(R, P, Q) pp_map_oatep_k12(R, P, Q)
#define pc_map(R, P, Q) pp_map_oatep_k12(R, P, Q);
