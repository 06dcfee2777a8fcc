// Independent arithmetic of the Edwards curve -x^2 + y^2 = 1 + d x^2 y^2 over 2^255 - 19 (GMP, affine coordinates).
#pragma once
#include <gmp.h>
#include <string>

namespace mc { namespace refed {
struct Z
{
    mpz_t v;
    Z(long x = 0) { mpz_init_set_si(v, x); }
    Z(const Z& o) { mpz_init_set(v, o.v); }
    Z& operator=(const Z& o) { mpz_set(v, o.v); return *this; }
    ~Z() { mpz_clear(v); }
};
inline const Z& P() { static Z* p = [] { Z* z = new Z(1); mpz_mul_2exp(z->v, z->v, 255); mpz_sub_ui(z->v, z->v, 19); return z; }(); return *p; }
inline Z mod(Z a) { mpz_mod(a.v, a.v, P().v); return a; }
inline Z operator+(const Z& a, const Z& b) { Z r; mpz_add(r.v, a.v, b.v); return mod(r); }
inline Z operator-(const Z& a, const Z& b) { Z r; mpz_sub(r.v, a.v, b.v); return mod(r); }
inline Z operator*(const Z& a, const Z& b) { Z r; mpz_mul(r.v, a.v, b.v); return mod(r); }
inline Z inv(const Z& a) { Z r; mpz_invert(r.v, a.v, P().v); return r; }
inline bool operator==(const Z& a, const Z& b) { return mpz_cmp(a.v, b.v) == 0; }
inline const Z& D() { static Z* d = new Z(Z(-121665) * inv(Z(121666))); return *d; }

struct Pt { Z x, y; Pt() : x(0), y(1) {} };
inline Pt add(const Pt& a, const Pt& b)
{
    Pt r;
    Z t = D() * a.x * b.x * a.y * b.y;
    r.x = (a.x * b.y + b.x * a.y) * inv(Z(1) + t);
    r.y = (a.y * b.y + a.x * b.x) * inv(Z(1) - t);
    return r;
}
inline Pt neg(const Pt& a) { Pt r = a; r.x = mod(Z(0) - a.x); return r; }
inline std::string encode(const Pt& a)
{
    std::string s(32, 0);
    size_t n = 0;
    mpz_export(&s[0], &n, -1, 1, 0, 0, a.y.v);
    if (mpz_odd_p(a.x.v)) s[31] |= (char)0x80;
    return s;
}
// false: not the encoding of a point (or not its canonical one)
inline bool decode(const std::string& s, Pt& r)
{
    std::string b = s;
    int sign = (unsigned char)b[31] >> 7;
    b[31] &= 0x7f;
    mpz_import(r.y.v, 32, -1, 1, 0, 0, b.data());
    if (mpz_cmp(r.y.v, P().v) >= 0) return false;
    Z y2 = r.y * r.y, u = y2 - Z(1), v = D() * y2 + Z(1);
    Z x2 = u * inv(v), e, x;
    mpz_add_ui(e.v, P().v, 3); mpz_fdiv_q_2exp(e.v, e.v, 3);
    mpz_powm(x.v, x2.v, e.v, P().v);
    if (!(x * x == x2)) {
        Z i, h; mpz_sub_ui(h.v, P().v, 1); mpz_fdiv_q_2exp(h.v, h.v, 2);
        mpz_powm(i.v, Z(2).v, h.v, P().v);
        x = x * i;
        if (!(x * x == x2)) return false;
    }
    if (x == Z(0) && sign) return false;
    if (mpz_odd_p(x.v) != sign) x = Z(0) - x;
    r.x = x;
    return true;
}
inline Pt mul(const Z& k, Pt p)
{
    Pt r;
    for (size_t i = mpz_sizeinbase(k.v, 2); i-- > 0;) { r = add(r, r); if (mpz_tstbit(k.v, i)) r = add(r, p); }
    return r;
}
inline const Z& order() { static Z* l = [] { Z* z = new Z; mpz_set_str(z->v, "7237005577332262213973186563042994240857116359379907606001950938285454250989", 10); return z; }(); return *l; }
inline bool identity(const Pt& p) { return p.x == Z(0) && p.y == Z(1); }
inline bool main_subgroup(const Pt& p) { return identity(mul(order(), p)); }
}} // namespace mc::refed
