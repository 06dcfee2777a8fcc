// RSA model over GMP, key material of unusual shapes, and an independent DER/PEM writer.
#pragma once
#include "rsakeys.hpp"
#include "sse.hpp"
#include <gmpxx.h>
#include <map>
#include <memory>

namespace mc { namespace rsa {

inline mpz_class num(const std::string& be) { mpz_class x; mpz_import(x.get_mpz_t(), be.size(), 1, 1, 1, 0, be.data()); return x; }
inline std::string be(const mpz_class& x, size_t n)
{
    std::string s(n, 0); size_t c = 0;
    if (x == 0) return s;
    size_t need = (mpz_sizeinbase(x.get_mpz_t(), 2) + 7) / 8;
    if (need > n) return "too large";
    mpz_export(&s[n - need], &c, 1, 1, 1, 0, x.get_mpz_t());
    return s;
}
inline mpz_class powm(const mpz_class& b, const mpz_class& e, const mpz_class& n) { mpz_class r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), n.get_mpz_t()); return r; }
inline mpz_class inv(const mpz_class& a, const mpz_class& n) { mpz_class r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t()); return r; }
inline mpz_class two(unsigned k) { return mpz_class(1) << k; }

// ---- DER and PEM, written from X.690, RFC 8017 and RFC 7468 ----
inline std::string tlv(int tag, const std::string& body)
{
    std::string o(1, (char)tag); size_t n = body.size();
    if (n < 128) o += (char)n;
    else { std::string l; while (n) { l.insert(l.begin(), (char)(n & 255)); n >>= 8; } o += (char)(0x80 | l.size()); o += l; }
    return o + body;
}
inline std::string integer(const mpz_class& x)
{
    size_t n = x == 0 ? 1 : (mpz_sizeinbase(x.get_mpz_t(), 2) + 7) / 8;
    std::string s = be(x, n);
    if (s[0] & 0x80) s.insert(s.begin(), 0);
    return tlv(2, s);
}
inline std::string b64(const std::string& s, const char* eol = "\n")
{
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; size_t col = 0;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = (unsigned char)s[i] << 16; size_t k = std::min<size_t>(3, s.size() - i);
        if (k > 1) v |= (unsigned char)s[i + 1] << 8;
        if (k > 2) v |= (unsigned char)s[i + 2];
        o += T[v >> 18]; o += T[v >> 12 & 63]; o += k > 1 ? T[v >> 6 & 63] : '='; o += k > 2 ? T[v & 63] : '=';
        if ((col += 4) == 64 && i + 3 < s.size()) { o += eol; col = 0; }
    }
    return o;
}
inline std::string pem(const std::string& label, const std::string& der, const char* eol = "\n")
{
    return "-----BEGIN " + label + "-----" + eol + b64(der, eol) + eol + "-----END " + label + "-----" + eol;
}
struct Key
{
    mpz_class n, e, d, p, q, dp, dq, qp, lambda;
    std::string what;
    std::string priv_der(int version = 0) const
    {
        return tlv(0x30, integer(version) + integer(n) + integer(e) + integer(d) + integer(p) + integer(q) + integer(dp) + integer(dq) + integer(qp));
    }
    std::string pub_pkcs1() const { return tlv(0x30, integer(n) + integer(e)); }
    static std::string alg() { return tlv(0x30, tlv(6, std::string("\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01", 9)) + tlv(5, "")); }
    std::string pub_der() const { return tlv(0x30, alg() + tlv(3, std::string(1, 0) + pub_pkcs1())); }
    std::string pkcs8_der() const { return tlv(0x30, integer(0) + alg() + tlv(4, priv_der())); }
    std::string priv() const { return pem("RSA PRIVATE KEY", priv_der()); }
    std::string pub() const { return pem("PUBLIC KEY", pub_der()); }
    void finish()
    {
        n = p * q;
        mpz_class p1 = p - 1, q1 = q - 1;
        mpz_lcm(lambda.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
        d = inv(e, p1 * q1); // as mbedTLS and older OpenSSL: modulo phi
        dp = d % p1; dq = d % q1; qp = inv(q, p);
    }
    mpz_class eval(const mpz_class& x, unsigned k = 1) const
    {
        mpz_class r = x % n;
        for (unsigned i = 0; i < k; i++) r = powm(r, e, n);
        return r;
    }
    mpz_class invert(const mpz_class& x, unsigned long k = 1) const
    {
        if (k == 0) return x;
        mpz_class ex; mpz_powm_ui(ex.get_mpz_t(), d.get_mpz_t(), k, lambda.get_mpz_t());
        return powm(x % n, ex, n);
    }
};
inline mpz_class prime(mpz_class from, const mpz_class& e)
{
    mpz_class r, g;
    for (;;) {
        mpz_nextprime(r.get_mpz_t(), from.get_mpz_t());
        mpz_class m = r - 1; mpz_gcd(g.get_mpz_t(), m.get_mpz_t(), e.get_mpz_t());
        if (g == 1) return r;
        from = r;
    }
}
inline mpz_class labelled(unsigned bits, uint64_t label) // exactly `bits` bits, the two highest set
{
    mpz_class x = num(mc::bytes((bits + 7) / 8, label)) % two(bits - 2);
    return x + two(bits - 1) + two(bits - 2);
}
enum { NKEYS = 11 };
inline const Key& key(int i)
{
    static std::unique_ptr<Key> cache[NKEYS];
    if (cache[i]) return *cache[i];
    Key k;
    if (i < 4) {
        const RsaKey& r = RSA_KEYS[i];
        k.e = mpz_class(r.e, 16); k.p = mpz_class(r.p, 16); k.q = mpz_class(r.q, 16);
        k.what = "openssl";
    } else switch (i) {
        case 4: { const Key& o = key(0); k.e = o.e; k.p = o.q; k.q = o.p; k.what = "p<q"; break; }
        case 5: k.e = 17; k.p = prime(labelled(1024, 61), k.e); k.q = prime(labelled(1024, 62), k.e); k.what = "e=17"; break;
        case 6: k.e = 65537; k.p = prime(two(1024) - (two(400) - 1), k.e); k.q = prime(two(1024) - two(300), k.e); k.what = "modulus near 2^2048"; break;
        case 7: { k.e = 65537; mpz_class r; mpz_sqrt(r.get_mpz_t(), two(2047).get_mpz_t()); k.p = prime(r + 1, k.e); k.q = prime(k.p, k.e); k.what = "modulus near 2^2047, close primes"; break; }
        case 8: k.e = two(32) + 15; k.p = prime(labelled(1024, 63), k.e); k.q = prime(labelled(1024, 64), k.e); k.what = "33-bit exponent"; break;
        case 9: k.e = 65537; k.p = prime(labelled(1100, 65), k.e); k.q = prime(labelled(948, 66), k.e); k.what = "primes of different lengths"; break;
        case 10: k.e = two(100) + 277; if (mpz_even_p(k.e.get_mpz_t())) k.e += 1; k.p = prime(labelled(1024, 67), k.e); k.q = prime(labelled(1024, 68), k.e); k.what = "101-bit exponent"; break;
    }
    k.finish();
    cache[i].reset(new Key(k));
    return *cache[i];
}
// Messages: boundary values of the modulus, its factors, and the encoding.
inline std::vector<mpz_class> messages(const Key& k)
{
    std::vector<mpz_class> v;
    mpz_class n = k.n, top = two(2048) - 1;
    for (int i = 0; i <= 5; i++) { v.push_back(i); v.push_back(n - 1 - i); }
    for (const mpz_class& f : {k.p, k.q}) {
        v.push_back(f); v.push_back(f - 1); v.push_back(f + 1); v.push_back(2 * f); v.push_back(n - f); v.push_back((n / f - 1) * f); v.push_back(f * f % n); v.push_back(f * 12345);
    }
    v.push_back(n / 2); v.push_back(n / 2 + 1); v.push_back(n / 3);
    for (unsigned b : {7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 1023, 1024, 1025, 2039, 2040, 2046}) { v.push_back(two(b) % n); v.push_back((two(b) - 1) % n); }
    for (int i = 0; i < 6; i++) v.push_back(num(mc::bytes(256, 700 + i)) % n);
    v.push_back(num(std::string(5, 0) + mc::bytes(251, 710)) % n);
    v.push_back(num(std::string(1, 1) + std::string(254, 0) + std::string(1, 1)) % n);
    return v;
}
// representable values that are not reduced
inline std::vector<mpz_class> unreduced(const Key& k)
{
    std::vector<mpz_class> v; mpz_class top = two(2048) - 1;
    for (const mpz_class& x : {mpz_class(k.n), mpz_class(k.n + 1), mpz_class(k.n + 2), mpz_class(top), mpz_class(top - 1), mpz_class(k.n + k.p), mpz_class(k.n + two(1000)), mpz_class(k.n + (top - k.n) / 2)})
        if (x <= top && x >= k.n) v.push_back(x);
    return v;
}
template<class A> A arr(const std::string& s) { A a; memcpy(a.data(), s.data(), a.size()); return a; }
typedef std::array<uint8_t, 256> Msg;
inline Msg amsg(const mpz_class& x) { return arr<Msg>(be(x, 256)); }
}} // namespace mc::rsa
