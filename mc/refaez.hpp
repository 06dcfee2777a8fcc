// Independent, portable AEZ v4.1 enciphering (16 zero bytes of nonce, no expansion), one block at a time and, for short
// strings, on sequences of nibbles; software AES rounds.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace mc { namespace refaez {
typedef std::array<uint8_t, 16> B;

inline const uint8_t* sbox()
{
    static uint8_t s[256]; static bool done = false;
    if (!done) {
        // generated from its definition: inversion in GF(2^8), then the affine map
        auto mul = [](unsigned a, unsigned b) { unsigned r = 0; while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 256) a ^= 0x11b; b >>= 1; } return r; };
        for (unsigned x = 0; x < 256; x++) {
            unsigned inv = 0;
            for (unsigned y = 1; y < 256 && x; y++) if (mul(x, y) == 1) { inv = y; break; }
            unsigned r = 0x63;
            for (int i = 0; i < 5; i++) r ^= ((inv << i) | (inv >> (8 - i))) & 255;
            s[x] = (uint8_t)r;
        }
        done = true;
    }
    return s;
}
inline B operator^(const B& a, const B& b) { B r; for (int i = 0; i < 16; i++) r[i] = a[i] ^ b[i]; return r; }
inline B zeroB() { B r; r.fill(0); return r; }
// x*2 in GF(2^128), big-endian
inline B dbl(const B& a)
{
    B r; int c = a[0] >> 7;
    for (int i = 0; i < 16; i++) r[i] = (uint8_t)((a[i] << 1) | (i < 15 ? a[i + 1] >> 7 : 0));
    if (c) r[15] ^= 0x87;
    return r;
}
inline B times(unsigned k, const B& a) { B r = zeroB(), p = a; for (; k; k >>= 1, p = dbl(p)) if (k & 1) r = r ^ p; return r; }
inline uint8_t xt(uint8_t x) { return (uint8_t)((x << 1) ^ ((x >> 7) * 0x1b)); }
inline B round(const B& s, const B& k)
{
    const uint8_t* S = sbox();
    B t, r;
    for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[4 * c + w] = S[s[4 * ((c + w) % 4) + w]];
    for (int c = 0; c < 4; c++) {
        const uint8_t* a = &t[4 * c];
        for (int w = 0; w < 4; w++)
            r[4 * c + w] = (uint8_t)(xt(a[w]) ^ xt(a[(w + 1) % 4]) ^ a[(w + 1) % 4] ^ a[(w + 2) % 4] ^ a[(w + 3) % 4]);
    }
    return r ^ k;
}

struct Aez
{
    B I, J, L, T; // T: hash of the tweak
    explicit Aez(const std::string& key48)
    {
        memcpy(&I[0], key48.data(), 16); memcpy(&J[0], key48.data() + 16, 16); memcpy(&L[0], key48.data() + 32, 16);
        // tweak vector (tau = 0, nonce = 0^128, empty associated data)
        B tau = zeroB(), nonce = zeroB(), ad = zeroB(); ad[0] = 0x80;
        B o1 = L ^ times(8, J), o2 = times(2, L) ^ times(8, J), o3 = times(4, L);
        T = (f(tau ^ o1) ^ o1) ^ (f(nonce ^ o2) ^ o2) ^ (f(ad ^ o3) ^ o3);
    }
    B f(B x) const { x = round(x, J); x = round(x, I); x = round(x, L); return round(x, zeroB()); }      // AES4, keys J I L 0
    B g(B x) const { x = round(x, L); x = round(x, I); x = round(x, J); return round(x, L); }           // AES4 of the second pass
    B E10(B x, const B& off) const
    {
        const B* k[3] = {&I, &J, &L};
        x = x ^ off;
        for (int i = 0; i < 10; i++) x = round(x, *k[i % 3]);
        return x;
    }
    B off(size_t pair) const
    {
        B o = times(8, I);
        for (size_t i = 0; i < pair / 8; i++) o = dbl(o);
        return o ^ times((unsigned)(pair % 8), I);
    }
    static B blk(const std::string& s, size_t at) { B b; memcpy(&b[0], s.data() + at, 16); return b; }
    static B pad10(const std::string& s) { B b = zeroB(); memcpy(&b[0], s.data(), s.size()); if (s.size() < 16) b[s.size()] = 0x80; return b; }
    static std::string st(const B& b, size_t n = 16) { return std::string((const char*)&b[0], n); }

    std::string core(const std::string& m) const
    {
        size_t frag = m.size() % 32, init = m.size() - frag - 32, pairs = init / 32;
        std::vector<B> W(pairs), X(pairs);
        std::vector<B> offs(pairs);
        B base = times(8, I);
        for (size_t i = 0; i < pairs; i++) { if (i && i % 8 == 0) base = dbl(base); offs[i] = base ^ times((unsigned)(i % 8), I); }
        B x = zeroB();
        for (size_t i = 0; i < pairs; i++) {
            B a = blk(m, 32 * i), b = blk(m, 32 * i + 16);
            W[i] = a ^ f(b ^ offs[i]);
            X[i] = b ^ f(W[i]);
            x = x ^ X[i];
        }
        std::string fr = m.substr(init, frag), fu = fr.substr(0, frag < 16 ? frag : 16), fv = frag > 16 ? fr.substr(16) : "";
        B I4 = times(4, I), I5 = times(5, I);
        if (frag >= 16) x = x ^ f(pad10(fu) ^ I4) ^ f(pad10(fv) ^ I5);
        else if (frag) x = x ^ f(pad10(fu) ^ I4);
        B a = blk(m, m.size() - 32), b = blk(m, m.size() - 16);
        B Sx = a ^ x ^ T ^ f(b ^ I);
        B Sy = b ^ E10(Sx, J);
        B S = Sx ^ Sy;
        B cy = Sx ^ E10(Sy, times(2, J));
        B cx = Sy ^ f(cy ^ times(2, I));
        std::string out;
        B y = zeroB();
        for (size_t i = 0; i < pairs; i++) {
            B t = g(S ^ offs[i]);
            B Y = W[i] ^ t, Z = X[i] ^ t;
            B c2 = Y ^ f(Z), c1 = Z ^ f(c2 ^ offs[i]);
            y = y ^ Y;
            out += st(c1) + st(c2);
        }
        if (frag >= 16) {
            B u = pad10(fu) ^ E10(S, times(4, J));
            std::string v = st(pad10(fv) ^ E10(S, times(5, J)), frag - 16);
            y = y ^ f(u ^ I4) ^ f(pad10(v) ^ I5);
            out += st(u) + v;
        } else if (frag) {
            std::string u = st(pad10(fu) ^ E10(S, times(4, J)), frag);
            y = y ^ f(pad10(u) ^ I4);
            out += u;
        }
        return out + st(cx ^ y ^ T) + st(cy);
    }
    // on nibbles: the two halves of a string of n bytes have n nibbles each
    std::string tiny(const std::string& m) const
    {
        size_t n = m.size();
        std::vector<int> nib;
        for (unsigned char c : m) { nib.push_back(c >> 4); nib.push_back(c & 15); }
        std::vector<int> l(nib.begin(), nib.begin() + n), r(nib.begin() + n, nib.end());
        int rounds = n >= 16 ? 8 : n >= 3 ? 10 : n == 2 ? 16 : 24;
        B o = times(n >= 16 ? 6 : 7, I);
        for (int j = 0; j < rounds; j++) {
            B p = zeroB();
            for (size_t i = 0; i < n; i++) p[i / 2] |= (uint8_t)(r[i] << (i % 2 ? 0 : 4));
            p[n / 2] |= (n % 2) ? 0x08 : 0x80;
            p[15] ^= (uint8_t)j;
            B e = f(p ^ T ^ o);
            std::vector<int> nr(n);
            for (size_t i = 0; i < n; i++) nr[i] = l[i] ^ ((e[i / 2] >> (i % 2 ? 0 : 4)) & 15);
            l = r; r = nr;
        }
        std::string c(n, 0);
        for (size_t i = 0; i < 2 * n; i++) { int v = i < n ? r[i] : l[i - n]; c[i / 2] |= (char)(v << (i % 2 ? 0 : 4)); }
        if (n < 16) {
            B p = zeroB(); memcpy(&p[0], c.data(), n); p[0] |= 0x80;
            c[0] ^= (char)(f(p ^ T ^ times(3, I))[0] & 0x80);
        }
        return c;
    }
    std::string encipher(const std::string& m) const { return m.empty() ? m : m.size() < 32 ? tiny(m) : core(m); }
};
}} // namespace mc::refaez
