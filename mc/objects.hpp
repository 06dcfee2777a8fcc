// Every class the wrapper supports, with its reference serialization and a fingerprint of its behaviour.
#pragma once
#include "reftree.hpp"
#include "refaez.hpp"
#include "refwrap.hpp"
#include "rng.hpp"
#include "rsakeys.hpp"
#include "sse.hpp"

namespace mc { namespace objects {
using refwrap::nb;

inline std::string cap(const std::string& s) { return s.size() > 4096 ? s.substr(0, 4096) : s; }

struct KCipher
{
    typedef Cipher C;
    static const char* name() { return "Cipher"; }
    static uint8_t type() { return 1; }
    static std::string context() { return ""; }
    static int variants() { return 8; }
    static C make(int v) { return Cipher(mk<32>(v)); }
    static std::string content(int v) { return key_content(32, v); }
    static std::string behaviour(C& c, int v)
    {
        std::string o, x;
        Rng::get().reset(500 + v);
        c.encrypt("some message", o);
        std::string ct = ref::cipher_encrypt(key_content(32, v), mc::bytes(16, 9), "other message");
        c.decrypt(ct, x);
        return o + x;
    }
    static std::string expected(int v)
    {
        Rng r; r.reset(500 + v);
        std::string nonce(16, 0); r.bytes(u8(nonce), 16);
        return ref::cipher_encrypt(key_content(32, v), nonce, "some message") + "other message";
    }
};
template<uint16_t N> struct KPrf
{
    typedef Prf<N> C;
    static const char* name() { static std::string s = "Prf<" + std::to_string(N) + ">"; return s.c_str(); }
    static uint8_t type() { return 2; }
    static std::string context() { return nb(N); }
    static int variants() { return 8; }
    static C make(int v) { return Prf<N>(mk<32>(v)); }
    static std::string content(int v) { return key_content(32, v); }
    static std::string behaviour(C& c, int) { return str(c.prf("abc")) + str(c.prf(std::string())) + str(c.prf(std::string(200, 'x'))); }
    static std::string expected(int v) { std::string k = key_content(32, v); return ref::prf(k, "abc", N) + ref::prf(k, "", N) + ref::prf(k, std::string(200, 'x'), N); }
};
struct KPrg
{
    typedef Prg C;
    static const char* name() { return "Prg"; }
    static uint8_t type() { return 3; }
    static std::string context() { return ""; }
    static int variants() { return 8; }
    static C make(int v) { return Prg(mk<32>(v)); }
    static std::string content(int v) { return key_content(32, v); }
    static std::string behaviour(C& c, int) { return c.derive(100) + key_bytes(c.derive_key<20>(3)); }
    static std::string expected(int v) { std::string k = key_content(32, v); return ref::keystream(k, 0, 100) + ref::keystream(k, 60, 20); }
};
struct KPrp
{
    typedef Prp C;
    static const char* name() { return "Prp"; }
    static uint8_t type() { return 4; }
    static std::string context() { return ""; }
    static int variants() { return 8; }
    static C make(int v) { return Prp(mk<48>(v)); }
    static std::string content(int v)
    {
        std::string k = key_content(48, v), o;
        refaez::Aez a(k);
        for (unsigned m : {1, 2, 4}) { auto b = refaez::times(m, a.I); o.append((char*)&b[0], 16); }
        for (unsigned m : {1, 2, 4}) { auto b = refaez::times(m, a.J); o.append((char*)&b[0], 16); }
        return o + k.substr(32);
    }
    static std::string behaviour(C& c, int v)
    {
        refaez::Aez a(key_content(48, v));
        return c.encrypt(std::string("x")) + c.encrypt(std::string(25, 'y')) + c.encrypt(std::string(333, 'z')) + c.decrypt(a.encipher("the message")) + c.decrypt(a.encipher(std::string(77, 'm')));
    }
    static std::string expected(int v)
    {
        refaez::Aez a(key_content(48, v));
        return a.encipher("x") + a.encipher(std::string(25, 'y')) + a.encipher(std::string(333, 'z')) + "the message" + std::string(77, 'm');
    }
};
static const int RC_H[] = {2, 3, 4, 7, 20, 33, 63, 64};
template<uint16_t N> struct KRc
{
    typedef RCPrf<N> C;
    static const char* name() { static std::string s = "RCPrf<" + std::to_string(N) + ">"; return s.c_str(); }
    static uint8_t type() { return 5; }
    static std::string context() { return nb(N); }
    static int variants() { return 8; }
    static C make(int v) { return RCPrf<N>(mk<32>(v), (uint8_t)RC_H[v]); }
    static std::string content(int v) { return std::string(1, (char)RC_H[v]) + key_content(32, v); }
    static std::string behaviour(C& c, int v)
    {
        uint64_t M = (1ULL << (RC_H[v] - 1)) - 1;
        auto k = c.constrain(1, M);
        return cap(std::string(1, (char)c.tree_height()) + str(c.eval(0)) + str(c.eval(M)) + str(c.eval(M / 2)) + str(k.eval(1)) + str(k.eval(M)));
    }
    static std::string expected(int v)
    {
        RefTree t(key_content(32, v), RC_H[v]);
        uint64_t M = t.maxleaf();
        return cap(std::string(1, (char)RC_H[v]) + t.leaf(0, N) + t.leaf(M, N) + t.leaf(M / 2, N) + t.leaf(1, N) + t.leaf(M, N));
    }
};
struct Rg { int h; uint64_t a, b; };
static const Rg CRC[] = {{0, 0, 0}, {2, 0, 0}, {2, 1, 1}, {3, 1, 2}, {4, 1, 6}, {5, 0, 7}, {6, 5, 28}, {9, 3, 250}, {12, 1, 2046}, {33, 7, 1ULL << 31}, {64, 1, (1ULL << 63) - 2}, {64, 1ULL << 62, (1ULL << 63) - 1}};
template<uint16_t N> struct KCrc
{
    typedef ConstrainedRCPrf<N> C;
    static const char* name() { static std::string s = "ConstrainedRCPrf<" + std::to_string(N) + ">"; return s.c_str(); }
    static uint8_t type() { return 6; }
    static std::string context() { return nb(N); }
    static int variants() { return sizeof CRC / sizeof *CRC; }
    static C make(int v)
    {
        if (CRC[v].h == 0) return ConstrainedRCPrf<N>(std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>{});
        return RCPrf<N>(mk<32>(v), (uint8_t)CRC[v].h).constrain(CRC[v].a, CRC[v].b);
    }
    // canonical cover of [a,b] by subtrees, from left to right
    static std::string content(int v)
    {
        int h = CRC[v].h;
        std::string els; uint32_t n = 0;
        if (h) {
            RefTree t(key_content(32, v), h);
            uint64_t x = CRC[v].a, b = CRC[v].b;
            for (;;) {
                int k = 0; // the largest aligned block of 2^k leaves from x, inside the range
                while (k + 1 < h - 1 + 1 && (x & ((2ULL << k) - 1)) == 0 && x + ((2ULL << k) - 1) <= b) k++;
                uint64_t y = x + ((1ULL << k) - 1);
                uint8_t sh = (uint8_t)(k + 1);
                els += (char)sh; els.append((char*)&x, 8); els.append((char*)&y, 8);
                els += k == 0 ? t.leaf(x, N) : t.node(h - 1 - k, x >> k);
                n++;
                if (y == b) break;
                x = y + 1;
            }
        }
        return std::string(1, (char)h) + std::string((char*)&n, 4) + els;
    }
    static std::string behaviour(C& c, int v)
    {
        std::string o = std::string(1, (char)c.tree_height()) + (c.is_empty() ? "e" : "n");
        if (CRC[v].h == 0) { o += thrown([&] { c.eval(0); }); return o; }
        uint64_t a = CRC[v].a, b = CRC[v].b;
        o += std::to_string(c.min_leaf()) + std::to_string(c.max_leaf());
        o += str(c.eval(a)) + str(c.eval(b)) + str(c.eval(a + (b - a) / 2));
        c.eval_range(a, std::min(b, a + 5), [&](uint64_t i, const std::array<uint8_t, N>& x) { o += std::to_string(i) + str(x); });
        auto d = c.constrain(a + (b - a) / 3, b);
        o += str(d.eval(b));
        o += thrown([&] { c.eval(b + 1); });
        return cap(o);
    }
    static std::string expected(int v)
    {
        std::string o = std::string(1, (char)CRC[v].h) + (CRC[v].h == 0 ? "e" : "n");
        if (CRC[v].h == 0) return o + "out_of_range";
        uint64_t a = CRC[v].a, b = CRC[v].b;
        RefTree t(key_content(32, v), CRC[v].h);
        o += std::to_string(a) + std::to_string(b);
        o += t.leaf(a, N) + t.leaf(b, N) + t.leaf(a + (b - a) / 2, N);
        for (uint64_t i = a; i <= std::min(b, a + 5); i++) o += std::to_string(i) + t.leaf(i, N);
        o += t.leaf(b, N) + "out_of_range";
        return cap(o);
    }
};
struct KTdpi
{
    typedef TdpInverse C;
    static const char* name() { return "TdpInverse"; }
    static uint8_t type() { return 7; }
    static std::string context() { return ""; }
    static int variants() { return 4; }
    static C make(int v) { return TdpInverse(RSA_KEYS[v].priv); }
    static std::string content(int v) { return TdpInverse(RSA_KEYS[v].priv).private_key(); }
    static std::string msg() { std::string m = mc::bytes(256, 3); m[0] = 1; return m; }
    static std::string behaviour(C& c, int) { return c.private_key() + c.public_key() + c.eval(msg()) + c.eval(c.invert(msg())) + c.invert_mult(msg(), 3); }
    static std::string expected(int v) { TdpInverse t(RSA_KEYS[v].priv); Tdp p(RSA_KEYS[v].pub); return t.private_key() + p.public_key() + p.eval(msg()) + msg() + t.invert(t.invert(t.invert(msg()))); }
};
}} // namespace mc::objects
