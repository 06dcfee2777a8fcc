// The public operations of the library as a finite alphabet over a small world of objects. Each operation returns a fingerprint of its
// result (an exception is part of the result); with the random generator reset before each operation, the result depends on the world only.
// No operation copies a key into the harness' own memory.
#pragma once
#include "ref.hpp"
#include "rng.hpp"
#include "rsakeys.hpp"
#include "sse.hpp"
#include "hash/sha512.hpp"
#include "hash/blake2b.hpp"
#include <memory>

namespace mc { namespace ops {

// a key whose bytes are never in heap memory
template<size_t N> Key<N> skey(uint64_t label)
{
    uint8_t b[N];
    fill(b, N, 0xC0DE00 + label);
    return Key<N>(b);
}
template<size_t N> Key<N> emptied() { Key<N> k = skey<N>(999), l(std::move(k)); return k; }

struct World
{
    std::unique_ptr<Cipher> c;
    std::unique_ptr<Prf<32>> p32; std::unique_ptr<Prf<100>> p100; std::unique_ptr<Prf<264>> prsa;
    std::unique_ptr<HMac<Hash, 32>> hb; std::unique_ptr<HMac<hash::sha512, 20>> hs;
    std::unique_ptr<Prg> g; std::unique_ptr<Prp> pp;
    std::unique_ptr<RCPrf<16>> rc; std::unique_ptr<ConstrainedRCPrf<16>> crc; std::unique_ptr<RCPrf<70>> rc2; // heights 5, 5, 3
    std::unique_ptr<Wrapper> w;
    std::unique_ptr<SetHash> sh;
    std::unique_ptr<Tdp> t; std::unique_ptr<TdpInverse> ti; std::unique_ptr<TdpMultPool> pool; int rsa = 0;
    enum { SYM = 1, RC = 2, TDP = 4, ALL = 7 };
    // label: distinguishes the keys of two worlds
    World(uint64_t label, int what = SYM | RC)
    {
        label *= 100;
        rsa = (int)(label / 100 % 2);
        w.reset(new Wrapper(skey<32>(label + 12)));
        prsa.reset(new Prf<264>(skey<32>(label + 4)));
        sh.reset(new SetHash);
        if (what & SYM) {
            c.reset(new Cipher(skey<32>(label + 1)));
            p32.reset(new Prf<32>(skey<32>(label + 2)));
            p100.reset(new Prf<100>(skey<32>(label + 3)));
            hb.reset(new HMac<Hash, 32>(skey<32>(label + 5)));
            hs.reset(new HMac<hash::sha512, 20>(skey<20>(label + 6)));
            g.reset(new Prg(skey<32>(label + 7)));
            pp.reset(new Prp(skey<48>(label + 8)));
        }
        if (what & RC) {
            rc.reset(new RCPrf<16>(skey<32>(label + 9), 5));
            crc.reset(new ConstrainedRCPrf<16>(rc->constrain(2, 13)));
            rc2.reset(new RCPrf<70>(skey<32>(label + 10), 3));
        }
        if (what & TDP) {
            t.reset(new Tdp(RSA_KEYS[rsa].pub));
            ti.reset(new TdpInverse(RSA_KEYS[rsa].priv));
            pool.reset(new TdpMultPool(RSA_KEYS[rsa].pub, 3));
        }
    }
};

enum { OK = 0, FAIL = 1 /* documented to throw */, MOVE = 2 /* rebuilds an object of the world with the same behaviour */, SLOW = 4 };
struct Op { std::string name; int needs, flags; std::string (*f)(World&); };

inline std::string hx(const std::string& s) { return hex(s, 1 << 20); }
template<class F> std::string rng_of(F f) { std::string o; f(o); return o; }
inline std::string msg256(int l) { std::string m = mc::bytes(256, 40 + l); m[0] = 1; return m; }

inline const std::vector<Op>& all()
{
    static std::vector<Op>* v = nullptr;
    if (v) return *v;
    v = new std::vector<Op>;
#define OP(name, needs, flags, ...) v->push_back({name, World::needs, flags, [](World& W) -> std::string { __VA_ARGS__ }})
    // --- cipher
    OP("cipher.encrypt", SYM, OK, std::string o; W.c->encrypt("twenty bytes of text", o); return o;);
    OP("cipher.encrypt.long", SYM, OK, std::string o; W.c->encrypt(std::string(5000, 'q'), o); return o;);
    OP("cipher.encrypt.array", SYM, OK, std::array<uint8_t, 33> a{}; std::array<uint8_t, 65> o{}; W.c->encrypt(a, o); return str(o););
    OP("cipher.roundtrip", SYM, OK, std::string o; std::string q; W.c->encrypt("round trip", o); W.c->decrypt(o, q); return q;);
    OP("cipher.roundtrip.array", SYM, OK, std::array<uint8_t, 40> a{}; std::array<uint8_t, 40> b{}; a[3] = 9; std::array<uint8_t, 72> o{}; W.c->encrypt(a, o); W.c->decrypt<40>(o, b); return str(b););
    OP("cipher.encrypt.inplace", SYM, OK, std::string o = "in place"; W.c->encrypt(o, o); return o;);
    OP("cipher.encrypt.empty", SYM, FAIL, std::string o = "keep"; try { W.c->encrypt("", o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("cipher.decrypt.short", SYM, FAIL, std::string o = "keep"; try { W.c->decrypt(std::string(32, 'x'), o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("cipher.decrypt.none", SYM, FAIL, std::string o = "keep"; try { W.c->decrypt("", o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("cipher.decrypt.bad", SYM, FAIL, std::string o = "keep"; try { W.c->decrypt(std::string(60, 'x'), o); } catch (const std::runtime_error&) { return o + "!"; } return o;);
    OP("cipher.decrypt.flip", SYM, FAIL, std::string x; std::string o = "keep"; W.c->encrypt("message", x); x[x.size() / 2] ^= 4; try { W.c->decrypt(x, o); } catch (const std::runtime_error&) { return o + "!"; } return o;);
    OP("cipher.decrypt.array.bad", SYM, FAIL, std::array<uint8_t, 42> x{}; std::array<uint8_t, 10> o{}; try { W.c->decrypt<10>(x, o); } catch (const std::runtime_error&) { return "!"; } return "accepted";);
    OP("cipher.random", SYM, OK, Cipher d{Key<32>()}; std::string o; d.encrypt("x", o); return o;);
    OP("cipher.move", SYM, MOVE, std::unique_ptr<Cipher> d(new Cipher(std::move(*W.c))); W.c = std::move(d); return "";);
    OP("cipher.moved-from", SYM, FAIL, Cipher a(skey<32>(1)); Cipher b(std::move(a)); std::string o = "keep"; try { a.encrypt("m", o); } catch (const std::exception&) { return o + "!"; } return o;);
    OP("cipher.moved-from.decrypt", SYM, FAIL, Cipher a(skey<32>(1)); std::string x; a.encrypt("m", x); Cipher b(std::move(a)); std::string o = "keep"; try { a.decrypt(x, o); } catch (const std::exception&) { return o + "!"; } return o;);
    OP("cipher.wrap", SYM, OK, return hx(std::string(1, 1)) + [&] { auto r = W.w->wrap(*W.c); return std::string(r.begin(), r.end()); }(););
    OP("cipher.rewrap", SYM, MOVE, auto r = W.w->wrap(*W.c); W.c.reset(new Cipher(W.w->unwrap<Cipher>(r))); return std::string(r.begin(), r.end()););
    // --- PRF, HMAC, hash
    OP("prf32", SYM, OK, return str(W.p32->prf("some input")););
    OP("prf32.empty", SYM, OK, return str(W.p32->prf(std::string())););
    OP("prf32.array", SYM, OK, std::array<uint8_t, 30> a{}; a[9] = 1; return str(W.p32->prf(a)););
    OP("prf100", SYM, OK, return str(W.p100->prf(std::string(200, 'i'))););
    OP("prf32.null", SYM, FAIL, try { W.p32->prf(nullptr, 4); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prf100.null", SYM, FAIL, try { W.p100->prf(nullptr, 4); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prf32.derive_key", SYM, OK, return str(Prf<16>(W.p32->derive_key("label")).prf("x")););
    OP("prf32.derive_key.array", SYM, OK, std::array<uint8_t, 5> a{}; Key<32> k = W.p32->derive_key(a); Prg d(std::move(k)); return d.derive(10););
    OP("prf100.derive_key", SYM, OK, Key<100> k = W.p100->derive_key("label"); HMac<Hash, 100> h(std::move(k)); return str(h.hmac("x")););
    OP("prf32.derive_key.null", SYM, FAIL, try { W.p32->derive_key(nullptr, 4); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prf.move", SYM, MOVE, Prf<32> d(std::move(*W.p32)); *W.p32 = std::move(d); return "";);
    OP("prf.moved-from", SYM, FAIL, Prf<32> a(skey<32>(1)); Prf<32> b(std::move(a)); try { a.prf("m"); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prf.long.moved-from", SYM, FAIL, Prf<100> a(skey<32>(1)); Prf<100> b(std::move(a)); try { a.prf("m"); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prf.empty-key", SYM, FAIL, Key<32> k = emptied<32>(); try { Prf<32> a(std::move(k)); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prf.rewrap", SYM, MOVE, auto r = W.w->wrap(*W.p32); W.p32.reset(new Prf<32>(W.w->unwrap<Prf<32>>(r))); auto q = W.w->wrap(*W.p100); W.p100.reset(new Prf<100>(W.w->unwrap<Prf<100>>(q))); return std::string(r.begin(), r.end()););
    OP("prf32.wrap", SYM, OK, auto r = W.w->wrap(*W.p32); return std::string(r.begin(), r.end()););
    OP("prf100.wrap", SYM, OK, auto r = W.w->wrap(*W.p100); return std::string(r.begin(), r.end()););
    OP("prf.random", SYM, OK, Prf<20> p; return str(p.prf("x")););
    OP("hmac.blake2b", SYM, OK, return str(W.hb->hmac("hmac input")););
    OP("hmac.sha512", SYM, OK, return str(W.hs->hmac(std::string(130, 'h'))););
    OP("hmac.truncated", SYM, OK, std::string o(20, 0); W.hb->hmac(u8(std::string("in")), 2, u8(o), 20); return o;);
    OP("hmac.toolong", SYM, FAIL, std::string o(80, 'k'); try { W.hb->hmac(u8(std::string("in")), 2, u8(o), 65); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("hmac.null-in", SYM, FAIL, std::string o(64, 'k'); try { W.hb->hmac(nullptr, 2, u8(o), 64); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("hmac.null-out", SYM, FAIL, try { W.hb->hmac(u8(std::string("in")), 2, nullptr, 64); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("hmac.empty-key", SYM, FAIL, Key<32> k = emptied<32>(); try { HMac<Hash, 32> a(std::move(k)); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("hmac.moved-from", SYM, FAIL, HMac<Hash, 32> a(skey<32>(3)); HMac<Hash, 32> b(std::move(a)); try { a.hmac("x"); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("hmac.move", SYM, MOVE, HMac<Hash, 32> d(std::move(*W.hb)); *W.hb = std::move(d); return "";);
    OP("hash", SYM, OK, return Hash::hash("hash input") + Hash::hash("x", 10););
    OP("hash.toolong", SYM, FAIL, std::string o = "keep"; try { Hash::hash("x", 65, o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    // --- PRG
    OP("prg.derive", SYM, OK, return W.g->derive(100););
    OP("prg.derive.offset", SYM, OK, return W.g->derive(37, 200););
    OP("prg.derive.none", SYM, OK, std::string o = "x"; W.g->derive(0, o); return o;);
    OP("prg.derive.pointer", SYM, OK, std::string o(70, 0); W.g->derive(130, 70, u8(o)); return o;);
    OP("prg.derive.null", SYM, FAIL, try { W.g->derive(0, 5, (unsigned char*)nullptr); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prg.derive_key", SYM, OK, return str(Prf<16>(W.g->derive_key<32>(3)).prf("x")););
    OP("prg.derive_key.other", SYM, OK, return str(HMac<Hash, 50>(W.g->derive_key<50>(3)).hmac("x")););
    OP("prg.derive_keys", SYM, OK, std::string o; auto ks = W.g->derive_keys<32>(4, 2); for (auto& k : ks) o += Prg(std::move(k)).derive(8); return o;);
    OP("prg.derive_keys.none", SYM, OK, return std::to_string(W.g->derive_keys<32>(0).size()););
    OP("prg.static", SYM, OK, return Prg::derive(skey<32>(70), 10, 90););
    OP("prg.static.string", SYM, OK, std::string o; Prg::derive(skey<32>(71), 40, o); std::string q; Prg::derive(skey<32>(71), 5, 40, q); return o + q;);
    OP("prg.static.array", SYM, OK, std::array<uint8_t, 20> o; Prg::derive<20>(skey<32>(72), 61, o); return str(o););
    OP("prg.static.derive_key", SYM, OK, return str(Prf<16>(Prg::derive_key<32>(skey<32>(73), 2)).prf("x")););
    OP("prg.static.derive_keys", SYM, OK, std::string o; auto ks = Prg::derive_keys<32>(skey<32>(74), 3, 1); for (auto& k : ks) o += Prg(std::move(k)).derive(8); return o;);
    OP("prg.static.null", SYM, FAIL, try { Prg::derive(skey<32>(75), 0, 5, (unsigned char*)nullptr); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prg.static.empty-key", SYM, FAIL, try { Prg::derive(emptied<32>(), 0, 5); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prg.static.empty-key.string", SYM, FAIL, std::string o = "keep"; try { Prg::derive(emptied<32>(), 5, o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("prg.static.empty-key.derive_key", SYM, FAIL, try { Prg::derive_key<32>(emptied<32>(), 1); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prg.static.empty-key.derive_keys", SYM, FAIL, try { Prg::derive_keys<32>(emptied<32>(), 2, 1); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("prg.moved-from", SYM, FAIL, Prg a(skey<32>(1)); Prg b(std::move(a)); try { a.derive(5); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prg.moved-from.key", SYM, FAIL, Prg a(skey<32>(1)); Prg b(std::move(a)); try { a.derive_key<32>(5); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prg.moved-from.keys", SYM, FAIL, Prg a(skey<32>(1)); Prg b(std::move(a)); try { a.derive_keys<32>(5); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prg.move", SYM, MOVE, std::unique_ptr<Prg> d(new Prg(std::move(*W.g))); W.g = std::move(d); return "";);
    OP("prg.rewrap", SYM, MOVE, auto r = W.w->wrap(*W.g); W.g.reset(new Prg(W.w->unwrap<Prg>(r))); return std::string(r.begin(), r.end()););
    OP("prg.wrap", SYM, OK, auto r = W.w->wrap(*W.g); return std::string(r.begin(), r.end()););
    // --- PRP
    OP("prp.encrypt", SYM, OK, return W.pp->encrypt(std::string("a string of 23 bytes...")););
    OP("prp.encrypt.long", SYM, OK, return W.pp->encrypt(std::string(700, 'p')););
    OP("prp.encrypt.empty", SYM, OK, return "[" + W.pp->encrypt(std::string()) + "]";);
    OP("prp.encrypt.32", SYM, OK, return std::to_string(W.pp->encrypt((uint32_t)77)););
    OP("prp.encrypt.64", SYM, OK, return std::to_string(W.pp->encrypt_64(77)););
    OP("prp.decrypt", SYM, OK, return W.pp->decrypt(std::string("a string of 23 bytes...")););
    OP("prp.decrypt.32", SYM, OK, return std::to_string(W.pp->decrypt((uint32_t)77)););
    OP("prp.decrypt.64", SYM, OK, return std::to_string(W.pp->decrypt_64(77)););
    OP("prp.random", SYM, OK, Prp q; return q.encrypt(std::string("x marks")););
    OP("prp.empty-key", SYM, FAIL, Key<48> k = emptied<48>(); try { Prp q(std::move(k)); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("prp.moved-from", SYM, FAIL, Prp a(skey<48>(1)); Prp b(std::move(a)); std::string o = "keep"; try { a.encrypt(std::string("12345678901234567"), o); } catch (const std::exception&) { return o + "!"; } return o;);
    OP("prp.moved-from.decrypt", SYM, FAIL, Prp a(skey<48>(1)); Prp b(std::move(a)); std::string o = "keep"; try { a.decrypt(std::string("12345678901234567"), o); } catch (const std::exception&) { return o + "!"; } return o;);
    OP("prp.move", SYM, MOVE, std::unique_ptr<Prp> d(new Prp(std::move(*W.pp))); W.pp = std::move(d); return "";);
    OP("prp.rewrap", SYM, MOVE, auto r = W.w->wrap(*W.pp); W.pp.reset(new Prp(W.w->unwrap<Prp>(r))); return std::string(r.begin(), r.end()););
    OP("prp.wrap", SYM, OK, auto r = W.w->wrap(*W.pp); return std::string(r.begin(), r.end()););
    // --- RC-PRF
    OP("rcprf.eval", RC, OK, return str(W.rc->eval(0)) + str(W.rc->eval(9)) + str(W.rc->eval(15)););
    OP("rcprf.eval_range", RC, OK, std::string o; W.rc->eval_range(1, 14, [&](uint64_t i, const std::array<uint8_t, 16>& x) { o += std::to_string(i) + str(x); }); return o;);
    OP("rcprf.eval.out", RC, FAIL, try { W.rc->eval(16); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("rcprf.eval_range.out", RC, FAIL, std::string o; try { W.rc->eval_range(3, 16, [&](uint64_t, const std::array<uint8_t, 16>&) { o += "c"; }); } catch (const std::out_of_range&) { return o + "!"; } return o;);
    OP("rcprf.eval_range.reversed", RC, FAIL, std::string o; try { W.rc->eval_range(4, 3, [&](uint64_t, const std::array<uint8_t, 16>&) { o += "c"; }); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("rcprf.eval_range.throwing", RC, FAIL, std::string o; try { W.rc->eval_range(0, 15, [&](uint64_t i, const std::array<uint8_t, 16>&) { o += "c"; if (i == 6) throw 5; }); } catch (int) { return o + "!"; } return o;);
    OP("rcprf.eval_range.nested", RC, OK, std::string o; W.rc->eval_range(4, 7, [&](uint64_t i, const std::array<uint8_t, 16>& x) { o += str(x) + str(W.rc->eval(15 - i)); }); return o;);
    OP("rcprf.constrain", RC, OK, auto k = W.rc->constrain(3, 12); return str(k.eval(3)) + str(k.eval(12)););
    OP("rcprf.constrain.leaf", RC, OK, auto k = W.rc->constrain(5, 5); return str(k.eval(5)););
    OP("rcprf.constrain.full", RC, FAIL, try { W.rc->constrain(0, 15); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("rcprf.constrain.out", RC, FAIL, try { W.rc->constrain(3, 16); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("rcprf.constrain.reversed", RC, FAIL, try { W.rc->constrain(4, 3); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("rcprf.height0", RC, FAIL, try { RCPrf<16> x(skey<32>(1), 0); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("rcprf.height65", RC, FAIL, try { RCPrf<16> x(skey<32>(1), 65); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("rcprf.height64", RC, OK, RCPrf<16> x(skey<32>(1), 64); return str(x.eval(1ULL << 62)););
    OP("rcprf.move", RC, MOVE, std::unique_ptr<RCPrf<16>> d(new RCPrf<16>(std::move(*W.rc))); W.rc = std::move(d); return "";);
    OP("rcprf.moved-from", RC, FAIL, RCPrf<16> a(skey<32>(1), 4); RCPrf<16> b(std::move(a)); try { a.eval(1); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("rcprf.rewrap", RC, MOVE, auto r = W.w->wrap(*W.rc); W.rc.reset(new RCPrf<16>(W.w->unwrap<RCPrf<16>>(r))); return std::string(r.begin(), r.end()););
    OP("rcprf.wrap", RC, OK, auto r = W.w->wrap(*W.rc); return std::string(r.begin(), r.end()););
    OP("rcprf2.wrap", RC, OK, auto r = W.w->wrap(*W.rc2); return std::string(r.begin(), r.end()););
    OP("rcprf2.eval_range", RC, OK, std::string o; W.rc2->eval_range(0, 3, [&](uint64_t i, const std::array<uint8_t, 70>& x) { o += std::to_string(i) + str(x); }); return o;);
    OP("crcprf.eval", RC, OK, return str(W.crc->eval(2)) + str(W.crc->eval(7)) + str(W.crc->eval(13)););
    OP("crcprf.eval_range", RC, OK, std::string o; W.crc->eval_range(3, 13, [&](uint64_t i, const std::array<uint8_t, 16>& x) { o += std::to_string(i) + str(x); }); return o;);
    OP("crcprf.eval_range.throwing", RC, FAIL, std::string o; try { W.crc->eval_range(2, 13, [&](uint64_t i, const std::array<uint8_t, 16>&) { o += "c"; if (i == 9) throw 5; }); } catch (int) { return o + "!"; } return o;);
    OP("crcprf.eval_range.nested", RC, OK, std::string o; W.crc->eval_range(2, 9, [&](uint64_t i, const std::array<uint8_t, 16>& x) { o += str(x) + str(W.crc->eval(15 - i)) + str(W.rc->eval(i)); }); return o;);
    OP("crcprf.eval.below", RC, FAIL, try { W.crc->eval(1); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("crcprf.eval.above", RC, FAIL, try { W.crc->eval(14); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("crcprf.eval_range.out", RC, FAIL, std::string o; try { W.crc->eval_range(1, 5, [&](uint64_t, const std::array<uint8_t, 16>&) { o += "c"; }); } catch (const std::out_of_range&) { return o + "!"; } return o;);
    OP("crcprf.eval_range.reversed", RC, FAIL, std::string o; try { W.crc->eval_range(5, 4, [&](uint64_t, const std::array<uint8_t, 16>&) { o += "c"; }); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("crcprf.constrain", RC, OK, auto k = W.crc->constrain(3, 9); return str(k.eval(3)) + str(k.eval(9)););
    OP("crcprf.constrain.same", RC, OK, auto k = W.crc->constrain(2, 13); return str(k.eval(2)) + str(k.eval(8)););
    OP("crcprf.constrain.out", RC, FAIL, try { W.crc->constrain(2, 14); } catch (const std::out_of_range&) { return "!"; } return "accepted";);
    OP("crcprf.constrain.reversed", RC, FAIL, try { W.crc->constrain(4, 3); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("crcprf.move", RC, MOVE, std::unique_ptr<ConstrainedRCPrf<16>> d(new ConstrainedRCPrf<16>(std::move(*W.crc))); W.crc = std::move(d); return "";);
    OP("crcprf.moved-from", RC, FAIL, RCPrf<16> a(skey<32>(1), 4); auto k = a.constrain(1, 3); auto l(std::move(k)); try { k.eval(1); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("crcprf.rewrap", RC, MOVE, auto r = W.w->wrap(*W.crc); W.crc.reset(new ConstrainedRCPrf<16>(W.w->unwrap<ConstrainedRCPrf<16>>(r))); return std::string(r.begin(), r.end()););
    OP("crcprf.wrap", RC, OK, auto r = W.w->wrap(*W.crc); return std::string(r.begin(), r.end()););
    // --- wrapper
    OP("wrapper.unwrap.short", RC, FAIL, std::vector<uint8_t> r(28, 7); try { W.w->unwrap<Prg>(r); } catch (const std::invalid_argument&) { return std::string(r.begin(), r.end()) + "!"; } return "accepted";);
    OP("wrapper.unwrap.bad", RC, FAIL, std::vector<uint8_t> r(60, 7); try { W.w->unwrap<Prg>(r); } catch (const std::runtime_error&) { return std::string(r.begin(), r.end()) + "!"; } return "accepted";);
    OP("wrapper.unwrap.wrong-class", RC, FAIL, auto r = W.w->wrap(*W.rc); try { W.w->unwrap<RCPrf<17>>(r); } catch (const std::exception&) { return std::string(r.begin(), r.end()) + "!"; } return "accepted";);
    OP("wrapper.wrap.moved-from", RC, FAIL, Prg a(skey<32>(1)); Prg b(std::move(a)); try { W.w->wrap(a); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("wrapper.move", RC, MOVE, Wrapper x(std::move(*W.w)); *W.w = std::move(x); return "";);
    OP("wrapper.moved-from", RC, FAIL, Wrapper a(skey<32>(1)); Wrapper b(std::move(a)); try { a.wrap(*W.rc); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("wrapper.moved-from.unwrap", RC, FAIL, Wrapper a(skey<32>(1)); auto r = a.wrap(*W.rc); Wrapper b(std::move(a)); try { a.unwrap<RCPrf<16>>(r); } catch (const std::exception&) { return std::string(r.begin(), r.end()) + "!"; } return "accepted";);
    OP("wrapper.empty-key", RC, FAIL, Key<32> k = emptied<32>(); try { Wrapper x(std::move(k)); } catch (const std::exception&) { return "!"; } return "accepted";);
    // --- keys, set hash, random
    OP("key.null", RC, FAIL, try { Key<32> k((uint8_t*)nullptr); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("key.random", RC, OK, Key<32> k; return Prg(std::move(k)).derive(8););
    OP("key.assign", RC, OK, Key<32> k = skey<32>(5); Key<32> l = skey<32>(6); k = std::move(l); k = std::move(k); return Prg(std::move(k)).derive(8););
    OP("key.erase", RC, FAIL, Key<32> k = skey<32>(5); k.erase(); k.erase(); try { Prg::derive(std::move(k), 3); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("sethash.add", RC, OK, SetHash h(*W.sh); h.add_element("element"); h.add_element("other"); h.remove_element("element"); return str(h.data()););
    OP("sethash.import", RC, OK, SetHash h({std::string("a"), std::string("b")}); SetHash i(h.data()); i.add_set(h); i.remove_set(h); return str(i.data()););
    OP("sethash.import.bad", RC, FAIL, std::array<uint8_t, 32> b; b.fill(2); try { SetHash h(b); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("random.string", RC, OK, return random_string(50););
    OP("random.array", RC, OK, std::array<uint32_t, 5> a = random_bytes<uint32_t, 5>(); return std::string((char*)a.data(), 20););
    // --- trapdoor permutation
    OP("tdp.eval", TDP, OK, return W.t->eval(msg256(1)););
    OP("tdp.eval.array", TDP, OK, std::array<uint8_t, 256> a{}; a[255] = 2; return str(W.t->eval(a)););
    OP("tdp.eval.short", TDP, FAIL, std::string o = "keep"; try { W.t->eval(std::string(255, 'x'), o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("tdp.sample", TDP, OK, return W.t->sample(););
    OP("tdp.generate", TDP, OK, return W.t->generate(*W.prsa, "seed"););
    OP("tdp.generate.key", TDP, OK, return W.t->generate(skey<32>(33), "seed"););
    OP("tdp.generate.empty-key", TDP, FAIL, try { W.t->generate(emptied<32>(), "seed"); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("tdp.public_key", TDP, OK, return W.t->public_key(););
    OP("tdp.copy", TDP, MOVE, std::unique_ptr<Tdp> d(new Tdp(*W.t)); W.t = std::move(d); return "";);
    OP("tdp.assign", TDP, MOVE, Tdp d(RSA_KEYS[3].pub); d = *W.t; *W.t = d; return "";);
    OP("tdp.import.bad", TDP, FAIL, try { Tdp d("nonsense"); } catch (const std::runtime_error&) { return "!"; } return "accepted";);
    OP("tdp.import", TDP, OK, Tdp d(RSA_KEYS[W.rsa].pub); return d.eval(msg256(2)););
    OP("tdp.import.damaged", TDP, FAIL, std::string k = RSA_KEYS[0].pub; k[100] ^= 1; k[140] = '*'; try { Tdp d(k); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("tdpi.invert", TDP, OK, return W.ti->invert(msg256(2)););
    OP("tdpi.invert.array", TDP, OK, std::array<uint8_t, 256> a{}; a[255] = 2; return str(W.ti->invert(a)););
    OP("tdpi.invert_mult", TDP, OK, return W.ti->invert_mult(msg256(2), 5););
    OP("tdpi.invert_mult.0", TDP, OK, return W.ti->invert_mult(msg256(2), 0););
    OP("tdpi.eval", TDP, OK, return W.ti->eval(msg256(1)););
    OP("tdpi.invert.short", TDP, FAIL, std::string o = "keep"; try { W.ti->invert(std::string(257, 'x'), o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("tdpi.invert_mult.short", TDP, FAIL, std::string o = "keep"; try { W.ti->invert_mult(std::string(2, 'x'), o, 2); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("tdpi.invert.large", TDP, FAIL, std::string o = "keep"; try { W.ti->invert(std::string(256, '\xff'), o); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("tdpi.sample", TDP, OK, return W.ti->sample(););
    OP("tdpi.generate", TDP, OK, return W.ti->generate(*W.prsa, "seed") + str(W.ti->generate_array(*W.prsa, "seed2")););
    OP("tdpi.private_key", TDP, OK, return W.ti->private_key() + W.ti->public_key(););
    OP("tdpi.import", TDP, SLOW, TdpInverse d(RSA_KEYS[W.rsa].priv); return d.invert(msg256(2)););
    OP("tdpi.import.bad", TDP, FAIL, try { TdpInverse d(RSA_KEYS[0].pub); } catch (const std::exception&) { return "!"; } return "accepted";);
    OP("tdpi.rewrap", TDP, MOVE, auto r = W.w->wrap(*W.ti); W.ti.reset(new TdpInverse(W.w->unwrap<TdpInverse>(r))); return std::string(r.begin(), r.end()););
    OP("tdpi.wrap", TDP, OK, auto r = W.w->wrap(*W.ti); return std::string(r.begin(), r.end()););
    OP("pool.eval", TDP, OK, return W.pool->eval(msg256(1)) + W.pool->eval(msg256(1), 2) + W.pool->eval(msg256(1), 3););
    OP("pool.eval.0", TDP, FAIL, std::string o = "keep"; try { W.pool->eval(msg256(1), o, 0); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("pool.eval.4", TDP, FAIL, std::string o = "keep"; try { W.pool->eval(msg256(1), o, 4); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("pool.eval.short", TDP, FAIL, std::string o = "keep"; try { W.pool->eval(std::string(3, 'x'), o, 2); } catch (const std::invalid_argument&) { return o + "!"; } return o;);
    OP("pool.size0", TDP, FAIL, try { TdpMultPool d(RSA_KEYS[0].pub, 0); } catch (const std::invalid_argument&) { return "!"; } return "accepted";);
    OP("pool.import", TDP, OK, TdpMultPool d(RSA_KEYS[W.rsa].pub, 4); return d.eval(msg256(2), 4););
    OP("pool.copy", TDP, MOVE, std::unique_ptr<TdpMultPool> d(new TdpMultPool(*W.pool)); W.pool = std::move(d); return "";);
    OP("pool.assign", TDP, MOVE, TdpMultPool d(RSA_KEYS[3].pub, 5); d = *W.pool; *W.pool = d; return "";);
    OP("pool.generate", TDP, OK, return W.pool->generate(skey<32>(34), "seed") + W.pool->sample() + std::to_string(W.pool->maximum_order()););
#undef OP
    return *v;
}

inline std::string run(const Op& op, World& W, uint64_t salt = 0)
{
    Rng::get().reset(fnv(op.name) + salt);
    try { return op.f(W); }
    catch (const std::invalid_argument& e) { return "EXCEPTION invalid_argument"; }
    catch (const std::out_of_range& e) { return "EXCEPTION out_of_range"; }
    catch (const std::logic_error& e) { return "EXCEPTION logic_error"; }
    catch (const std::bad_alloc& e) { return "EXCEPTION bad_alloc"; }
    catch (const std::runtime_error& e) { return "EXCEPTION runtime_error"; }
    catch (const std::exception& e) { return "EXCEPTION exception"; }
    catch (...) { return "EXCEPTION unknown"; }
}
inline std::vector<int> select(int needs, int with = ~0, int without = 0)
{
    std::vector<int> r;
    for (size_t i = 0; i < all().size(); i++) {
        const Op& o = all()[i];
        if ((o.needs & ~needs) == 0 && !(o.flags & without) && (with == ~0 || (o.flags & with))) r.push_back((int)i);
    }
    return r;
}
// What a documented failure looks like: the op caught the documented exception itself and ends with '!'
inline bool failed_as_documented(const Op& op, const std::string& r) { return !(op.flags & FAIL) || (!r.empty() && r.back() == '!' && r.compare(0, 9, "EXCEPTION") != 0 && r.compare(0, 8, "accepted") != 0); }
}} // namespace mc::ops
