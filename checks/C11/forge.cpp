// C11: unwrapping returns an object only for a representation made with the same key, for the same class and parameters, and unaltered.
#define MC_MAIN
#include "objects.hpp"
using namespace mc;
using namespace mc::objects;
using refwrap::tostr; using refwrap::tovec;

static const std::string WK = key_content(32, 0);
static const Wrapper& wr() { static Wrapper w(key_from<32>(WK)); return w; }

template<class C> bool refused(Ctx& ctx, const Wrapper& w, const std::string& r, const char* what)
{
    std::vector<uint8_t> v = tovec(r);
    const char* t = thrown([&] { C c = w.template unwrap<C>(v); });
    ctx.step();
    ctx.outcome(fnv(t, strlen(t), fnv(r)));
    const char* kind = r.size() <= Wrapper::kCiphertextExpansion ? "invalid_argument" : "runtime_error";
    return ctx.check(!strcmp(t, kind), "%s: %s instead of %s (%zu bytes)", what, t, kind, r.size())
        && ctx.check(tostr(v) == r, "%s: a refused representation was changed", what);
}
template<class K> std::string rep(int v, uint64_t iv = 1, const std::string& k = WK) { return refwrap::wrap(k, bytes(16, iv), K::type(), K::context(), K::content(v)); }

template<class K> void alter(Ctx& ctx)
{
    typedef typename K::C C;
    const bool T = ctx.thorough;
    for (int v = 0; v < std::min(K::variants(), 9); v++) {
        if (!T && K::type() == 6 && (v == 5 || v == 3)) continue;
        const std::string r = rep<K>(v, v + 1);
        const size_t n = r.size();
        if (n > 3000) continue;
        auto skip = [&](size_t i) { return !T && n > 400 && i > 60 && i + 60 < n && i % 23; };
        for (size_t byte = 0; byte < n; byte++) {
            if (skip(byte)) continue;
            CASE("%s %d byte %zu", K::name(), v, byte) {
                { std::vector<uint8_t> ok = tovec(r); C c = wr().template unwrap<C>(ok); }
                for (int bit = 0; bit < 8; bit++) { std::string x = r; x[byte] ^= (char)(1 << bit); refused<C>(ctx, wr(), x, "flipped bit"); }
                for (int val : {0, 255, 0x80, 0x7f}) { std::string x = r; if (x[byte] == (char)val) continue; x[byte] = (char)val; refused<C>(ctx, wr(), x, "replaced byte"); }
                refused<C>(ctx, wr(), r.substr(0, byte), "truncated");
                refused<C>(ctx, wr(), r.substr(byte + 1), "without its beginning");
                { std::string x = r; x.erase(byte, 1); refused<C>(ctx, wr(), x, "byte removed"); }
                { std::string x = r; x.insert(byte, 1, '\0'); refused<C>(ctx, wr(), x, "zero byte inserted"); x[byte] = r[byte]; if (x != r) refused<C>(ctx, wr(), x, "byte repeated"); }
                if (byte + 1 < n && r[byte] != r[byte + 1]) { std::string x = r; std::swap(x[byte], x[byte + 1]); refused<C>(ctx, wr(), x, "bytes exchanged"); }
                // compensated changes: the same difference at two places
                for (size_t other : {byte + 1, byte + 8, byte + 16, byte + 32, n - 1 - byte}) if (other < n && other != byte) { std::string x = r; x[byte] ^= 0x55; x[other] ^= 0x55; refused<C>(ctx, wr(), x, "two bytes changed"); }
            };
        }
        CASE("%s %d splices", K::name(), v) {
            const std::string s = rep<K>((v + 1) % K::variants(), v + 7), s2 = rep<K>(v, v + 50);
            for (const std::string& o : {s, s2})
                for (size_t cut = 1; cut < std::min(n, o.size()); cut++) {
                    if (skip(cut)) continue;
                    std::string x = r.substr(0, cut) + o.substr(cut);
                    if (x != r && x != o) refused<C>(ctx, wr(), x, "two representations spliced");
                    x = r.substr(0, cut) + o.substr(o.size() - (n - std::min(cut, n)) > o.size() ? 0 : o.size() - (n - cut));
                    if (x != r && x != o) refused<C>(ctx, wr(), x, "spliced from the end");
                }
            for (size_t e : {1, 2, 4, 12, 16, 28, 100}) { refused<C>(ctx, wr(), r + std::string(e, '\0'), "extended"); refused<C>(ctx, wr(), std::string(e, '\0') + r, "extended in front"); refused<C>(ctx, wr(), r + r.substr(0, e), "extended"); }
            refused<C>(ctx, wr(), r + r, "repeated");
            for (size_t len = 0; len < 60; len++) for (int f : {0, 255}) refused<C>(ctx, wr(), std::string(len, (char)f), "constant bytes");
        };
        for (int bit = 0; bit < 256; bit++) {
            if (v > 1 && bit % 17) continue;
            CASE("%s %d wrapper key bit %d", K::name(), v, bit) {
                std::string k = WK; k[bit / 8] ^= (char)(1 << (bit % 8));
                Wrapper w(key_from<32>(k));
                refused<C>(ctx, w, r, "made with another key");
                refused<C>(ctx, wr(), rep<K>(v, 3, k), "made with another key");
            };
        }
    }
}

// every class against the representation of every other one
struct Row { const char* name; int variants; std::string (*rep)(int v); void (*unwrap)(Ctx&, const std::string&, const char*); };
template<class K> void un(Ctx& ctx, const std::string& r, const char* w) { refused<typename K::C>(ctx, wr(), r, w); }
template<class K> Row row() { return {K::name(), K::variants(), [](int v) { return rep<K>(v, 100 + v); }, un<K>}; }
template<template<uint16_t> class K, uint16_t... N> std::vector<Row> sizes() { return {row<K<N>>()...}; }
static void types(Ctx& ctx)
{
    std::vector<Row> R = {row<KCipher>(), row<KPrg>(), row<KPrp>(), row<KTdpi>(), row<KPrf<16>>(), row<KPrf<17>>(), row<KPrf<32>>(), row<KPrf<256 + 16>>(), row<KPrf<16 * 256>>(), row<KPrf<12>>(),
                          row<KRc<16>>(), row<KRc<32>>(), row<KRc<17>>(), row<KRc<256 + 16>>(), row<KCrc<16>>(), row<KCrc<32>>(), row<KCrc<17>>(), row<KCrc<256 + 16>>()};
    for (size_t i = 0; i < R.size(); i++)
        for (size_t j = 0; j < R.size(); j++) {
            if (i == j) continue;
            for (int v = 0; v < R[i].variants; v++)
                CASE("%s %d as %s", R[i].name, v, R[j].name) { R[j].unwrap(ctx, R[i].rep(v), "unwrapped as another class"); };
        }
    // parameters: an object wrapped for one output size is not accepted for another one, whichever bits or bytes of it differ
    std::vector<std::vector<Row>> P = {
        sizes<KPrf, 1, 2, 16, 20, 21, 22, 28, 36, 52, 84, 148, 276, 532, 1044, 2068, 4116, 8212, 5120, 5140, 8448, 33, 256, 258, 512, 513, 4096, 8192, 16384>(),
        sizes<KRc, 1, 2, 16, 20, 21, 22, 28, 36, 52, 84, 148, 276, 532, 1044, 2068, 4116, 8212, 16404, 32788, 5120, 5140, 8448, 33, 256, 258, 512, 513, 4096, 8192, 16384, 32768, 65535>(),
        sizes<KCrc, 1, 2, 16, 20, 21, 22, 28, 36, 52, 84, 148, 276, 532, 1044, 2068, 4116, 8212, 16404, 32788, 5120, 5140, 8448, 33, 256, 258, 512, 513, 4096, 8192, 16384, 32768, 65535>()};
    for (auto& Q : P)
        for (size_t i = 0; i < Q.size(); i++)
            for (size_t j = 0; j < Q.size(); j++)
                if (i != j) CASE("size %s as %s", Q[i].name, Q[j].name) { Q[j].unwrap(ctx, Q[i].rep(4), "unwrapped with another parameter"); };
    // all type bytes and parameters: the same content, authenticated as something else, is not accepted
    for (int type = 0; type < 256; type++)
        for (size_t j = 0; j < 3; j++)
            CASE("content authenticated with type byte %d, context %zu", type, j) {
                std::string ctxs = j == 0 ? "" : j == 1 ? nb(16) : nb(32);
                std::string k32 = key_content(32, 1), iv = bytes(16, 5);
                auto mkrep = [&](const std::string& c) { return refwrap::wrap(WK, iv, (uint8_t)type, ctxs, c); };
                if (!(type == 1 && j == 0)) refused<Cipher>(ctx, wr(), mkrep(k32), "Cipher");
                if (!(type == 3 && j == 0)) refused<Prg>(ctx, wr(), mkrep(k32), "Prg");
                if (!(type == 4 && j == 0)) refused<Prp>(ctx, wr(), mkrep(KPrp::content(1)), "Prp");
                if (!(type == 2 && j == 1)) refused<Prf<16>>(ctx, wr(), mkrep(k32), "Prf<16>");
                if (!(type == 2 && j == 2)) refused<Prf<32>>(ctx, wr(), mkrep(k32), "Prf<32>");
                if (!(type == 5 && j == 1)) refused<RCPrf<16>>(ctx, wr(), mkrep(KRc<16>::content(2)), "RCPrf<16>");
                if (!(type == 5 && j == 2)) refused<RCPrf<32>>(ctx, wr(), mkrep(KRc<32>::content(2)), "RCPrf<32>");
                if (!(type == 6 && j == 1)) refused<ConstrainedRCPrf<16>>(ctx, wr(), mkrep(KCrc<16>::content(4)), "ConstrainedRCPrf<16>");
                if (!(type == 6 && j == 2)) refused<ConstrainedRCPrf<32>>(ctx, wr(), mkrep(KCrc<32>::content(4)), "ConstrainedRCPrf<32>");
                if (!(type == 7 && j == 0)) refused<TdpInverse>(ctx, wr(), mkrep(KTdpi::content(1)), "TdpInverse");
            };
}
// authenticated but malformed contents never give an object: every shorter and longer content
template<class K> void malformed(Ctx& ctx)
{
    typedef typename K::C C;
    for (int v = 0; v < std::min(K::variants(), 7); v++) {
        const std::string c = K::content(v);
        std::vector<std::string> bad;
        for (size_t n = 1; n < c.size(); n += (c.size() > 300 ? 13 : 1)) bad.push_back(c.substr(0, n));
        for (size_t e : {1, 2, 3, 16, 17, 31, 32, 33, 100}) bad.push_back(c + bytes(e, e));
        for (size_t i = 0; i < bad.size(); i++)
            CASE("%s %d malformed content %zu of %zu bytes", K::name(), v, i, bad[i].size()) {
                // the private key in PEM form may end with or without a line feed
                if (K::type() == 7 && bad[i].size() + 1 >= c.size() && bad[i].size() < c.size()) return;
                std::vector<uint8_t> r = tovec(refwrap::wrap(WK, bytes(16, i), K::type(), K::context(), bad[i]));
                const char* t = thrown([&] { C o = wr().template unwrap<C>(r); });
                ctx.check(strcmp(t, "none") != 0, "a malformed content of %zu bytes (instead of %zu) was accepted", bad[i].size(), c.size());
                ctx.step();
            };
    }
}
static void malformed_trees(Ctx& ctx)
{
    for (int h = 0; h < 256; h++)
        CASE("RCPrf content with height %d", h) {
            std::vector<uint8_t> r = tovec(refwrap::wrap(WK, bytes(16, h), 5, nb(16), std::string(1, (char)h) + key_content(32, 1)));
            const char* t = thrown([&] { RCPrf<16> o = wr().unwrap<RCPrf<16>>(r); ctx.check(o.tree_height() == h, "height"); });
            ctx.check((h >= 2 && h <= 64) == !strcmp(t, "none"), "height %d: %s", h, t);
            ctx.step();
        };
    // elements with inconsistent descriptions
    for (int h = 0; h <= 8; h++) for (int sh = 0; sh <= 8; sh++) for (uint64_t lo = 0; lo < 6; lo++) for (uint64_t w = 0; w < 20; w++)
        CASE("element height %d subtree %d from %lu width %lu", h, sh, lo, w + 1) {
            uint64_t hi = lo + w; uint32_t one = 1;
            std::string c = std::string(1, (char)h) + std::string((char*)&one, 4) + std::string(1, (char)sh) + std::string((char*)&lo, 8) + std::string((char*)&hi, 8);
            c += (sh == 1 && w == 0) ? bytes(16, 4) : bytes(32, 4);
            std::vector<uint8_t> r = tovec(refwrap::wrap(WK, bytes(16, h), 6, nb(16), c));
            const char* t = thrown([&] { ConstrainedRCPrf<16> o = wr().unwrap<ConstrainedRCPrf<16>>(r); });
            bool ok = sh >= 1 && sh < h && w + 1 == 1ULL << (sh - 1);
            ctx.check(ok == !strcmp(t, "none"), "%s", t);
            ctx.step();
        };
    for (uint32_t n = 0; n < 70; n++)
        CASE("%u elements announced", n) {
            std::string c = KCrc<16>::content(4); // four elements: 1, 2-3, 4-5, 6
            uint32_t real; memcpy(&real, &c[1], 4);
            memcpy(&c[1], &n, 4);
            std::vector<uint8_t> r = tovec(refwrap::wrap(WK, bytes(16, n), 6, nb(16), c));
            const char* t = thrown([&] { ConstrainedRCPrf<16> o = wr().unwrap<ConstrainedRCPrf<16>>(r); });
            ctx.check((n == real) == !strcmp(t, "none"), "%u announced, %u present: %s", n, real, t);
            ctx.step();
        };
}
static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    wr();
    alter<KCipher>(ctx); alter<KPrg>(ctx); alter<KPrp>(ctx); alter<KTdpi>(ctx); alter<KPrf<16>>(ctx); alter<KPrf<264>>(ctx); alter<KRc<16>>(ctx); alter<KRc<32>>(ctx); alter<KCrc<16>>(ctx); alter<KCrc<32>>(ctx);
    types(ctx);
    malformed<KCipher>(ctx); malformed<KPrg>(ctx); malformed<KPrp>(ctx); malformed<KTdpi>(ctx); malformed<KPrf<16>>(ctx); malformed<KRc<16>>(ctx); malformed<KCrc<16>>(ctx); malformed<KCrc<32>>(ctx);
    malformed_trees(ctx);
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
