// C23: a ciphertext is decrypted to its message exactly by the keys that are complete and not punctured on its tag. The real
// src/puncturable_enc.cpp, src/ppke and src/utils.cpp run on a stand-in for the RELIC library (mc/fakerelic).
#define MC_MAIN
#include "sse.hpp"
#include "rng.hpp"
#include "ppke/GMPpke.hpp"
#include <gmpxx.h>
#include <map>
#include <memory>
#include <set>
#include <sse/crypto/puncturable_enc.hpp>
using namespace mc;
typedef punct::tag_type Tag;
#undef CASE
#define CASE(...) if (ctx.begin(__VA_ARGS__) && (Rng::get().reset(1), true)) ctx.body() = [&]()
#ifdef __SANITIZE_ADDRESS__
static const int DEEPER = 0;
#else
static const int DEEPER = 1;
#endif
typedef punct::key_share_type Share;
typedef punct::punctured_key_type PKey;
typedef punct::ciphertext_type Ct;

static Tag nulltag() { Tag t{}; for (int i = 0; i < 9; i++) t[i] = i; for (int i = 9; i < 15; i++) t[i] = i + 7; t[15] = 0; return t; }
// tags that differ from each other, and from the reserved one, in as little as one bit at either end
static Tag tag(int k)
{
    Tag t{};
    switch (k) {
    case 0: return t;
    case 1: t[15] = 1; return t;
    case 2: t[0] = 0x80; return t;
    case 3: t = nulltag(); t[15] = 1; return t;
    case 4: t.fill(0xff); return t;
    case 5: t = nulltag(); t[0] = 1; return t;
    default: fill(t.data(), 16, 400 + k); return t;
    }
}
static const int NT = 6;
static const uint64_t MSG[] = {0, ~0ULL, 0x0123456789abcdefULL, 1, 1ULL << 63, 42};
static std::unique_ptr<PuncturableEncryption> enc(int mk_)
{
    Key<32> k = mk<32>(mk_);
    return std::unique_ptr<PuncturableEncryption>(new PuncturableEncryption(std::move(k)));
}
// the punctured key after puncturing the tags in this order; fresh: every share from an object of its own
static PKey key(int mk_, const std::vector<int>& tags, bool fresh = false)
{
    PKey k;
    auto e = enc(mk_);
    k.push_back(e->initial_keyshare(tags.size()));
    for (size_t i = 0; i < tags.size(); i++) {
        if (fresh) e = enc(mk_);
        k.push_back(e->inc_puncture(i + 1, tag(tags[i])));
    }
    return k;
}
// 0: refused, 1: the message, 2: something else, 3: exception
static int dec(PuncturableDecryption& d, const Ct& ct, uint64_t want)
{
    uint64_t m = ~want;
    bool ok;
    try { ok = d.decrypt(ct, m); } catch (const std::exception&) { return 3; }
    if (!ok) return m == ~want ? 0 : 4;
    return m == want ? 1 : 2;
}
static int dec(const PKey& k, const Ct& ct, uint64_t want) { PuncturableDecryption d(k); return dec(d, ct, want); }
static const char* NAME[] = {"refused", "decrypted", "decrypted to something else", "refused with an exception", "refused, and the output was touched"};
static bool expect_dec(Ctx& ctx, int got, bool open, const char* what, int t)
{
    ctx.step();
    ctx.outcome(fnv(NAME[got]));
    return ctx.check(got == (open ? 1 : 0), "%s: a ciphertext for tag %d was %s, expected %s", what, t, NAME[got], NAME[open ? 1 : 0]);
}
// the group of the stand-in is transparent: whoever made a ciphertext knows the logarithm of its third part to the base of its second one
static const mpz_class ORDER("2523648240000001ba344d8000000007ff9f800000000010a10000000000000d", 16);
static mpz_class lg(const uint8_t* p)
{
    mpz_class z; mpz_import(z.get_mpz_t(), 32, 1, 1, 0, 0, p + 1);
    return p[0] == 3 ? mpz_class(ORDER - z) : z;
}
static mpz_class ratio(const uint8_t* ct)
{
    mpz_class i, a = lg(ct + 8), r; mpz_invert(i.get_mpz_t(), a.get_mpz_t(), ORDER.get_mpz_t());
    r = lg(ct + 41) * i; mpz_mod(r.get_mpz_t(), r.get_mpz_t(), ORDER.get_mpz_t());
    return r;
}
// ct turned into a ciphertext for the tag by someone who believes that the exponents of the two tags are delta apart
static void transfer(uint8_t* ct, const mpz_class& delta, const Tag& t)
{
    mpz_class e = lg(ct + 41) + lg(ct + 8) * delta; mpz_mod(e.get_mpz_t(), e.get_mpz_t(), ORDER.get_mpz_t());
    mpz_class o = ORDER - e; bool up = e > o;
    memset(ct + 41, 0, 33);
    if (e != 0) { ct[41] = 2 + up; mpz_class x = up ? o : e; size_t n = (mpz_sizeinbase(x.get_mpz_t(), 2) + 7) / 8; mpz_export(ct + 41 + 33 - n, nullptr, 1, 1, 0, 0, x.get_mpz_t()); }
    memcpy(ct + 74, t.data(), 16);
}
// the secret that hides the message, as the holder of the key computes it without looking at the tags
static relicxx::GT secret(const PKey& k, const Ct& c)
{
    std::vector<GmppkePrivateKeyShare> v;
    for (auto& s : k) v.emplace_back(s.data());
    Gmppke p;
    return p.recoverBlind(GmppkePrivateKey(v), PartialGmmppkeCT(c.data() + 8));
}
// does the key determine this secret? (a key punctured on the very tag is refused by the interpolation)
template <class F> static bool finds(F f, const relicxx::GT& right) { try { return f() == right; } catch (const std::exception&) { return false; } }
static bool finds(const PKey& k, const Ct& c, const relicxx::GT& right) { return finds([&] { return secret(k, c); }, right); }
static bool in(const std::vector<int>& v, int x) { for (int y : v) if (x == y) return true; return false; }

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    Rng::install();
    Rng::get().reset(1);
    const bool T = ctx.thorough;

    // every history of punctures (with repetitions): exactly the other tags are decrypted, by a key made at once or share by share, and
    // by one decryption object used for everything
    sequences(NT, 0, (T ? 5 : 4) + DEEPER, [&](const std::vector<int>& h) {
        CASE("history %s", join(h).c_str()) {
            auto e = enc(0);
            PKey k = key(0, h), k2 = key(0, h, true);
            ctx.check(k == k2, "the shares depend on the object they were made by");
            for (size_t i = 0; i < h.size(); i++) ctx.check(punct::extract_tag(k[i + 1]) == tag(h[i]), "share %zu carries another tag", i + 1);
            PuncturableDecryption d(k);
            for (int t = 0; t < NT + 1; t++) {
                uint64_t m = MSG[(t + h.size()) % 6];
                Ct ct = e->encrypt(m, tag(t));
                ctx.check(punct::extract_tag(ct) == tag(t), "the ciphertext carries another tag");
                expect_dec(ctx, dec(d, ct, m), !in(h, t), "after the punctures", t);
                if (h.size() < 3) expect_dec(ctx, dec(k2, ct, m), !in(h, t), "key made share by share", t);
                // a ciphertext or a share that claims another tag is of no use
                if (h.size() < 3) {
                    const relicxx::GT right = secret({e->initial_keyshare(0)}, ct);
                    ctx.check(finds(k, ct, right) == !in(h, t), "the secret of a ciphertext for tag %d", t);
                    for (int t2 = 0; t2 < NT; t2++) if (t2 != t && (t < NT || t2 < 2)) {
                        Ct c2 = ct; Tag n = tag(t2); std::copy(n.begin(), n.end(), c2.end() - 16);
                        ctx.step(); ctx.check(dec(d, c2, m) != 1 && !finds(k, c2, right), "a ciphertext for tag %d is decrypted when it claims tag %d", t, t2);
                    }
                    for (size_t i = 1; i < k.size(); i++) if (t < NT) {
                        PKey kk = k; Tag n = tag(NT + 1); std::copy(n.begin(), n.end(), kk[i].end() - 16);
                        ctx.step(); ctx.check(dec(kk, ct, m) != 1 && !finds(kk, ct, right), "a share for tag %d that claims another tag takes part in a decryption", h[i - 1]);
                    }
                }
                { std::string all; for (auto& s : k) all += str(s); ctx.state(fnv(all)); }
                ctx.outcome(fnv(str(ct), h.size()));
            }
        };
    });
    // a key grows: at each step the new first share replaces the old one; ciphertexts made before and after
    sequences(4, 1, (T ? 5 : 4) + DEEPER, [&](const std::vector<int>& h) {
        CASE("growing key %s", join(h).c_str()) {
            auto e = enc(1);
            std::vector<Ct> cts;
            for (int t = 0; t < 4; t++) cts.push_back(e->encrypt(MSG[t], tag(t)));
            PKey k = {e->initial_keyshare(0)};
            std::vector<int> done;
            for (size_t i = 0; i <= h.size(); i++) {
                for (int t = 0; t < 4; t++) expect_dec(ctx, dec(k, cts[t], MSG[t]), !in(done, t), "ciphertext made before", t);
                if (i == h.size()) break;
                k.push_back(e->inc_puncture(i + 1, tag(h[i])));
                k[0] = e->initial_keyshare(i + 1);
                done.push_back(h[i]);
            }
        };
    });
    // the order of the shares does not matter
    for (int d = 1; d <= (T ? 5 : 4); d++) {
        std::vector<int> p(d + 1), tags;
        for (int i = 0; i <= d; i++) p[i] = i;
        for (int i = 0; i < d; i++) tags.push_back(i);
        do {
            CASE("order of shares %s", join(p).c_str()) {
                auto e = enc(0);
                PKey k = key(0, tags), q;
                for (int i : p) q.push_back(k[i]);
                for (int t = 0; t < NT; t++) { Ct ct = e->encrypt(MSG[t], tag(t)); expect_dec(ctx, dec(q, ct, MSG[t]), !in(tags, t), "shares in another order", t); }
            };
        } while (std::next_permutation(p.begin(), p.end()));
    }
    // only the complete key decrypts: no other collection of first shares (of any number of punctures) and further shares reveals a
    // message, neither for a punctured tag nor for another one
    const int D = T ? 4 : 3;
    for (int first = 0; first < 1 << (D + 1); first++)
        for (int rest = 0; rest < 1 << D; rest++) {
            if (!first && !rest) continue;
            CASE("collection first %d rest %d", first, rest) {
                auto e = enc(0);
                PKey k; int nf = 0, d = -1;
                for (int i = 0; i <= D; i++) if (first >> i & 1) { k.push_back(e->initial_keyshare(i)); nf++; d = i; }
                std::vector<int> tags;
                for (int i = 0; i < D; i++) if (rest >> i & 1) { k.push_back(e->inc_puncture(i + 1, tag(i))); tags.push_back(i); }
                bool complete = nf == 1 && rest == (1 << d) - 1;
                for (int t = 0; t < NT; t++) {
                    Ct ct = e->encrypt(MSG[2], tag(t));
                    int r = dec(k, ct, MSG[2]);
                    ctx.step();
                    ctx.outcome(fnv(NAME[r]));
                    if (complete) expect_dec(ctx, r, !in(tags, t), "complete key", t);
                    else ctx.check(r != 1, "an incomplete or mixed collection of shares decrypted a ciphertext for tag %d", t);
                }
            };
        }
    // a share put in twice
    for (int d = 1; d <= 3; d++)
        for (int twice = 0; twice <= d; twice++)
            CASE("share %d of %d twice", twice, d) {
                std::vector<int> tags;
                for (int i = 0; i < d; i++) tags.push_back(i);
                PKey k = key(0, tags);
                k.push_back(k[twice]);
                auto e = enc(0);
                for (int t = 0; t < NT; t++) { Ct ct = e->encrypt(MSG[2], tag(t)); int r = dec(k, ct, MSG[2]); ctx.step(); ctx.check(r != 1, "tag %d decrypted", t); }
            };
    // a ciphertext given another tag, other group elements or another mask is not the message any more
    for (int d = 0; d <= 2; d++)
        for (int a = 0; a < NT; a++)
            for (int b = 0; b < NT; b++) {
                if (a == b) continue;
                CASE("parts exchanged punctures %d tags %d %d", d, a, b) {
                    std::vector<int> tags;
                    for (int i = 0; i < d; i++) tags.push_back(i);
                    PKey k = key(0, tags);
                    auto e = enc(0);
                    Ct x = e->encrypt(MSG[2], tag(a)), y = e->encrypt(MSG[2], tag(b));
                    const size_t at[] = {0, 8, 41, 74, 90};
                    for (int mask = 1; mask < 15; mask++) {
                        Ct z = x;
                        for (int i = 0; i < 4; i++) if (mask >> i & 1) std::copy(y.begin() + at[i], y.begin() + at[i + 1], z.begin() + at[i]);
                        ctx.step();
                        ctx.check(dec(k, z, MSG[2]) != 1, "parts %d of the ciphertext came from another one, and it was decrypted", mask);
                    }
                };
            }
    // keys of different owners
    for (int a = 0; a < 6; a++)
        for (int b = 0; b < 6; b++)
            CASE("owners %d %d", a, b) {
                std::vector<int> tags = {1, 2};
                PKey ka = key(a, tags), kb = key(b, tags);
                auto e = enc(a);
                for (int t = 0; t < NT; t++) {
                    Ct ct = e->encrypt(MSG[t], tag(t));
                    int r = dec(kb, ct, MSG[t]);
                    ctx.step();
                    if (a == b) expect_dec(ctx, r, !in(tags, t), "same owner", t);
                    else ctx.check(r != 1, "decrypted with the key of another owner (tag %d)", t);
                }
                if (a != b)
                    for (int m = 1; m < 7; m++) {
                        PKey k = ka;
                        for (int i = 0; i < 3; i++) if (m >> i & 1) k[i] = kb[i];
                        for (int t : {0, 3}) { Ct ct = e->encrypt(MSG[2], tag(t)); ctx.step(); ctx.check(dec(k, ct, MSG[2]) != 1, "decrypted with shares of two owners"); }
                    }
            };
    // what an owner knows of the own parameters does not help against another one: a ciphertext for a punctured tag cannot be turned into
    // one for another tag, while the owner can do it with the right parameters
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++)
        CASE("transfer %d %d", a, b) {
            auto e = enc(a), f = enc(b);
            for (int t1 = 0; t1 < NT; t1++) for (int t2 = 0; t2 < NT; t2++) if (t1 != t2) {
                Ct x = f->encrypt(1, tag(t1)), y = f->encrypt(1, tag(t2)), c = e->encrypt(MSG[2], tag(t1));
                const relicxx::GT right = secret({e->initial_keyshare(0)}, c);
                transfer(c.data(), ratio(y.data()) - ratio(x.data()), tag(t2));
                bool r = finds(key(a, {t1}), c, right);
                ctx.step();
                if (a == b) ctx.check(r, "the stand-in does not behave as the harness assumes");
                else ctx.check(!r, "a ciphertext for a punctured tag is turned into one for another tag with the parameters of another owner");
            }
        };
    for (int ha = 0; ha < 2; ha++) for (int hb = 0; hb < 2; hb++)
        CASE("transfer in place %d %d", ha, hb) {
            Gmppke p; GmppkePublicKey pk[2]; GmppkePrivateKey sk[2]; GmppkeSecretParameters sp[2];
            for (int i = 0; i < 2; i++) { if (i ? hb : ha) p.keygen(mk<32>(20 + i), pk[i], sk[i], sp[i]); else p.keygen(pk[i], sk[i], sp[i]); }
            uint8_t x[90], y[90], c[90];
            p.encrypt<uint64_t>(pk[1], 1, tag(0)).writeBytes(x); p.encrypt<uint64_t>(pk[1], 1, tag(1)).writeBytes(y);
            for (int i = 0; i < 2; i++) {
                p.encrypt<uint64_t>(pk[i], 77, tag(0)).writeBytes(c);
                const relicxx::GT right = p.recoverBlind(sk[i], PartialGmmppkeCT(c + 8));
                p.puncture(pk[i], sk[i], tag(0));
                ctx.check(!finds([&] { return p.recoverBlind(sk[i], PartialGmmppkeCT(c + 8)); }, right), "the punctured key still determines the secret");
                transfer(c, ratio(y) - ratio(x), tag(1));
                bool r = finds([&] { return p.recoverBlind(sk[i], PartialGmmppkeCT(c + 8)); }, right);
                ctx.check(r == (i == 1), i ? "the stand-in does not behave as the harness assumes" : "a ciphertext for a punctured tag is turned into one for another tag with the parameters of another owner");
            }
        };
    // keys with many punctures: every number up to a bound
    std::vector<int> many;
    for (int d = 0; d <= (T ? 130 : 24); d++) many.push_back(d);
    for (int d : {127, 128, 129, 255, 256, 257, 300, 1001}) many.push_back(d);
    if (T) for (int d : {2049, 10001, 65534, 65535, 65536, 65537}) many.push_back(d);
    for (int d : many)
        CASE("punctures %d", d) {
            std::vector<int> tags;
            for (int i = 0; i < d; i++) tags.push_back(100 + i);
            PKey k = key(2, tags);
            auto e = enc(2);
            PuncturableDecryption dd(k);
            for (int t = 99; t <= 101 + d; t++) {
                if (t > 103 && t < 98 + d && t % (d < 200 ? 7 : d / 5)) continue;
                Ct ct = e->encrypt(MSG[t % 6], tag(t));
                expect_dec(ctx, dec(dd, ct, MSG[t % 6]), t < 100 || t >= 100 + d, "many punctures", t);
                ctx.tick();
            }
        };
    // the numbers of punctures at which a share may be asked for: consecutive shares link, others do not
    for (uint64_t d : {1ull, 9ull, 10ull, 99ull, 255ull, 256ull, 65535ull, 65536ull, 999999999ull, 4294967295ull, 4294967296ull, 99999999999ull, 9223372036854775807ull, 18446744073709551614ull})
        CASE("share numbers around %llu", (unsigned long long)d) {
            auto e = enc(0);
            // first(d+1) + share(d+1) - ... cannot be completed without the earlier ones, so compare what is observable: all distinct, and stable
            std::set<std::string> seen;
            for (uint64_t x : {d - 1, d, d + 1}) {
                std::vector<std::string> v;
                v.push_back(str(e->initial_keyshare(x)));
                if (x) v.push_back(str(e->inc_puncture(x, tag(1))));
                auto e2 = enc(0);
                ctx.check(str(e2->initial_keyshare(x)) == v[0] && (!x || str(e2->inc_puncture(x, tag(1))) == v[1]), "not a function of the master key");
                for (auto& s : v) for (int c = 0; c < 3; c++) ctx.check(seen.insert(s.substr(c * 65, 65)).second, "a part of a share occurs twice");
                ctx.step(4);
                // puncturing once more takes nothing but the tag away: first share x and share x together do what first share x - 1 does
                if (x) {
                    PKey before = {e->initial_keyshare(x - 1)}, after = {e->initial_keyshare(x), e->inc_puncture(x, tag(1))};
                    for (int t : {0, 2}) {
                        Ct ct = e->encrypt(MSG[2], tag(t));
                        uint64_t m1 = 1, m2 = 2;
                        PuncturableDecryption d1(before), d2(after);
                        ctx.step(2);
                        ctx.check(d1.decrypt(ct, m1) && d2.decrypt(ct, m2) && m1 == m2, "share %llu does not link the first shares before and after it", (unsigned long long)x);
                    }
                }
            }
        };
    CASE("parts of shares are fresh") {
        std::set<std::string> seen;
        for (int m = 0; m < 3; m++) {
            auto e = enc(m);
            for (int d = 0; d < (T ? 1200 : 220); d++) {
                std::vector<std::string> v = {str(e->initial_keyshare(d))};
                if (d) v.push_back(str(e->inc_puncture(d, tag(d % 3))));
                for (auto& s : v) for (int c = 0; c < 3; c++) ctx.check(seen.insert(s.substr(c * 65, 65)).second, "a part of a share of %d punctures occurs twice", d);
                ctx.step(2); ctx.tick();
            }
        }
    };
    // encryption: messages and fresh randomness
    for (int bit = -1; bit < 64; bit++)
        CASE("message %d", bit) {
            uint64_t m = bit < 0 ? 0 : 1ULL << bit;
            auto e = enc(3);
            PKey k = key(3, {4});
            std::set<std::string> seen;
            for (uint64_t x : {m, ~m, m - 1}) for (int i = 0; i < 3; i++) {
                Ct ct = e->encrypt(x, tag(2));
                expect_dec(ctx, dec(k, ct, x), true, "message", 2);
                for (int c = 0; c < 2; c++) ctx.check(seen.insert(str(ct).substr(8 + 33 * c, 33)).second, "two ciphertexts share their randomness");
                ctx.check(seen.insert(str(ct).substr(0, 8)).second, "two ciphertexts share their mask");
            }
        };
    // the answers of the generator at the borders of the field: 1, 2, order - 1, order + 1, all ones, ...
    {
        const char* R[] = {"0000000000000000000000000000000000000000000000000000000000000001", "0000000000000000000000000000000000000000000000000000000000000002",
                           "2523648240000001ba344d8000000007ff9f800000000010a10000000000000c", "2523648240000001ba344d8000000007ff9f800000000010a10000000000000e",
                           "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
                           "1291b24120000000dd1a26c000000003ffcfc000000000085080000000000007", "1291b24120000000dd1a26c000000003ffcfc000000000085080000000000006"};
        for (int i = 0; i < 8; i++)
            CASE("randomness %d", i) {
                auto e = enc(0);
                for (int d = 0; d < 3; d++) {
                    std::vector<int> tags;
                    for (int j = 0; j < d; j++) tags.push_back(j);
                    PKey k = key(0, tags);
                    for (int t = 0; t < NT; t++) {
                        Rng& r = Rng::get(); r.reset(7);
                        r.forced.resize(32);
                        size_t n; sodium_hex2bin(r.forced.data(), 32, R[i], 64, nullptr, &n, nullptr);
                        Ct ct = e->encrypt(MSG[2], tag(t));
                        expect_dec(ctx, dec(k, ct, MSG[2]), !in(tags, t), "border of the field", t);
                    }
                }
                Rng::get().reset(1);
            };
    }
    // every tag that differs in one bit from a punctured one, or from the reserved one
    for (int base = 0; base < 3; base++)
        CASE("neighbours of tag %d", base) {
            Tag b = base == 2 ? nulltag() : tag(base ? 7 : 0);
            auto e = enc(4);
            PKey k = {e->initial_keyshare(base == 2 ? 0 : 1)};
            if (base != 2) k.push_back(e->inc_puncture(1, b));
            PuncturableDecryption d(k);
            for (int bit = 0; bit < 128; bit++) {
                Tag t = b; t[bit / 8] ^= 1 << bit % 8;
                Ct ct = e->encrypt(MSG[2], t);
                expect_dec(ctx, dec(d, ct, MSG[2]), true, "neighbour", bit);
                PKey k2 = {e->initial_keyshare(1), e->inc_puncture(1, t)};
                expect_dec(ctx, dec(k2, ct, MSG[2]), false, "neighbour punctured", bit);
                if (base != 2) { Ct c0 = e->encrypt(MSG[3], b); expect_dec(ctx, dec(k2, c0, MSG[3]), true, "only the neighbour punctured", bit); }
                ctx.tick();
            }
            if (base != 2) { Ct c0 = e->encrypt(MSG[3], b); expect_dec(ctx, dec(d, c0, MSG[3]), false, "punctured", base); }
        };
    // the reserved tag is refused, and the objects remain usable
    for (int m = 0; m < 2; m++)
        CASE("reserved tag %d", m) {
            auto e = enc(m);
            expect(ctx, "invalid_argument", [&] { e->encrypt(5, nulltag()); }, "encryption with the reserved tag");
            for (size_t d : {1, 2, 5}) expect(ctx, "invalid_argument", [&] { e->inc_puncture(d, nulltag()); }, "puncture on the reserved tag");
            Ct ct = e->encrypt(9, tag(1));
            expect_dec(ctx, dec(key(m, {2}), ct, 9), true, "after refusals", 1);
        };
    // the class behind: public-key encryption, keys punctured in place, serialised shares and ciphertexts
    sequences(4, 0, T ? 4 : 3, [&](const std::vector<int>& h) {
        for (int how = 0; how < 3; how++)
            CASE("in place %s made %d", join(h).c_str(), how) {
                Gmppke p; GmppkePublicKey pk; GmppkePrivateKey sk; GmppkeSecretParameters sp;
                if (how == 0) p.keygen(pk, sk, sp);
                else if (how == 1) p.keygen(mk<32>(2), pk, sk, sp);
                else { Prf<kPPKEPrfOutputSize> f(mk<32>(2)); p.keygen(f, pk, sk, sp); }
                ctx.check(!sk.punctured(), "a new key is punctured");
                const GmppkePrivateKey first = sk;
                std::vector<int> done;
                for (size_t i = 0; i <= h.size(); i++) {
                    for (int t = 0; t < 5; t++)
                        for (int secret = 0; secret < 2; secret++) {
                            uint64_t m = MSG[t];
                            GmmppkeCT<uint64_t> ct = secret ? p.encrypt<uint64_t>(sp, m, tag(t)) : p.encrypt<uint64_t>(pk, m, tag(t));
                            uint8_t b[GmmppkeCT<uint64_t>::kCTByteSize];
                            ct.writeBytes(b);
                            GmmppkeCT<uint64_t> c2(b);
                            ctx.check(c2 == ct, "a ciphertext does not survive its serialisation");
                            for (int t2 = 0; t2 < 5; t2++) if (t2 != t) {
                                uint8_t b2[sizeof b]; memcpy(b2, b, sizeof b); Tag n = tag(t2); memcpy(b2 + sizeof b - 16, n.data(), 16);
                                GmmppkeCT<uint64_t> c3(b2);
                                uint64_t o2 = ~m;
                                ctx.step(); ctx.check((!p.decrypt(sk, c3, o2) || o2 != m) && !finds([&] { return p.recoverBlind(sk, c3); }, p.recoverBlind(first, c2)), "a ciphertext for tag %d is decrypted when it claims tag %d", t, t2);
                            }
                            uint64_t o = ~m;
                            bool ok = p.decrypt(sk, c2, o);
                            ctx.check(sk.isPuncturedOnTag(tag(t)) == in(done, t), "isPuncturedOnTag");
                            expect_dec(ctx, ok ? (o == m ? 1 : 2) : (o == ~m ? 0 : 4), !in(done, t), "in place", t);
                            if (in(done, t)) {
                                bool bad = false;
                                try { p.decrypt(sk, ct); } catch (const PuncturedCiphertext&) { bad = true; }
                                ctx.check(bad, "no PuncturedCiphertext for a punctured tag");
                                // without the check of the tags the key is of no use either
                                bool leaked = false;
                                try { leaked = p.decrypt_unchecked(sk, ct) == m; } catch (const std::exception&) {}
                                ctx.check(!leaked, "the punctured key still determines the message");
                            } else ctx.check(p.decrypt(sk, ct) == m, "decrypt");
                        }
                    if (i == h.size()) break;
                    expect(ctx, "invalid_argument", [&] { p.puncture(pk, sk, Gmppke::NULLTAG); }, "reserved tag");
                    p.puncture(pk, sk, tag(h[i]));
                    ctx.check(sk.punctured(), "not punctured");
                    done.push_back(h[i]);
                }
                expect(ctx, "invalid_argument", [&] { p.encrypt<uint64_t>(pk, 0, Gmppke::NULLTAG); }, "reserved tag");
                expect(ctx, "invalid_argument", [&] { p.encrypt<uint64_t>(sp, 0, Gmppke::NULLTAG); }, "reserved tag");
            };
    });
    // keys made from shares and keys punctured in place agree on a ciphertext, for messages of every width
    for (int d = 0; d <= 4; d++)
        CASE("derived and in place %d", d) {
            Prf<kPPKEPrfOutputSize> f(mk<32>(5));
            Gmppke p; GmppkePublicKey pk; GmppkePrivateKey sk; GmppkeSecretParameters sp;
            p.keygen(f, pk, sk, sp);
            std::vector<GmppkePrivateKeyShare> v = {p.sk0Gen(f, sp, d)};
            std::vector<int> done;
            for (int i = 0; i < d; i++) {
                v.push_back(p.skShareGen(f, sp, i + 1, tag(i))); p.puncture(pk, sk, tag(i)); done.push_back(i);
                uint8_t b[GmppkePrivateKeyShare::kByteSize]; v.back().writeBytes(b);
                ctx.check(GmppkePrivateKeyShare(b) == v.back() && v.back().get_tag() == tag(i), "a share does not survive its serialisation");
            }
            GmppkePrivateKey s2(v);
            for (int t = 0; t < NT; t++) {
                auto c8 = p.encrypt<uint8_t>(pk, 0xa5, tag(t)); auto c16 = p.encrypt<uint16_t>(sp, 0xa55a, tag(t)); auto c32 = p.encrypt<uint32_t>(pk, 0xdeadbeef, tag(t));
                uint8_t o8 = 0; uint16_t o16 = 0; uint32_t o32 = 0;
                for (auto* s : {&sk, &s2}) {
                    bool open = !in(done, t);
                    ctx.check(p.decrypt(*s, c8, o8) == open && p.decrypt(*s, c16, o16) == open && p.decrypt(*s, c32, o32) == open, "tag %d", t);
                    if (open) ctx.check(o8 == 0xa5 && o16 == 0xa55a && o32 == 0xdeadbeef, "message of another width (tag %d)", t);
                    ctx.step(3);
                }
            }
        };
    // the library can be closed and opened again
    CASE("library reopened") {
        PKey k = key(0, {1});
        Ct ct = enc(0)->encrypt(7, tag(2));
        for (int i = 0; i < 3; i++) {
            cleanup_crypto_lib();
            init_crypto_lib();
            ctx.check(key(0, {1}) == k, "other shares after the library was reopened");
            expect_dec(ctx, dec(k, ct, 7), true, "reopened", 2);
        }
    };
    // the text form of the elements reads nothing but the element
    CASE("text of elements") {
        relicxx::PairingGroup g;
        for (int i = 1; i < 200; i++) {
            std::ostringstream a, b, c, d;
            relicxx::ZR z = g.randomZR();
            relicxx::G1 x = g.exp(g.generatorG1(), z);
            relicxx::G2 y = g.exp(g.generatorG2(), z);
            relicxx::GT w = g.pair(x, y);
            a << x; b << y; c << w; d << z;
            auto text = [](const std::string& s, const std::vector<uint8_t>& v) {
                std::string two, one; char h[4];
                for (auto e : v) { snprintf(h, 4, "%02x", e); two += h; snprintf(h, 4, "%x", e); one += h; }
                return s.find(one) != std::string::npos || s.find(two) != std::string::npos;
            };
            ctx.check(text(a.str(), x.getBytes()) && text(b.str(), y.getBytes()) && text(c.str(), w.getBytes()), "the text is not that of the element");
            ctx.step(4);
        }
    };
}
int main(int c, char** v) { return explore_main(c, v, explore); }
