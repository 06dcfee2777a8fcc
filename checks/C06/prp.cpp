// C06: the PRP is, for every key and every length, the length-preserving permutation AEZ defines; decryption inverts it.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "refaez.hpp"
using namespace mc;
using refaez::Aez;

static void both(Ctx& ctx, Prp& p, const Aez& ref, const std::string& m, bool overloads = true)
{
    std::string want = ref.encipher(m);
    std::string c;
    p.encrypt(m, c);
    same(ctx, c, want, "encrypt");
    std::string d;
    p.decrypt(want, d);
    same(ctx, d, m, "decrypt");
    // and the other way round: every string is a ciphertext
    std::string e = p.decrypt(m);
    ctx.check(e.size() == m.size(), "decrypt does not preserve the length");
    same(ctx, ref.encipher(e), m, "encrypt of decrypt");
    ctx.outcome(want);
    ctx.step(3);
    if (!overloads) return;
    same(ctx, p.encrypt(m), want, "encrypt (value)");
    same(ctx, p.decrypt(want), m, "decrypt (value)");
    Guarded g(m.size(), m.size() % 16), h(m.size(), (m.size() / 3) % 16);
    p.encrypt(u8(m), (unsigned)m.size(), g.p());
    same(ctx, g.get(), want, "encrypt (buffer)");
    p.decrypt(u8(want), (unsigned)m.size(), h.p());
    same(ctx, h.get(), m, "decrypt (buffer)");
    ctx.check(g.intact() && h.intact(), "bytes around the output were modified");
    ctx.step(4);
}

static void explore(Ctx& ctx)
{
    init_crypto_lib();
    const bool T = ctx.thorough;
    // every length, several contents and keys
    for (size_t n : lengths(0, T ? 4200 : 1300, T ? 8u << 20 : 1u << 22, 2))
        for (int w = 0; w < (n <= 1300 ? 5 : 1); w++)
            for (int k = 0; k < (n <= 130 ? 10 : n <= 1300 ? 2 : 1); k++)
                CASE("length %zu content %d key %d", n, w, k) {
                    Prp p(mk<48>(k));
                    Aez ref(key_content(48, k));
                    both(ctx, p, ref, message(n, w));
                };
    // whole domains: 1- and 2-byte strings
    for (int k = 0; k < (T ? 40 : 6); k++) {
        CASE("all 1-byte strings key %d", k) {
            Prp p(mk<48>(k)); Aez ref(key_content(48, k));
            std::vector<bool> hit(256);
            for (int x = 0; x < 256; x++) {
                std::string m(1, (char)x);
                both(ctx, p, ref, m, false);
                unsigned c = (unsigned char)p.encrypt(m)[0];
                ctx.check(!hit[c], "two strings have the same image %u", c);
                hit[c] = true;
            }
        };
        for (int hi = 0; hi < 256; hi += 32)
            CASE("2-byte strings %02x..%02x key %d", hi, hi + 31, k) {
                Prp p(mk<48>(k)); Aez ref(key_content(48, k));
                for (int x = hi << 8; x < (hi + 32) << 8; x++) {
                    std::string m(2, 0); m[0] = (char)(x >> 8); m[1] = (char)x;
                    std::string c = p.encrypt(m);
                    same(ctx, c, ref.encipher(m), "encrypt");
                    same(ctx, p.decrypt(c), m, "decrypt");
                    ctx.step(2);
                    if (x % 1024 == 0) ctx.tick();
                }
            };
    }
    if (T)
        for (int hi = 0; hi < 256; hi++)
            CASE("3-byte strings %02x....", hi) {
                Prp p(mk<48>(0)); Aez ref(key_content(48, 0));
                for (int x = hi << 16; x < (hi + 1) << 16; x++) {
                    std::string m(3, 0); m[0] = (char)(x >> 16); m[1] = (char)(x >> 8); m[2] = (char)x;
                    std::string c = p.encrypt(m);
                    same(ctx, c, ref.encipher(m), "encrypt");
                    same(ctx, p.decrypt(c), m, "decrypt");
                    ctx.step(2);
                    if (x % 1024 == 0) ctx.tick();
                }
            };
    // every single byte value at every position
    for (size_t n : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 96, 128, 160, 255, 288, 300})
        for (size_t pos = 0; pos < n; pos++)
            CASE("length %zu byte %zu", n, pos) {
                Prp p(mk<48>(1 + pos % 7)); Aez ref(key_content(48, 1 + pos % 7));
                std::string m = message(n, 3);
                for (int v = 0; v < 256; v += (n > 40 && !T) ? 15 : 1) { m[pos] = (char)v; both(ctx, p, ref, m, false); }
            };
    // every key bit
    for (int bit = 0; bit < 384; bit++)
        CASE("key bit %d", bit) {
            std::string k = key_content(48, 0);
            k[bit / 8] ^= (char)(1 << (bit % 8));
            Prp p(key_from<48>(k)); Aez ref(k);
            for (size_t n : {1, 2, 5, 9, 16, 23, 31, 32, 47, 64, 79, 100, 300}) both(ctx, p, ref, message(n, bit % 5), false);
        };
    // integers
    for (int k = 0; k < 10; k++)
        for (int bit = -1; bit < 64; bit++)
            CASE("integers key %d bit %d", k, bit) {
                Prp p(mk<48>(k)); Aez ref(key_content(48, k));
                for (int base = 0; base < 4; base++) {
                    uint64_t v = base == 0 ? 0 : base == 1 ? ~0ULL : mix(base);
                    if (bit >= 0) v ^= 1ULL << bit;
                    uint32_t w = (uint32_t)(v ^ (v >> 32));
                    std::string s8((char*)&v, 8), s4((char*)&w, 4), e8 = ref.encipher(s8), e4 = ref.encipher(s4);
                    uint64_t c8 = p.encrypt_64(v); uint32_t c4 = p.encrypt(w);
                    same(ctx, std::string((char*)&c8, 8), e8, "encrypt_64");
                    same(ctx, std::string((char*)&c4, 4), e4, "encrypt(uint32)");
                    ctx.check(p.decrypt_64(c8) == v, "decrypt_64 does not invert encrypt_64");
                    ctx.check(p.decrypt(c4) == w, "decrypt(uint32) does not invert encrypt(uint32)");
                    uint64_t u8v = p.decrypt_64(v); uint32_t u4 = p.decrypt(w);
                    ctx.check(p.encrypt_64(u8v) == v && p.encrypt(u4) == w, "encrypt does not invert decrypt");
                    ctx.step(8);
                    ctx.outcome(e8);
                }
            };
    // histories: operations on two live objects and their moved versions
    sequences(8, 1, T ? 6 : 5, [&](const std::vector<int>& seq) {
        CASE("history %s", join(seq).c_str()) {
            Aez r0(key_content(48, 0)), r1(key_content(48, 7));
            std::unique_ptr<Prp> a(new Prp(mk<48>(0))), b(new Prp(mk<48>(7)));
            std::string last = "initial string of some length....";
            std::string shared; // result string reused over the history
            uint64_t h = 0;
            for (int op : seq) {
                std::string want;
                switch (op) {
                case 0: a->encrypt(last, shared); want = r0.encipher(last); break;
                case 1: b->encrypt(last, shared); want = r1.encipher(last); break;
                case 2: want = last; a->decrypt(r0.encipher(last), shared); break;
                case 3: want = last; b->decrypt(r1.encipher(last), shared); break;
                case 4: { std::unique_ptr<Prp> t(new Prp(std::move(*a))); a = std::move(t); want = shared; break; }
                case 5: a.swap(b); std::swap(r0, r1); want = shared; break;
                case 6: last.resize(7); a->encrypt(last, shared); want = r0.encipher(last); break;
                case 7: last = message(70, 2); b->encrypt(last, shared); want = r1.encipher(last); break;
                }
                same(ctx, shared, want, "result");
                ctx.step();
                h = fnv(last, h * 31 + op);
                ctx.state(h);
            }
        };
    });
}
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
