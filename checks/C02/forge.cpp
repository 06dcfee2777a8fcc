// C02: no alteration of a ciphertext, and no other key, makes decryption succeed or release plaintext.
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "rng.hpp"
using namespace mc;

struct T { Cipher c{mk<32>(0)}; };
// x must be refused with an exception of the given kind, leaving the output alone
static bool refused(Ctx& ctx, Cipher& c, const std::string& x, const char* kind, const char* what)
{
    std::string o = "untouched output";
    const char* t = thrown([&] { c.decrypt(x, o); });
    ctx.step();
    ctx.outcome(fnv(t, strlen(t), fnv(x)));
    return ctx.check(!strcmp(t, kind), "%s: %s instead of %s (ciphertext of %zu bytes)", what, t, kind, x.size())
        && ctx.check(o == "untouched output", "%s: output changed by a refused decryption", what);
}
// message whose bytes are none of 0 and the fill byte
static std::string msg(size_t n) { std::string s = bytes(n, 400 + n); for (auto& ch : s) if (ch == 0 || (uint8_t)ch == 0xA5) ch = 0x33; return s; }
static std::string ct(size_t n, int kw = 0, uint64_t nonce = 5) { return ref::cipher_encrypt(key_content(32, kw), bytes(16, nonce), msg(n)); }

template<size_t N> void arrays(Ctx& ctx)
{
    for (size_t byte = 0; byte < N + 32; byte++) {
        if (N > 300 && byte > 70 && byte + 40 < N + 32 && byte % 97) continue;
        CASE("array N=%zu byte=%zu", N, byte) {
            Cipher c(mk<32>(0));
            std::string m = msg(N), x0 = ct(N);
            for (int bit = 0; bit < 8; bit++) {
                std::array<uint8_t, N + 32> x;
                memcpy(x.data(), x0.data(), N + 32);
                x[byte] ^= 1 << bit;
                struct { uint8_t a[32]; std::array<uint8_t, N> o; uint8_t b[32]; } s;
                memset(&s, 0xA5, sizeof s);
                const char* t = thrown([&] { c.decrypt(x, s.o); });
                ctx.step();
                ctx.check(!strcmp(t, "runtime_error"), "array decryption of an altered ciphertext: %s", t);
                size_t leak = 0;
                for (size_t i = 0; i < N; i++) leak += s.o[i] == (uint8_t)m[i];
                ctx.check(leak * 2 < N + 1 && leak < 8, "refused decryption left %zu of %zu plaintext bytes in the output", leak, N);
                for (int i = 0; i < 32; i++) ctx.check(s.a[i] == 0xA5 && s.b[i] == 0xA5, "refused decryption wrote outside the output");
            }
        };
    }
}

static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    static T t;
    size_t L = ctx.thorough ? 600 : 150;
    std::vector<size_t> lens = lengths(1, L, ctx.thorough ? 20000 : 4100);
    // every single-bit flip, every truncation, small extensions
    for (size_t n : lens)
        for (size_t byte = 0; byte < n + 32; byte++) {
            if (n > 300 && byte > 70 && byte + 40 < n + 32 && byte % 61) continue;
            CASE("flip len=%zu byte=%zu", n, byte) {
                std::string x0 = ct(n);
                for (int bit = 0; bit < 8; bit++) { std::string x = x0; x[byte] ^= 1 << bit; if (!refused(ctx, t.c, x, "runtime_error", "one bit flipped")) return; }
            };
        }
    // long ciphertexts: a bit in each of 64 places, cuts at powers of two, exchanged halves
    for (int k = 13; k <= (ctx.thorough ? 26 : 23); k++)
        for (int d : {-33, -32, -1, 0, 1}) {
            size_t n = ((size_t)1 << k) + d;
            CASE("long len=%zu", n) {
                std::string x0 = ct(n), o;
                t.c.decrypt(x0, o);
                ctx.check(o == msg(n), "decryption of a long ciphertext");
                std::vector<size_t> at{0, 11, 12, 15, 16, n + 15, n + 16, n + 31};
                for (size_t i = 0; i < 24; i++) at.push_back(16 + n * i / 24 + i % 7);
                for (size_t p = 1; p < n; p *= 2) { at.push_back(15 + p); at.push_back(16 + p); }
                if (n > (1u << 20)) for (size_t i = at.size(); i-- > 8;) if (i % 4) at.erase(at.begin() + i);
                for (size_t p : at) { x0[p] ^= 1 << (p % 8); bool r = refused(ctx, t.c, x0, "runtime_error", "one bit of a long ciphertext flipped"); x0[p] ^= 1 << (p % 8); if (!r) return; }
                for (int j = k - 1; j > 6; j -= n > (1u << 20) ? 5 : 1) {
                    if (!refused(ctx, t.c, x0.substr(0, (size_t)1 << j), "runtime_error", "long ciphertext cut")) return;
                    if (!refused(ctx, t.c, x0.substr(0, x0.size() - ((size_t)1 << j)), "runtime_error", "end of a long ciphertext cut")) return;
                }
                if (!refused(ctx, t.c, x0 + '\0', "runtime_error", "long ciphertext extended")) return;
                if (!refused(ctx, t.c, x0.substr(0, 16) + x0.substr(16 + n / 2, n - n / 2) + x0.substr(16, n / 2) + x0.substr(16 + n), "runtime_error", "halves of a long ciphertext exchanged")) return;
            };
        }
    for (size_t n : {1, 2, 16, 33})
        for (size_t byte = 0; byte < n + 32; byte++)
            CASE("replace len=%zu byte=%zu", n, byte) {
                std::string x0 = ct(n);
                for (int d = 1; d < 256; d++) { std::string x = x0; x[byte] ^= d; if (!refused(ctx, t.c, x, "runtime_error", "one byte replaced")) return; }
            };
    for (size_t n : {(size_t)1, (size_t)2, (size_t)17})
        for (size_t b1 = 0; b1 < 8 * (n + 32); b1++)
            CASE("flip2 len=%zu bit=%zu", n, b1) {
                std::string x0 = ct(n);
                x0[b1 / 8] ^= 1 << (b1 % 8);
                for (size_t b2 = b1 + 1; b2 < 8 * (n + 32); b2++) { std::string x = x0; x[b2 / 8] ^= 1 << (b2 % 8); if (!refused(ctx, t.c, x, "runtime_error", "two bits flipped")) return; }
            };
    for (size_t n : lens)
        for (int from = 0; from < 2; from++)
            CASE("truncate len=%zu %s", n, from ? "front" : "back") {
                std::string x0 = ct(n);
                for (size_t k = 0; k < n + 32; k++) {
                    if (n > 700 && k > 100 && k % 53 && k + 40 < n + 32) continue;
                    std::string x = from ? x0.substr(n + 32 - k) : x0.substr(0, k);
                    if (!refused(ctx, t.c, x, k <= 32 ? "invalid_argument" : "runtime_error", "truncated")) return;
                }
            };
    for (size_t n : lens)
        CASE("extend len=%zu", n) {
            std::string x0 = ct(n);
            for (size_t k : {1, 2, 15, 16, 17, 32, 64})
                for (int v : {0, 255, 77}) {
                    if (!refused(ctx, t.c, x0 + std::string(k, (char)v), "runtime_error", "extended")) return;
                    if (!refused(ctx, t.c, std::string(k, (char)v) + x0, "runtime_error", "extended in front")) return;
                }
            if (!refused(ctx, t.c, x0 + x0, "runtime_error", "doubled")) return;
            for (size_t pos : {(size_t)0, (size_t)12, (size_t)15, (size_t)16, (size_t)17, n + 15, n + 16, n + 31})
                for (int v : {0, 1, 255}) { std::string x = x0; x.insert(pos, 1, (char)v); if (x == x0 + std::string(1, (char)v)) continue; if (!refused(ctx, t.c, x, "runtime_error", "byte inserted")) return; }
            for (size_t pos = 0; pos < n + 32; pos++) { if (n > 300 && pos > 64 && pos + 40 < n + 32) continue; std::string x = x0; x.erase(pos, 1); if (!refused(ctx, t.c, x, x.size() <= 32 ? "invalid_argument" : "runtime_error", "byte removed")) return; }
        };
    // every cut-and-paste of two valid ciphertexts of the same and of different lengths
    for (size_t n : {(size_t)1, (size_t)2, (size_t)16, (size_t)48, (size_t)64, (size_t)100})
        for (size_t n2 : {(size_t)1, (size_t)2, (size_t)16, (size_t)48, (size_t)64, (size_t)100})
            CASE("splice %zu %zu", n, n2) {
                std::string a = ct(n, 0, 5), b = ct(n2, 0, 6);
                for (size_t i = 0; i <= a.size(); i++)
                    for (size_t j = 0; j <= b.size(); j++) {
                        if (!(i == j || j + a.size() == i + b.size() || i == 12 || i == 16 || j == 16 || i + 16 == a.size() || j + 16 == b.size())) continue;
                        std::string x = a.substr(0, i) + b.substr(j);
                        if (x == a || x == b) continue;
                        if (!refused(ctx, t.c, x, x.size() <= 32 ? "invalid_argument" : "runtime_error", "spliced")) return;
                    }
            };
    // permutations of the blocks of a ciphertext
    for (size_t n : {32, 64, 80})
        for (size_t sz : {1, 4, 16})
            CASE("swap len=%zu size=%zu", n, sz) {
                std::string x0 = ct(n);
                for (size_t i = 0; i + sz <= x0.size(); i += sz)
                    for (size_t j = i + sz; j + sz <= x0.size(); j += sz) {
                        std::string x = x0;
                        for (size_t q = 0; q < sz; q++) std::swap(x[i + q], x[j + q]);
                        if (x == x0) continue;
                        if (!refused(ctx, t.c, x, "runtime_error", "blocks exchanged")) return;
                    }
            };
    // every key at distance one, and other keys
    for (size_t n : {1, 40})
        for (int bit = 0; bit < 256; bit++)
            CASE("key-bit len=%zu bit=%d", n, bit) {
                std::string k = key_content(32, 0);
                k[bit / 8] ^= 1 << (bit % 8);
                Cipher d(key_from<32>(k));
                refused(ctx, d, ct(n), "runtime_error", "key with one bit changed");
                std::string x = ref::cipher_encrypt(k, bytes(16, 5), msg(n)), o;
                d.decrypt(x, o);
                ctx.check(o == msg(n), "decryption under the right key");
            };
    for (int kw = 1; kw < 12; kw++)
        CASE("key %d", kw) { for (size_t n : {1, 2, 16, 100}) refused(ctx, t.c, ct(n, kw), "runtime_error", "another key"); };
    // strings that are no ciphertext at all
    for (size_t n = 0; n <= 200; n++)
        CASE("garbage len=%zu", n) {
            for (int w = 0; w < 9; w++) refused(ctx, t.c, message(n, w), n <= 32 ? "invalid_argument" : "runtime_error", "no ciphertext");
        };
    // the plain layers of the construction are no ciphertexts: AEAD under the master key, without derivation
    for (size_t n : {1, 16, 100})
        CASE("wrong construction len=%zu", n) {
            std::string k = key_content(32, 0), nonce = bytes(16, 5), m = msg(n);
            refused(ctx, t.c, nonce + ref::aead_encrypt(k, nonce.substr(0, 12), m), "runtime_error", "AEAD under the master key");
            refused(ctx, t.c, nonce + ref::aead_encrypt(k, nonce.substr(4, 12), m), "runtime_error", "AEAD under the master key");
            std::string pers("encryption_key"); pers.resize(16, 0);
            refused(ctx, t.c, nonce + ref::aead_encrypt(ref::blake2b("", 32, k, std::string(16, 0), pers), nonce.substr(0, 12), m), "runtime_error", "derivation without nonce");
            refused(ctx, t.c, nonce + ref::aead_encrypt(ref::blake2b("", 32, k, nonce), nonce.substr(0, 12), m), "runtime_error", "derivation without personalisation");
            refused(ctx, t.c, nonce + m + std::string(16, 0), "runtime_error", "no tag");
        };
    arrays<1>(ctx); arrays<2>(ctx); arrays<16>(ctx); arrays<33>(ctx); arrays<64>(ctx); arrays<200>(ctx); arrays<1024>(ctx);
    // histories: no earlier call (successful, refused) makes a later forgery pass
    sequences(6, 1, ctx.thorough ? 6 : 5, [&](const std::vector<int>& v) {
        CASE("history %s", join(v).c_str()) {
            Rng::get().reset(3);
            Cipher c(mk<32>(0));
            std::string good = ct(20), m = msg(20), o;
            for (int op : v) {
                ctx.step();
                switch (op) {
                case 0: c.decrypt(good, o); ctx.check(o == m, "valid ciphertext"); break;
                case 1: { std::string x = good; x[16] ^= 1; refused(ctx, c, x, "runtime_error", "altered body"); } break;
                case 2: { std::string x = good; x[51] ^= 0x80; refused(ctx, c, x, "runtime_error", "altered tag"); } break;
                case 3: { std::string x = good; x[15] ^= 4; refused(ctx, c, x, "runtime_error", "altered nonce"); } break;
                case 4: refused(ctx, c, good.substr(0, 51), "runtime_error", "truncated"); break;
                case 5: { std::string x; c.encrypt(m, x); std::string y = x; y[20] ^= 2; refused(ctx, c, y, "runtime_error", "altered fresh ciphertext"); c.decrypt(x, o); ctx.check(o == m, "fresh ciphertext"); } break;
                }
            }
            ctx.state(fnv(join(v)));
        };
    });
}
int main(int c, char** v) { return explore_main(c, v, explore); }
