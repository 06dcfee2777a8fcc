// C01: decrypting an encryption gives the message back, for every message, key and history; and the ciphertexts have
// the documented format (they are the ones of an independent implementation, which they also decrypt).
#define MC_MAIN
#include "sse.hpp"
#include "ref.hpp"
#include "rng.hpp"
using namespace mc;

static std::string enc(Cipher& c, const std::string& m) { std::string o = "old content"; c.encrypt(m, o); return o; }
static std::string dec(Cipher& c, const std::string& x) { std::string o = "old content"; c.decrypt(x, o); return o; }

static void one(Ctx& ctx, int kw, const std::string& m, uint64_t label)
{
    Cipher c(mk<32>(kw));
    std::string k = key_content(32, kw);
    Rng::get().reset(label);
    std::string x = enc(c, m);
    ctx.check(x.size() == m.size() + 32, "ciphertext of %zu bytes for %zu", x.size(), m.size());
    ctx.check(Cipher::ciphertext_length(m.size()) == x.size() && Cipher::plaintext_length(x.size()) == m.size(), "length functions");
    if (x.size() >= 16) same(ctx, x, ref::cipher_encrypt(k, x.substr(0, 16), m), "ciphertext");
    same(ctx, dec(c, x), m, "decryption");
    // another object with the same key, another nonce made by the reference
    Cipher d(mk<32>(kw));
    same(ctx, dec(d, x), m, "decryption by another object");
    std::string y = ref::cipher_encrypt(k, bytes(16, label + 17), m);
    same(ctx, dec(d, y), m, "decryption of a reference ciphertext");
    // in place
    std::string z = m;
    c.encrypt(z, z);
    same(ctx, dec(d, z), m, "decryption of an in-place encryption");
    d.decrypt(z, z);
    same(ctx, z, m, "in-place decryption");
    ctx.step(6);
    ctx.outcome(fnv(x));
}

template<size_t N> void arrays(Ctx& ctx)
{
    for (int w = 0; w < 5; w++)
        CASE("array N=%zu content=%d", N, w) {
            Cipher c(mk<32>(w));
            std::string k = key_content(32, w), m = message(N, w);
            struct { uint8_t a[16]; std::array<uint8_t, N> in; uint8_t b[16]; std::array<uint8_t, N + 32> x; uint8_t c[16]; std::array<uint8_t, N> out; uint8_t d[16]; } s;
            memset(&s, 0xA5, sizeof s);
            memcpy(s.in.data(), m.data(), N);
            Rng::get().reset(w);
            c.encrypt(s.in, s.x);
            same(ctx, str(s.in), m, "input array after encryption");
            std::string x = str(s.x);
            same(ctx, x, ref::cipher_encrypt(k, x.substr(0, 16), m), "ciphertext array");
            c.decrypt(s.x, s.out);
            same(ctx, str(s.out), m, "decrypted array");
            same(ctx, str(s.x), x, "ciphertext array after decryption");
            same(ctx, dec(c, x), m, "string decryption of an array ciphertext");
            std::string y = enc(c, m);
            std::array<uint8_t, N + 32> ya;
            memcpy(ya.data(), y.data(), N + 32);
            c.decrypt(ya, s.out);
            same(ctx, str(s.out), m, "array decryption of a string ciphertext");
            for (uint8_t* p : {s.a, s.b, s.c, s.d}) for (int i = 0; i < 16; i++) ctx.check(p[i] == 0xA5, "array functions wrote outside their output");
            ctx.step(5); ctx.outcome(fnv(x));
        };
}

// Two ciphers (0 and 1 with the same key, 2 with another one), live ciphertexts as the model state.
struct Sys
{
    Cipher c0{mk<32>(0)}, c1{mk<32>(0)}, c2{mk<32>(6)};
    Cipher& at(int i) { return i == 0 ? c0 : i == 1 ? c1 : c2; }
    struct Ct { std::string x, m; int key; };
    std::vector<Ct> live;
};
static const char* NAMES[] = {"enc0a", "enc0b", "enc1a", "enc2a", "dec_last_same", "dec_first_same", "dec_other_key", "dec_bad", "dec_short", "enc_empty", "move0", "array"};
static void step(Ctx& ctx, Sys& s, int op)
{
    std::string A = "a", B = bytes(100, 3);
    ctx.step();
    auto encr = [&](int i, const std::string& m) {
        std::string x = enc(s.at(i), m);
        int key = i == 2 ? 6 : 0;
        same(ctx, x, ref::cipher_encrypt(key_content(32, key), x.substr(0, 16), m), "ciphertext");
        for (auto& l : s.live) ctx.check(l.x.substr(0, 16) != x.substr(0, 16), "two encryptions used the same nonce");
        s.live.push_back({x, m, key});
    };
    auto right = [&](const Sys::Ct& l, int alt) -> Cipher& { return l.key == 6 ? s.c2 : alt ? s.c1 : s.c0; };
    switch (op) {
    case 0: encr(0, A); break;
    case 1: encr(0, B); break;
    case 2: encr(1, A); break;
    case 3: encr(2, A); break;
    case 4: if (!s.live.empty()) same(ctx, dec(right(s.live.back(), 1), s.live.back().x), s.live.back().m, "decryption of the last ciphertext"); break;
    case 5: if (!s.live.empty()) same(ctx, dec(right(s.live[0], 0), s.live[0].x), s.live[0].m, "decryption of the first ciphertext"); break;
    case 6: if (!s.live.empty()) { auto& l = s.live.back(); std::string o = "old"; expect(ctx, "runtime_error", [&] { (l.key == 6 ? s.c0 : s.c2).decrypt(l.x, o); }, "decryption under another key"); ctx.check(o == "old", "refused decryption changed the output"); } break;
    case 7: { std::string x = s.live.empty() ? bytes(50, 1) : s.live.back().x; x[x.size() - 1] ^= 1; std::string o = "old"; expect(ctx, "runtime_error", [&] { s.c0.decrypt(x, o); }, "decryption of an altered ciphertext"); ctx.check(o == "old", "refused decryption changed the output"); } break;
    case 8: { std::string o = "old"; expect(ctx, "invalid_argument", [&] { s.c0.decrypt(std::string(32, 'x'), o); }, "decryption of 32 bytes"); ctx.check(o == "old", "refused decryption changed the output"); } break;
    case 9: { std::string o = "old"; expect(ctx, "invalid_argument", [&] { s.c1.encrypt("", o); }, "encryption of the empty string"); ctx.check(o == "old", "refused encryption changed the output"); } break;
    case 10: { Cipher t(std::move(s.c0)); s.c0.~Cipher(); new (&s.c0) Cipher(std::move(t)); } break;
    case 11: {
        std::array<uint8_t, 1> m{{'a'}}; std::array<uint8_t, 33> x;
        s.c1.encrypt(m, x);
        s.live.push_back({str(x), "a", 0});
        std::array<uint8_t, 1> o;
        s.c0.decrypt(x, o);
        ctx.check(o == m, "array decryption by the other object");
    } break;
    }
}

static void explore(Ctx& ctx)
{
    Rng::install();
    init_crypto_lib();
    for (size_t n : lengths(1, ctx.thorough ? 9000 : 2200, ctx.thorough ? (64u << 20) : (4u << 20)))
        for (int w = 0; w < (n <= 2200 ? 5 : 1); w++)
            CASE("message len=%zu content=%d", n, w) { one(ctx, w, message(n, w), n * 8 + w); };
    // every one-byte message, and every two-byte message by first byte
    for (int a = 0; a < 256; a++)
        CASE("message byte %02x", a) {
            Cipher c(mk<32>(0));
            for (int b = -1; b < 256; b++) {
                std::string m(1, (char)a);
                if (b >= 0) m += (char)b;
                std::string x = enc(c, m);
                same(ctx, x, ref::cipher_encrypt(key_content(32, 0), x.substr(0, 16), m), "ciphertext");
                same(ctx, dec(c, x), m, "decryption");
                ctx.step(2);
            }
        };
    for (int kw = 0; kw < 40; kw++)
        for (size_t n : {1, 2, 15, 16, 17, 63, 64, 65, 200})
            CASE("key %d len=%zu", kw, n) { one(ctx, kw, message(n, 0), 90000 + n); };
    // special nonces
    for (int byte = 0; byte < 16; byte++)
        for (int v = 0; v < 256; v++)
            CASE("nonce byte %d=%d", byte, v) {
                std::string nonce(16, '\0'), m = "the message";
                nonce[byte] = (char)v;
                Cipher c(mk<32>(3));
                same(ctx, dec(c, ref::cipher_encrypt(key_content(32, 3), nonce, m)), m, "decryption of a reference ciphertext");
                auto& r = Rng::get();
                r.reset(1);
                r.forced.assign(nonce.begin(), nonce.end());
                std::string x = enc(c, m);
                same(ctx, dec(c, x), m, "decryption");
                same(ctx, x, ref::cipher_encrypt(key_content(32, 3), x.substr(0, 16), m), "ciphertext");
                ctx.step(3);
            };
    for (int v = 0; v < 256; v++)
        CASE("nonce all=%d", v) {
            auto& r = Rng::get();
            r.reset(1); r.constant = true; r.value = v;
            Cipher c(mk<32>(3));
            std::string x = enc(c, "msg");
            r.reset(2);
            same(ctx, dec(c, x), "msg", "decryption");
            same(ctx, x, ref::cipher_encrypt(key_content(32, 3), x.substr(0, 16), "msg"), "ciphertext");
        };
    arrays<1>(ctx); arrays<2>(ctx); arrays<15>(ctx); arrays<16>(ctx); arrays<17>(ctx); arrays<31>(ctx); arrays<32>(ctx); arrays<33>(ctx);
    arrays<63>(ctx); arrays<64>(ctx); arrays<65>(ctx); arrays<127>(ctx); arrays<128>(ctx); arrays<129>(ctx); arrays<255>(ctx); arrays<256>(ctx);
    arrays<257>(ctx); arrays<1000>(ctx); arrays<1023>(ctx); arrays<1024>(ctx); arrays<1025>(ctx); arrays<4096>(ctx); arrays<16000>(ctx);
    sequences(12, 1, ctx.thorough ? 5 : 4, [&](const std::vector<int>& v) {
        CASE("history %s", join(v).c_str()) {
            Rng::get().reset(7);
            Sys s;
            std::string st;
            for (int o : v) step(ctx, s, o);
            for (auto& l : s.live) { same(ctx, dec(l.key == 6 ? s.c2 : s.c1, l.x), l.m, "decryption at the end of the history"); st += l.x; }
            ctx.state(fnv(st));
        };
    });
    for (size_t n = 0; n < 200; n++)
        CASE("length functions %zu", n) {
            ctx.check(Cipher::ciphertext_length(n) == n + 32, "ciphertext_length(%zu)", n);
            ctx.check(Cipher::plaintext_length(n) == (n > 32 ? n - 32 : 0), "plaintext_length(%zu)", n);
        };
}
int main(int c, char** v) { return explore_main(c, v, explore); }
