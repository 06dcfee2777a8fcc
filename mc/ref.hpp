// Independent reference implementations, written from the specifications (RFC 7693, RFC 7539, RFC 2104) and not
// from the repository or libsodium. SHA-512 and ChaCha20-Poly1305 are OpenSSL's.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <string>
#include <vector>

namespace ref {
using bytes = std::string;

// ---- BLAKE2b (RFC 7693, with the salt and personalisation of the BLAKE2 paper) ----
inline uint64_t rotr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
inline uint64_t le64(const uint8_t* p) { uint64_t r = 0; for (int i = 7; i >= 0; i--) r = r << 8 | p[i]; return r; }
inline bytes blake2b(const bytes& in, size_t outlen = 64, const bytes& key = "", const bytes& salt = "", const bytes& pers = "")
{
    static const uint64_t IV[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
                                   0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
    static const uint8_t S[10][16] = {
        {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
        {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
        {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
        {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
        {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
    uint8_t param[64] = {0};
    param[0] = (uint8_t)outlen; param[1] = (uint8_t)key.size(); param[2] = 1; param[3] = 1;
    memcpy(param + 32, salt.data(), salt.size());
    memcpy(param + 48, pers.data(), pers.size());
    uint64_t h[8];
    for (int i = 0; i < 8; i++) h[i] = IV[i] ^ le64(param + 8 * i);
    bytes m;
    if (!key.empty()) { m = key; m.resize(128, 0); }
    m += in;
    size_t total = m.size();
    size_t nblocks = total == 0 ? 1 : (total + 127) / 128;
    m.resize(nblocks * 128, 0);
    for (size_t b = 0; b < nblocks; b++) {
        uint64_t w[16], v[16];
        for (int i = 0; i < 16; i++) w[i] = le64((const uint8_t*)m.data() + 128 * b + 8 * i);
        for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
        bool last = b + 1 == nblocks;
        uint64_t t = last ? total : (b + 1) * 128;
        v[12] ^= t;
        if (last) v[14] = ~v[14];
        for (int r = 0; r < 12; r++) {
            const uint8_t* s = S[r % 10];
            auto G = [&](int a, int b2, int c, int d, uint64_t x, uint64_t y) {
                v[a] += v[b2] + x; v[d] = rotr64(v[d] ^ v[a], 32); v[c] += v[d]; v[b2] = rotr64(v[b2] ^ v[c], 24);
                v[a] += v[b2] + y; v[d] = rotr64(v[d] ^ v[a], 16); v[c] += v[d]; v[b2] = rotr64(v[b2] ^ v[c], 63);
            };
            G(0, 4, 8, 12, w[s[0]], w[s[1]]); G(1, 5, 9, 13, w[s[2]], w[s[3]]); G(2, 6, 10, 14, w[s[4]], w[s[5]]); G(3, 7, 11, 15, w[s[6]], w[s[7]]);
            G(0, 5, 10, 15, w[s[8]], w[s[9]]); G(1, 6, 11, 12, w[s[10]], w[s[11]]); G(2, 7, 8, 13, w[s[12]], w[s[13]]); G(3, 4, 9, 14, w[s[14]], w[s[15]]);
        }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    bytes out(64, 0);
    for (int i = 0; i < 64; i++) out[i] = (char)(h[i / 8] >> (8 * (i % 8)));
    out.resize(outlen);
    return out;
}
inline bytes sha512(const bytes& in)
{
    bytes o(64, 0);
    SHA512((const uint8_t*)in.data(), in.size(), (uint8_t*)&o[0]);
    return o;
}
// ---- HMAC (RFC 2104), 128-byte blocks, keys of at most a block ----
template<class H> bytes hmac(H hash, bytes key, const bytes& in)
{
    key.resize(128, 0);
    bytes i = key, o = key;
    for (auto& c : i) c ^= 0x36;
    for (auto& c : o) c ^= 0x5c;
    return hash(o + hash(i + in));
}
inline bytes hmac_blake2b(const bytes& key, const bytes& in)
{
    return hmac([](const bytes& x) { return blake2b(x); }, key, in);
}
// The PRF: one HMAC block truncated, or, above 64 bytes, the blocks HMAC(in || counter byte).
inline bytes prf(const bytes& key, const bytes& in, size_t n)
{
    if (n <= 64) return hmac_blake2b(key, in).substr(0, n);
    bytes o;
    for (unsigned i = 0; o.size() < n; i++) o += hmac_blake2b(key, in + (char)(uint8_t)i);
    return o.substr(0, n);
}
// ---- ChaCha20 (original 64-bit counter, 64-bit nonce) ----
inline uint32_t rotl32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
inline uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
inline void chacha_block(const uint8_t key[32], uint32_t w12, uint32_t w13, uint32_t w14, uint32_t w15, uint8_t out[64])
{
    uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    for (int i = 0; i < 8; i++) s[4 + i] = le32(key + 4 * i);
    s[12] = w12; s[13] = w13; s[14] = w14; s[15] = w15;
    uint32_t x[16];
    memcpy(x, s, sizeof x);
    auto Q = [&](int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 7);
    };
    for (int i = 0; i < 10; i++) {
        Q(0, 4, 8, 12); Q(1, 5, 9, 13); Q(2, 6, 10, 14); Q(3, 7, 11, 15);
        Q(0, 5, 10, 15); Q(1, 6, 11, 12); Q(2, 7, 8, 13); Q(3, 4, 9, 14);
    }
    for (int i = 0; i < 16; i++) { uint32_t y = x[i] + s[i]; for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t)(y >> (8 * j)); }
}
// bytes [offset, offset+len) of the key stream with an all-zero 8-byte nonce (64-bit block counter)
inline bytes keystream(const bytes& key, uint64_t offset, size_t len)
{
    bytes o;
    o.reserve(len + 64);
    uint64_t b = offset / 64;
    uint8_t blk[64];
    size_t skip = offset % 64;
    while (o.size() < len) {
        chacha_block((const uint8_t*)key.data(), (uint32_t)b, (uint32_t)(b >> 32), 0, 0, blk);
        o.append((char*)blk + skip, 64 - skip);
        skip = 0; b++;
    }
    o.resize(len);
    return o;
}
// IETF variant: 32-bit counter from 0, 12-byte nonce
inline bytes chacha_ietf_xor(const bytes& key, const bytes& nonce, const bytes& in)
{
    bytes o = in;
    uint8_t blk[64];
    const uint8_t* n = (const uint8_t*)nonce.data();
    for (size_t i = 0; i < in.size(); i++) {
        if (i % 64 == 0) chacha_block((const uint8_t*)key.data(), (uint32_t)(i / 64), le32(n), le32(n + 4), le32(n + 8), blk);
        o[i] ^= blk[i % 64];
    }
    return o;
}
// ---- ChaCha20-Poly1305 (RFC 7539), OpenSSL ----
inline bytes aead_encrypt(const bytes& key, const bytes& nonce12, const bytes& in)
{
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    bytes o(in.size() + 16, 0);
    int n = 0;
    EVP_EncryptInit_ex(c, EVP_chacha20_poly1305(), nullptr, nullptr, nullptr);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, 12, nullptr);
    EVP_EncryptInit_ex(c, nullptr, nullptr, (const uint8_t*)key.data(), (const uint8_t*)nonce12.data());
    EVP_EncryptUpdate(c, (uint8_t*)&o[0], &n, (const uint8_t*)in.data(), (int)in.size());
    EVP_EncryptFinal_ex(c, (uint8_t*)&o[0] + n, &n);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, &o[in.size()]);
    EVP_CIPHER_CTX_free(c);
    return o;
}
// The library's cipher: nonce(16) || AEAD under BLAKE2b(key; salt = nonce), IV = first 12 bytes of the nonce
inline bytes cipher_encrypt(const bytes& key, const bytes& nonce16, const bytes& in)
{
    bytes pers("encryption_key"); pers.resize(16, 0);
    bytes sub = blake2b("", 32, key, nonce16, pers);
    return nonce16 + aead_encrypt(sub, nonce16.substr(0, 12), in);
}
} // namespace ref
