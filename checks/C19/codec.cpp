// C19: base64, PEM and ASN.1 codecs: all short strings, all lengths and rooms, against independent models, in buffers that end at unmapped pages.
#define MC_MAIN
#include "mc.hpp"
#include "fenced.hpp"
#include <algorithm>
#include <gmpxx.h>
#include <sse/crypto/utils.hpp>
extern "C" {
#include "mbedtls/asn1.h"
#include "mbedtls/asn1write.h"
#include "mbedtls/base64.h"
#include "mbedtls/bignum.h"
#include "mbedtls/pem.h"
}
using namespace mc;
typedef std::string S;
#define CK(c, ...) (ctx.checks++, (c) ? true : (ctx.fail(__VA_ARGS__), false))
static const uint8_t* U(const S& s) { return reinterpret_cast<const uint8_t*>(s.data()); }

// ---- base64 ---------------------------------------------------------------------------------------------------------
static const char* A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S enc_model(const S& d)
{
    S o; size_t i = 0;
    unsigned acc = 0, bits = 0;
    for (; i < d.size(); i++) { acc = (acc << 8) | (uint8_t)d[i]; bits += 8; while (bits >= 6) { bits -= 6; o += A64[(acc >> bits) & 63]; } }
    if (bits) o += A64[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
// What the text stands for: symbols with line ends (LF or CR LF, spaces before them or at the very end), in complete quanta with at most two '='
static bool dec_model(const S& t, S& out)
{
    S sym; size_t i = 0, n = t.size();
    out.clear();
    while (i < n) {
        size_t j = i; while (j < n && t[j] == ' ') j++;
        if (j == n) break;
        if (t[j] == '\n') { i = j + 1; continue; }
        if (t[j] == '\r' && j + 1 < n && t[j + 1] == '\n') { i = j + 2; continue; }
        if (j != i) return false;
        if (t[i] != '=' && (t[i] == 0 || !strchr(A64, t[i]))) return false;
        sym += t[i++];
    }
    size_t e = sym.find('='); if (e == S::npos) e = sym.size();
    if (sym.size() - e > 2 || sym.size() % 4) return false;
    for (size_t k = e; k < sym.size(); k++) if (sym[k] != '=') return false;
    unsigned acc = 0, bits = 0;
    for (size_t k = 0; k < e; k++) { acc = (acc << 6) | (unsigned)(strchr(A64, sym[k]) - A64); bits += 6; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); } }
    return true;
}
static void decode_all(Ctx& ctx, const S& t, const std::vector<long>& rooms)
{
    S m; bool ok = dec_model(t, m);
    Fence in(t.size(), Fence::END, t.data());
    for (long d : rooms) {
        long room = d == 1000000 ? -1 : (long)m.size() + d;
        if (room < 0 && d != 1000000) continue;
        bool null = d == 1000000; if (null) room = 0;
        Fence out(room, Fence::END); memset(out.p, 0xA5, room);
        size_t ol = 777; int r = mbedtls_base64_decode(null ? nullptr : out.p, room, &ol, in.p, t.size());
        ctx.step();
        if (!ok) CK(r == MBEDTLS_ERR_BASE64_INVALID_CHARACTER, "decoding the malformed text \"%s\" into %ld bytes returned %d", hex(t).c_str(), room, r);
        else if (m.empty()) CK(r == 0 && ol == 0, "decoding the empty text returned %d and %zu", r, ol);
        else if (null || (size_t)room < m.size()) {
            CK(r == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && ol == m.size(), "decoding %s into %ld bytes returned %d and the size %zu, %zu expected", hex(t).c_str(), room, r, ol, m.size());
            CK(out.get() == S(room, '\xA5'), "a too small output was written to");
        } else {
            CK(r == 0 && ol == m.size() && !memcmp(out.p, m.data(), m.size()), "decoding %s returned %d and %zu bytes %s, expected %s", hex(t).c_str(), r, ol, hex(out.get()).c_str(), hex(m).c_str());
            CK(S((char*)out.p + m.size(), room - m.size()) == S(room - m.size(), '\xA5'), "decoding %s wrote behind its result", hex(t).c_str());
        }
        CK(out.intact(), "decoding %s into %ld bytes wrote before its output", hex(t).c_str(), room);
    }
}
static void round_trip(Ctx& ctx, const S& d, bool all_rooms)
{
    S e = enc_model(d);
    std::vector<size_t> rooms; if (all_rooms) for (size_t r = 0; r <= e.size() + 3; r++) rooms.push_back(r); else rooms = {e.size(), e.size() + 1, e.size() + 9};
    for (int w = 0; w < 2; w++) {
        Fence in(d.size(), w ? Fence::BEGIN : Fence::END, d.data()); in.readonly();
        for (size_t room : rooms) {
            Fence out(room, w ? Fence::BEGIN : Fence::END); memset(out.p, 0xA5, room);
            size_t ol = 777; int r = mbedtls_base64_encode(out.p, room, &ol, in.p, d.size());
            ctx.step();
            if (d.empty()) CK(r == 0 && ol == 0, "encoding nothing returned %d and %zu", r, ol);
            else if (room < e.size() + 1) {
                CK(r == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && ol == e.size() + 1, "encoding %zu bytes into %zu returned %d and the size %zu", d.size(), room, r, ol);
                CK(out.get() == S(room, '\xA5'), "encoding %zu bytes into %zu wrote to the output", d.size(), room);
            } else {
                CK(r == 0 && ol == e.size() && !memcmp(out.p, e.c_str(), e.size() + 1), "encoding %s returned %d, %zu, %s", hex(d).c_str(), r, ol, hex(out.get()).c_str());
                CK(S((char*)out.p + e.size() + 1, room - e.size() - 1) == S(room - e.size() - 1, '\xA5'), "encoding %zu bytes wrote behind its result", d.size());
            }
            CK(out.intact(), "encoding %zu bytes into %zu wrote beside its output", d.size(), room);
        }
    }
    size_t ol = 777; int r = mbedtls_base64_encode(nullptr, 0, &ol, U(d), d.size());
    CK(d.empty() ? r == 0 && ol == 0 : r == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && ol == e.size() + 1, "the size of %zu encoded bytes: %d, %zu", d.size(), r, ol);
    decode_all(ctx, e, {1000000, -1, 0, 1, 2});
}
static void base64(Ctx& ctx)
{
    bool T = ctx.thorough;
    for (size_t n : lengths(0, 400, T ? 1 << 24 : 1 << 20)) CASE("base64 of %zu bytes", n) {
        for (int c = 0; c < (n > 5000 ? 1 : 4); c++) {
            S d = c == 0 ? bytes(n, n + 1) : c == 1 ? S(n, 0) : c == 2 ? S(n, '\xff') : S(n, 0x55);
            round_trip(ctx, d, n <= 200 && c == 0);
            if (n <= 5000) for (int w : {1, 4, 64, 76}) for (const char* eol : {"\n", "\r\n", "  \n", " \r\n"}) { // text in lines, with and without a last line end
                S e = enc_model(d), t; for (size_t i = 0; i < e.size(); i += w) { t += e.substr(i, w); if (i + w < e.size()) t += eol; }
                decode_all(ctx, t, {0}); decode_all(ctx, t + eol, {0}); decode_all(ctx, t + "   ", {0});
            }
        }
        ctx.outcome(n);
    };
    for (int a = 0; a < 256; a++) CASE("base64 of all strings that start with %02x", a) {
        S d(1, (char)a); round_trip(ctx, d, true); d += '\0';
        for (int b = 0; b < 256; b++) { d[1] = (char)b; round_trip(ctx, d, false);
            if (T) { S e3 = d + '\0'; for (int c = 0; c < 256; c++) { e3[2] = (char)c; S e = enc_model(e3); uint8_t o[8]; size_t ol; CK(mbedtls_base64_encode(o, 5, &ol, U(e3), 3) == 0 && e == (char*)o && ol == 4, "encoding %s", hex(e3).c_str()); decode_all(ctx, e, {0}); } } }
        ctx.outcome(a);
    };
    // all texts over an alphabet with one symbol of each kind
    static const char alpha[] = {'A', 'q', '/', '=', ' ', '\r', '\n', '\0', '-'};
    int K = sizeof alpha, depth = T ? 9 : 8;
    int P = K * K * K;
    for (int pre = 0; pre < P; pre++) CASE("texts with prefix %d", pre) {
        S p; for (int k = 0, v = pre; k < 3; k++, v /= K) p += alpha[v % K];
        sequences(K, 0, depth - 3, [&](const std::vector<int>& v) { S t = p; for (int x : v) t += alpha[x]; decode_all(ctx, t, {0, -1}); });
        if (pre == 0) sequences(K, 0, 2, [&](const std::vector<int>& v) { S t; for (int x : v) t += alpha[x]; decode_all(ctx, t, {1000000, -1, 0, 1}); });
        ctx.outcome(pre + 1000);
    };
    // four symbols and more, over the symbols and line ends only
    static const char beta[] = {'Z', '=', '\n'};
    for (int n = 4; n <= (T ? 16 : 13); n++) for (int pre = 0; pre < 9; pre++) CASE("texts of %d symbols, prefix %d", n, pre) {
        int m = n - 2; std::vector<int> v(m, 0);
        for (;;) { S t{beta[pre % 3], beta[pre / 3]}; for (int x : v) t += beta[x]; decode_all(ctx, t, {0, -1}); int i = m - 1; while (i >= 0 && ++v[i] == 3) v[i--] = 0; if (i < 0) break; }
    };
    for (int pos = 0; pos < 20; pos++) CASE("base64 text altered at %d", pos) {
        for (size_t l = 9; l < 13; l++) { S e = enc_model(bytes(l, l)); for (int eol = 0; eol < 3; eol++) {
            S t = e; if (eol) t.insert(8, eol == 1 ? "\n" : "\r\n"); if (pos >= (int)t.size()) continue;
            for (int v = 0; v < 256; v++) { S x = t; x[pos] = (char)v; decode_all(ctx, x, {1000000, 0, -1}); x = t; x.insert(pos, 1, (char)v); decode_all(ctx, x, {0, 1}); }
            S x = t; x.erase(pos, 1); decode_all(ctx, x, {1000000, 0}); decode_all(ctx, t.substr(0, pos), {1000000, 0});
        } }
    };
}

// ---- PEM ------------------------------------------------------------------------------------------------------------
static S pem_model(const S& h, const S& f, const S& d)
{
    S e = enc_model(d), t = h;
    for (size_t i = 0; i < e.size(); i += 64) t += e.substr(i, 64) + "\n";
    return t + f;
}
// What the documented reader does with a text: 0 and the data, or the class of refusal
static int pem_read_model(const S& h, const S& f, const S& full, S& out, size_t& used)
{
    S t = full.c_str(); // up to the first NUL
    size_t a = t.find(h), b = t.find(f);
    if (a == S::npos || b == S::npos || b <= a) return MBEDTLS_ERR_PEM_NO_HEADER_FOOTER_PRESENT;
    auto at = [&](size_t i) { return i < t.size() ? t[i] : '\0'; };
    a += h.size(); if (at(a) == ' ') a++; if (at(a) == '\r') a++; if (at(a) != '\n') return MBEDTLS_ERR_PEM_NO_HEADER_FOOTER_PRESENT; a++;
    size_t e = b + f.size(); if (at(e) == ' ') e++; if (at(e) == '\r') e++; if (at(e) == '\n') e++;
    used = e;
    if (a >= b) return MBEDTLS_ERR_PEM_INVALID_DATA;
    S body = t.substr(a, b - a);
    if (body.compare(0, 22, "Proc-Type: 4,ENCRYPTED") == 0) return MBEDTLS_ERR_PEM_FEATURE_UNAVAILABLE;
    return dec_model(body, out) ? 0 : MBEDTLS_ERR_PEM_INVALID_DATA + MBEDTLS_ERR_BASE64_INVALID_CHARACTER;
}
static void pem_read(Ctx& ctx, const S& h, const S& f, const S& t)
{
    S m; size_t eu = 0; int e = pem_read_model(h, f, t, m, eu);
    Fence in(t.size() + 1, Fence::END, t.c_str()); in.readonly();
    mbedtls_pem_context c; mbedtls_pem_init(&c);
    size_t u = 777; int r = mbedtls_pem_read_buffer(&c, h.c_str(), f.c_str(), in.p, nullptr, 0, &u);
    ctx.step();
    CK(r == e, "reading \"%s\": returned -0x%x, expected -0x%x", hex(t, 300).c_str(), -r, -e);
    if (r == 0 && e == 0) { CK(c.buflen == m.size() && (m.empty() || !memcmp(c.buf, m.data(), m.size())), "reading \"%s\" gave %zu bytes %s", hex(t, 300).c_str(), c.buflen, hex(c.buf, c.buflen).c_str()); CK(u == eu, "reading \"%s\" used %zu bytes, expected %zu", hex(t, 300).c_str(), u, eu); }
    mbedtls_pem_free(&c);
    CK(c.buf == nullptr && c.buflen == 0, "a freed context is not empty");
}
static const S H = "-----BEGIN X-----", F = "-----END X-----";
static void pem(Ctx& ctx)
{
    bool T = ctx.thorough;
    for (size_t n : lengths(0, 260, T ? 1 << 20 : 1 << 20)) CASE("PEM of %zu bytes", n) {
        S d = bytes(n, n + 7), h = H + "\n", f = F + "\n", t = pem_model(h, f, d);
        std::vector<size_t> rooms; if (n <= 260) for (size_t r = n > 60 ? t.size() - 5 : 0; r <= t.size() + 8; r++) rooms.push_back(r); else rooms = {0, t.size() - 1, t.size(), t.size() + 1, t.size() + 2, t.size() + 3};
        size_t enough = 0;
        for (size_t room : rooms) {
            Fence out(room, Fence::END), in(n, Fence::END, d.data()); in.readonly(); memset(out.p, 0xA5, room);
            size_t ol = 777; int r = mbedtls_pem_write_buffer(h.c_str(), f.c_str(), in.p, n, out.p, room, &ol);
            ctx.step();
            if (r == 0) { CK(ol == t.size() + 1 && !memcmp(out.p, t.c_str(), t.size() + 1), "%zu bytes written as PEM: %zu bytes %s", n, ol, hex(out.get(), 200).c_str()); }
            else {
                CK(r == MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL && ol > room && ol <= t.size() + 2, "%zu bytes written as PEM into %zu: %d, announced %zu, %zu expected", n, room, r, ol, t.size() + 1);
                enough = ol;
            }
            if (room >= t.size() + 3) CK(r == 0, "%zu bytes do not fit into %zu as PEM", n, room);
            CK(out.intact(), "writing PEM wrote before its buffer");
        }
        Fence out(enough, Fence::END); size_t ol; CK(mbedtls_pem_write_buffer(h.c_str(), f.c_str(), U(d), n, out.p, enough, &ol) == 0, "%zu bytes as PEM do not fit into the announced size %zu", n, enough);
        if (n) pem_read(ctx, H, F, t);
        for (S pre : {S("hello\n"), S("-----BEGIN Y-----\n"), S(" ")}) for (S post : {S("\n"), S(" \r\n"), S("\r"), S(" x"), t}) pem_read(ctx, H, F, pre + t.substr(0, t.size() - 1) + post);
        if (n < 300) { S crlf; for (char c : t) { if (c == '\n') crlf += '\r'; crlf += c; } pem_read(ctx, H, F, crlf); S sp; for (char c : t) { if (c == '\n') sp += ' '; sp += c; } pem_read(ctx, H, F, sp); }
        ctx.outcome(n);
    };
    // every alteration of a text
    for (size_t l : {1, 2, 3, 47, 48, 49, 60}) { S t = pem_model(H + "\n", F + "\n", bytes(l, l)); for (size_t i = 0; i <= t.size(); i++) CASE("PEM text of %zu bytes altered at %zu", l, i) {
        for (int v = 0; v < 256; v++) { S x = t; if (i < t.size()) { x[i] = (char)v; pem_read(ctx, H, F, x); } x = t; x.insert(i, 1, (char)v); pem_read(ctx, H, F, x); }
        S x = t; if (i < t.size()) { x.erase(i, 1); pem_read(ctx, H, F, x); }
        pem_read(ctx, H, F, t.substr(0, i)); pem_read(ctx, H, F, t.substr(i));
        for (size_t k = 2; k < 8 && i + k <= t.size(); k++) { x = t; x.erase(i, k); pem_read(ctx, H, F, x); }
        for (size_t j = 0; j <= t.size(); j++) pem_read(ctx, H, F, t.substr(0, i) + t.substr(j)); // removals, duplications
        ctx.outcome(l * 1000 + i);
    }; }
    // all arrangements of the parts
    static const S part[] = {H, F, "\n", "\r", " ", "QUJD", "=", "Proc-Type: 4,ENCRYPTED", "QQ==", "-"};
    for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) CASE("PEM parts %d %d", a, b) { sequences(10, 0, T ? 5 : 4, [&](const std::vector<int>& v) { S t = part[a] + part[b]; for (int x : v) t += part[x]; pem_read(ctx, H, F, t); }); };
    CASE("PEM without context") { size_t u; CK(mbedtls_pem_read_buffer(nullptr, "a", "b", U(S("x")), nullptr, 0, &u) == MBEDTLS_ERR_PEM_BAD_INPUT_DATA, "a null context was accepted"); };
}

// ---- ASN.1 reading --------------------------------------------------------------------------------------------------
struct P { size_t pos = 0, len = 0; int err = 0; };
static const int OOD = MBEDTLS_ERR_ASN1_OUT_OF_DATA, TAG = MBEDTLS_ERR_ASN1_UNEXPECTED_TAG, LEN = MBEDTLS_ERR_ASN1_INVALID_LENGTH, MIS = MBEDTLS_ERR_ASN1_LENGTH_MISMATCH, DAT = MBEDTLS_ERR_ASN1_INVALID_DATA;
static P m_len(const S& b, size_t pos, size_t end)
{
    P r; r.pos = pos;
    if (pos >= end) { r.err = OOD; return r; }
    uint8_t f = b[pos];
    if (f < 0x80) { r.len = f; r.pos = pos + 1; }
    else {
        size_t k = f & 0x7f;
        if (k < 1 || k > 4) { r.err = LEN; return r; }
        if (end - pos < k + 1) { r.err = OOD; return r; }
        for (size_t i = 1; i <= k; i++) r.len = r.len * 256 + (uint8_t)b[pos + i];
        r.pos = pos + 1 + k;
    }
    if (r.len > end - r.pos) r.err = OOD;
    return r;
}
static P m_tag(const S& b, size_t pos, size_t end, int tag)
{
    P r; r.pos = pos;
    if (pos >= end) { r.err = OOD; return r; }
    if ((uint8_t)b[pos] != tag) { r.err = TAG; return r; }
    return m_len(b, pos + 1, end);
}
// Runs every reader on b and compares verdict, position and values
static void readers(Ctx& ctx, const S& b, unsigned mask = ~0u)
{
    Fence in(b.size(), Fence::END, b.data());
    uint8_t* const e = in.p + b.size(); size_t n = b.size(); uint8_t* p; size_t l; int r;
#define POS(x) ((size_t)(p - in.p) == (x))
#define WANT(name, m) CK(r == (m), name " of %s returned -0x%x, expected -0x%x", hex(b).c_str(), -r, -(m)) && r == 0
    if (mask & 1) { p = in.p; l = 0; r = mbedtls_asn1_get_len(&p, e, &l); P m = m_len(b, 0, n); if (WANT("get_len", m.err)) CK(POS(m.pos) && l == m.len, "get_len of %s gave %zu", hex(b).c_str(), l); }
    if (mask & 2) for (int tag : {0x02, 0x30, 0x04, 0x80, 0xff, 0x00}) { p = in.p; l = 0; r = mbedtls_asn1_get_tag(&p, e, &l, tag); P m = m_tag(b, 0, n, tag); if (WANT("get_tag", m.err)) CK(POS(m.pos) && l == m.len, "get_tag of %s gave %zu", hex(b).c_str(), l); }
    if (mask & 4) { p = in.p; int v = 77; r = mbedtls_asn1_get_bool(&p, e, &v); P m = m_tag(b, 0, n, MBEDTLS_ASN1_BOOLEAN); if (!m.err && m.len != 1) m.err = LEN; if (WANT("get_bool", m.err)) CK(POS(m.pos + 1) && v == (b[m.pos] != 0), "get_bool of %s gave %d", hex(b).c_str(), v); }
    if (mask & 8) {
        p = in.p; int v = 77; r = mbedtls_asn1_get_int(&p, e, &v); P m = m_tag(b, 0, n, MBEDTLS_ASN1_INTEGER);
        long x = 0; if (!m.err) { if (m.len == 0 || m.len > 4 || (b[m.pos] & 0x80)) m.err = LEN; else for (size_t i = 0; i < m.len; i++) x = x * 256 + (uint8_t)b[m.pos + i]; }
        if (WANT("get_int", m.err)) CK(POS(m.pos + m.len) && v == x, "get_int of %s gave %d", hex(b).c_str(), v);
        mbedtls_mpi X; mbedtls_mpi_init(&X); p = in.p; r = mbedtls_asn1_get_mpi(&p, e, &X); m = m_tag(b, 0, n, MBEDTLS_ASN1_INTEGER);
        if (WANT("get_mpi", m.err)) { mpz_class g, w; mpz_import(w.get_mpz_t(), m.len, 1, 1, 0, 0, b.data() + m.pos); mpz_import(g.get_mpz_t(), X.n, -1, 8, 0, 0, X.p); CK(POS(m.pos + m.len) && g == w && X.s == 1, "get_mpi of %s gave %s", hex(b).c_str(), g.get_str(16).c_str()); }
        mbedtls_mpi_free(&X);
    }
    if (mask & 16) {
        p = in.p; mbedtls_asn1_bitstring bs; memset(&bs, 0, sizeof bs); r = mbedtls_asn1_get_bitstring(&p, e, &bs); P m = m_tag(b, 0, n, MBEDTLS_ASN1_BIT_STRING);
        P q = m;
        if (!m.err) { if (m.len < 1) m.err = OOD; else if ((uint8_t)b[m.pos] > 7) m.err = LEN; else if (m.pos + m.len != n) m.err = MIS; }
        if (WANT("get_bitstring", m.err)) CK(POS(n) && bs.len == m.len - 1 && bs.unused_bits == b[m.pos] && bs.p == in.p + m.pos + 1, "get_bitstring of %s", hex(b).c_str());
        p = in.p; l = 0; r = mbedtls_asn1_get_bitstring_null(&p, e, &l); if (!q.err && (q.len < 2 || b[q.pos] != 0)) q.err = DAT;
        if (WANT("get_bitstring_null", q.err)) CK(POS(q.pos + 1) && l == q.len - 1, "get_bitstring_null of %s gave %zu", hex(b).c_str(), l);
    }
    if (mask & 32) for (int tag : {0x02, 0x30, 0x04}) {
        p = in.p; mbedtls_asn1_sequence seq; memset(&seq, 0, sizeof seq); r = mbedtls_asn1_get_sequence_of(&p, e, &seq, tag);
        P m = m_tag(b, 0, n, 0x30); std::vector<std::pair<size_t, size_t>> items;
        if (!m.err) { if (m.pos + m.len != n) m.err = MIS; else for (size_t at = m.pos; at < n;) { P k = m_tag(b, at, n, tag); if (k.err) { m.err = k.err; break; } items.push_back({k.pos, k.len}); at = k.pos + k.len; } }
        if (WANT("get_sequence_of", m.err)) {
            mbedtls_asn1_sequence* c = &seq; bool ok = POS(n);
            for (size_t i = 0; i < items.size(); i++, c = c->next) { ok = ok && c && c->buf.tag == tag && c->buf.p == in.p + items[i].first && c->buf.len == items[i].second; if (!c) break; }
            CK(ok && (items.empty() ? seq.next == nullptr : c == nullptr), "get_sequence_of %s", hex(b).c_str());
        }
        for (mbedtls_asn1_sequence* c = seq.next; c;) { auto* x = c->next; free(c); c = x; }
    }
    if (mask & 64) {
        mbedtls_asn1_buf a, q; memset(&a, 0, sizeof a); memset(&q, 0x5a, sizeof q); p = in.p; r = mbedtls_asn1_get_alg(&p, e, &a, &q);
        P m = m_tag(b, 0, n, 0x30), o, x; bool par = false;
        if (!m.err) { size_t end = m.pos + m.len; if (m.pos >= n) m.err = OOD; else { o = m_tag(b, m.pos, end, 6); if (o.err) m.err = o.err; else if (o.pos + o.len < end) { par = true; x = m_len(b, o.pos + o.len + 1, end); if (x.err) m.err = x.err; else if (x.pos + x.len != end) m.err = MIS; } } }
        if (WANT("get_alg", m.err)) {
            CK(POS(m.pos + m.len) && a.tag == 6 && a.p == in.p + o.pos && a.len == o.len, "get_alg of %s: wrong identifier", hex(b).c_str());
            if (par) CK(q.tag == (uint8_t)b[o.pos + o.len] && q.p == in.p + x.pos && q.len == x.len, "get_alg of %s: wrong parameters", hex(b).c_str()); else CK(q.tag == 0 && q.len == 0 && q.p == nullptr, "get_alg of %s: parameters out of nothing", hex(b).c_str());
        }
        p = in.p; memset(&a, 0, sizeof a); r = mbedtls_asn1_get_alg_null(&p, e, &a);
        if (!m.err && par && (((uint8_t)b[o.pos + o.len] != 5 && b[o.pos + o.len] != 0) || x.len)) m.err = DAT;
        if (WANT("get_alg_null", m.err)) CK(POS(m.pos + m.len) && a.tag == 6 && a.p == in.p + o.pos && a.len == o.len, "get_alg_null of %s: wrong identifier", hex(b).c_str());
    }
    CK(in.get() == b, "a reader changed its input %s", hex(b).c_str());
    ctx.step(14);
}
static S tlv(int tag, const S& v, int form = 0)
{
    S l; size_t n = v.size();
    if (form == 0) form = n < 0x80 ? -1 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x1000000 ? 3 : 4;
    if (form < 0) l = S(1, (char)n); else { l = S(1, (char)(0x80 | form)); for (int i = form - 1; i >= 0; i--) l += (char)(n >> (8 * i)); }
    return S(1, (char)tag) + l + v;
}
static void asn1_read(Ctx& ctx)
{
    bool T = ctx.thorough;
    static const uint8_t al[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x85, 0xff};
    CASE("DER of at most 2 bytes") { readers(ctx, ""); for (int a = 0; a < 256; a++) { readers(ctx, S(1, (char)a)); for (int c = 0; c < 256; c++) readers(ctx, S{(char)a, (char)c}); } };
    for (int a = 0; a < 16; a++) for (int c = 0; c < 16; c++) CASE("DER with prefix %02x%02x", al[a], al[c]) {
        sequences(16, 1, T ? 5 : 4, [&](const std::vector<int>& v) { S b{(char)al[a], (char)al[c]}; for (int x : v) b += (char)al[x]; readers(ctx, b); });
        ctx.outcome(a * 16 + c);
    };
    // one tag, every short body over a smaller alphabet, the length right or off by one, in every form of length
    static const uint8_t be[] = {0x00, 0x02, 0x04, 0x05, 0x06, 0x30, 0x01, 0x80};
    for (int tag : {1, 2, 3, 0x30}) for (int pre = 0; pre < 64; pre++) CASE("DER %02x with body prefix %d", tag, pre) {
        sequences(8, 0, T ? 5 : 4, [&](const std::vector<int>& v) {
            S b{(char)be[pre % 8], (char)be[pre / 8]}; for (int x : v) b += (char)be[x];
            for (int form : {-1, 1, 4}) { S t = tlv(tag, b, form); readers(ctx, t); if (v.size() < 4) { size_t lp = form < 0 ? 1 : 1 + form; t[lp]++; readers(ctx, t); t[lp] -= 2; readers(ctx, t); } }
        });
    };
    // nested elements
    for (int tag : {2, 4, 5, 6, 0x30, 0}) for (int t2 : {2, 4, 5, 6, 0x30, 0}) for (int form = -1; form <= 4; form++) if (form) CASE("nested elements %02x %02x form %d", tag, t2, form) {
        for (size_t l1 : {0, 1, 2, 5, 127, 128, 255, 256}) for (size_t l2 : {0, 1, 2, 5, 127, 128, 300}) for (int d = -2; d <= 2; d++) {
            if (form == -1 && (l1 > 127 || l2 > 127)) continue; if (form == 1 && (l1 > 255 || l2 > 255)) continue;
            S b = tlv(tag, bytes(l1, 3), form) + tlv(t2, bytes(l2, 4), form);
            S t = tlv(0x30, b);
            if (d > 0) t += bytes(d, 5); else t.resize(t.size() + d);
            readers(ctx, t);
            S u = tlv(0x30, d >= 0 ? b + bytes(d, 6) : b.substr(0, b.size() + d)); readers(ctx, u); readers(ctx, u + "\x05");
        }
        ctx.outcome(tag * 1000 + t2 * 10 + form + 1);
    };
    for (size_t n : lengths(0, 300, T ? 1 << 24 : 1 << 20, 2)) CASE("DER element of %zu bytes", n) {
        for (int tag : {2, 3, 4, 0x30}) for (int form = -1; form <= 4; form++) {
            if (form == 0 || (form == -1 && n > 127) || (form > 0 && form < 4 && n >> (8 * form))) continue;
            S b = bytes(n, n); if (n) b[0] = 0; S t = tlv(tag, b, form);
            readers(ctx, t, tag == 2 ? (n <= 60000 ? 2 | 8 : 2) : 2 | 16); readers(ctx, t.substr(1), 1); readers(ctx, t + '\0', 2 | 16); if (n) { t.pop_back(); readers(ctx, t, 2 | 8 | 16); } // (big numbers have at most 10000 limbs)
        }
    };
    CASE("huge announced lengths") { for (int k = 1; k <= 8; k++) for (int hi : {0, 1, 0x7f, 0x80, 0xff}) for (int lo : {0, 1, 0x7f, 0xff}) for (size_t have : {0, 1, 5, 300}) { S t = S(1, 2) + S(1, (char)(0x80 | k)) + S(1, (char)hi) + S(k - 1, (char)lo) + bytes(have, 9); for (int tag : {1, 2, 3, 0x30}) { t[0] = (char)tag; readers(ctx, t); readers(ctx, t.substr(1), 1); } } };
}

// ---- ASN.1 writing --------------------------------------------------------------------------------------------------
// f writes downwards from the end of a buffer of `room` bytes
template<class Fn> static void writer(Ctx& ctx, const S& what, const S& expect, size_t after, Fn f)
{
    std::vector<size_t> rooms; size_t n = expect.size();
    for (size_t r = n > 400 ? n - 4 : 0; r <= n + 2; r++) rooms.push_back(r);
    if (n > 400) rooms.insert(rooms.begin(), {0, 1, 2, 3, 4});
    for (size_t room : rooms) {
        Fence out(room + after, Fence::BEGIN); memset(out.p, 0xA5, room + after);
        uint8_t* p = out.p + room; int r = f(&p, out.p);
        ctx.step();
        if (room >= n) CK(r == (int)n && p == out.p + room - n && out.get() == S(room - n, '\xA5') + expect + S(after, '\xA5'), "%s in %zu bytes returned %d, wrote %s, expected %s", what.c_str(), room, r, hex(out.get(), 60).c_str(), hex(expect).c_str());
        else { CK(r == MBEDTLS_ERR_ASN1_BUF_TOO_SMALL, "%s in %zu bytes (%zu needed) returned %d", what.c_str(), room, n, r); CK(S((char*)out.p + room, after) == S(after, '\xA5'), "%s in %zu bytes wrote behind its position", what.c_str(), room); }
        CK(out.intact(), "%s in %zu bytes wrote outside", what.c_str(), room);
    }
    ctx.outcome(fnv(expect));
}
static void write_mpi(Ctx& ctx, const mpz_class& v, int pad)
{
    size_t nb = v == 0 ? 1 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 8) / 8; // with its sign bit
    S body(nb, 0); size_t c; S raw((mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8, 0); mpz_export(&raw[0], &c, 1, 1, 0, 0, v.get_mpz_t()); raw.resize(c); body.replace(nb - c, c, raw);
    S expect = tlv(2, body);
    mbedtls_mpi X; mbedtls_mpi_init(&X); mbedtls_mpi_read_binary(&X, U(raw), c); if (pad >= 0) mbedtls_mpi_grow(&X, X.n + pad);
    for (size_t after : {0, 3}) writer(ctx, "write_mpi(" + v.get_str(16) + ")", expect, after, [&](uint8_t** p, uint8_t* st) { return mbedtls_asn1_write_mpi(p, st, &X); });
    Fence in(expect.size(), Fence::END, expect.data()); uint8_t* p = in.p; mbedtls_mpi Y; mbedtls_mpi_init(&Y);
    CK(mbedtls_asn1_get_mpi(&p, in.p + expect.size(), &Y) == 0 && mbedtls_mpi_cmp_mpi(&X, &Y) == 0, "reading back %s", v.get_str(16).c_str());
    mbedtls_mpi_free(&X); mbedtls_mpi_free(&Y);
}
static void asn1_write(Ctx& ctx)
{
    bool T = ctx.thorough;
    auto wl = [&](size_t n) { S t = tlv(0, ""); S l; int form = n < 0x80 ? 0 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x1000000 ? 3 : 4; if (!form) l = S(1, (char)n); else { l = S(1, (char)(0x80 | form)); for (int i = form - 1; i >= 0; i--) l += (char)(n >> (8 * i)); }
        writer(ctx, "write_len(" + std::to_string(n) + ")", l, 2, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_len(p, s, n); }); };
    for (size_t b = 0; b < 70000; b += 1000) CASE("lengths from %zu", b) { for (size_t n = b; n < b + 1000; n++) wl(n); };
    CASE("lengths around powers of two") { for (int k = 8; k <= 32; k++) for (int d = -3; d <= 3; d++) { size_t n = ((size_t)1 << k) + d; if (n <= 0xffffffff) wl(n); else { uint8_t o[16]; uint8_t* p = o + 16; CK(mbedtls_asn1_write_len(&p, o, n) == MBEDTLS_ERR_ASN1_INVALID_LENGTH, "the length %zu was written", n); } } };
    CASE("tags, null, bool") {
        for (int t = 0; t < 256; t++) writer(ctx, "write_tag", S(1, (char)t), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_tag(p, s, (uint8_t)t); });
        writer(ctx, "write_null", S("\x05\x00", 2), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_null(p, s); });
        for (int v : {0, 1, 2, 255, 256, -1}) writer(ctx, "write_bool", S{1, 1, v ? '\xff' : '\0'}, 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_bool(p, s, v); });
    };
    auto wi = [&](long v) {
        S b; for (long x = v; x || b.empty(); x >>= 8) b.insert(b.begin(), (char)x); if (b[0] & 0x80) b.insert(b.begin(), '\0');
        S e = tlv(2, b); writer(ctx, "write_int(" + std::to_string(v) + ")", e, 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_int(p, s, (int)v); });
        Fence in(e.size(), Fence::END, e.data()); uint8_t* p = in.p; int back = -1; CK(mbedtls_asn1_get_int(&p, in.p + e.size(), &back) == 0 && back == v, "reading back the int %ld gave %d", v, back);
    };
    for (long b = 0; b < 70000; b += 1000) CASE("ints from %ld", b) { for (long v = b; v < b + 1000; v++) wi(v); };
    CASE("ints around powers of two") { for (int k = 15; k <= 31; k++) for (int d = -2; d <= 2; d++) { long v = (1l << k) + d; if (v <= 0x7fffffff) wi(v); } };
    for (int b = 0; b < 1 << 16; b += 1024) CASE("big numbers from %d", b) { for (int v = b; v < b + 1024; v++) write_mpi(ctx, v, v % 3); };
    for (int k = 16; k <= (T ? 8192 : 2300); k += k < 200 || T ? 1 : 7) CASE("big numbers of %d bits", k) { for (int d = -1; d <= 1; d++) for (int pad = 0; pad < 2; pad++) write_mpi(ctx, (mpz_class(1) << k) + d, pad); write_mpi(ctx, (mpz_class(0x81) << (k - 8)) + 5, 0); };
    CASE("limbless zero") { mbedtls_mpi X; mbedtls_mpi_init(&X); for (size_t after : {0, 2}) writer(ctx, "write_mpi(no limbs)", S("\x02\x01\x00", 3), after, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_mpi(p, s, &X); }); };
    for (size_t n : lengths(0, 300, T ? 1 << 24 : 1 << 20, 2)) CASE("strings of %zu bytes", n) {
        S d = bytes(n, n + 2); Fence in(n, Fence::END, d.data()); in.readonly();
        writer(ctx, "write_raw_buffer", d, 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_raw_buffer(p, s, in.p, n); });
        writer(ctx, "write_octet_string", tlv(4, d), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_octet_string(p, s, in.p, n); });
        writer(ctx, "write_oid", tlv(6, d), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_oid(p, s, (char*)in.p, n); });
        writer(ctx, "write_printable_string", tlv(0x13, d), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_printable_string(p, s, (char*)in.p, n); });
        writer(ctx, "write_ia5_string", tlv(0x16, d), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_ia5_string(p, s, (char*)in.p, n); });
        writer(ctx, "write_algorithm_identifier", tlv(0x30, tlv(6, d) + S("\x05\x00", 2)), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_algorithm_identifier(p, s, (char*)in.p, n, 0); });
        for (size_t par : {2, 9, 130}) { // the parameters were written before
            S pr = bytes(par, 5), all = tlv(0x30, tlv(6, d) + pr);
            Fence out(all.size(), Fence::BEGIN); uint8_t* p = out.p + all.size() - par; memcpy(p, pr.data(), par);
            int r = mbedtls_asn1_write_algorithm_identifier(&p, out.p, (char*)in.p, n, par); ctx.step();
            CK(r == (int)all.size() && p == out.p && out.get() == all && out.intact(), "write_algorithm_identifier with %zu bytes of parameters returned %d", par, r);
        }
        if (n) for (int u = 0; u < 8; u++) writer(ctx, "write_bitstring", tlv(3, S(1, (char)u) + d), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_bitstring(p, s, in.p, n * 8 - u); });
        else writer(ctx, "write_bitstring", S("\x03\x01\x00", 3), 1, [&](uint8_t** p, uint8_t* s) { return mbedtls_asn1_write_bitstring(p, s, in.p, 0); });
    };
}

// ---- search in strings ----------------------------------------------------------------------------------------------
static void search(Ctx& ctx)
{
    bool T = ctx.thorough;
    for (int k : {2, 3}) { int H1 = k == 2 ? (T ? 14 : 11) : (T ? 9 : 7), N1 = k == 2 ? 6 : 4; for (int n = 0; n <= H1; n++) CASE("search over %d letters in strings of %d", k, n) {
        sequences(k, n, n, [&](const std::vector<int>& h) {
            S hs; for (int x : h) hs += (char)('a' + x); Fence fh(n, Fence::END, hs.data());
            sequences(k, 0, N1, [&](const std::vector<int>& v) {
                S ns; for (int x : v) ns += (char)('a' + x); Fence fn(ns.size(), Fence::END, ns.data());
                const uint8_t* r = sse::crypto::strstrn_uint8(fh.p, n, fn.p, ns.size()); size_t e = hs.find(ns); ctx.step();
                CK(r == (e == S::npos ? nullptr : fh.p + e), "\"%s\" in \"%s\": found at %ld", ns.c_str(), hs.c_str(), r ? (long)(r - fh.p) : -1);
            });
        });
    }; }
    for (size_t n : lengths(1, 200, T ? 1 << 20 : 1 << 20)) CASE("search in a string of %zu", n) {
        S d = bytes(n, n); for (auto& c : d) c = (char)('a' + ((uint8_t)c & 1)); 
        Fence fh(n, Fence::END, d.data());
        for (size_t m : {1ul, 2ul, 7ul, 31ul, n / 2, n}) if (m && m <= n && (n < 5000 || m < 50)) for (size_t at : {0ul, (n - m) / 2, n - m}) { S q = d.substr(at, m); Fence fn(m, Fence::END, q.data()); const uint8_t* r = sse::crypto::strstrn_uint8(fh.p, n, fn.p, m); CK(r == fh.p + d.find(q), "substring of %zu at %zu not found", m, at); q.back() = 'z'; memcpy(fn.p, q.data(), m); CK(!sse::crypto::strstrn_uint8(fh.p, n, fn.p, m), "absent string found"); ctx.step(2); }
        ctx.outcome(n);
    };
}
// ---- lists of named values -------------------------------------------------------------------------------------------
static void named(Ctx& ctx)
{
    static const S OID[] = {S("\x2a", 1), S("\x2a\x86", 2), S("\x2a\x87", 2), S("\x55\x04\x03", 3), S("\x00\x00\x00", 3)};
    static const size_t LEN[] = {1, 4, 4, 9, 40};
    enum { NO = 5, NV = 5, NOPS = NO * (NV + 1) };
    struct E { S oid, val; size_t len; };
    int depth = ctx.thorough ? 4 : 3;
    for (int f = 0; f < NOPS; f++) CASE("named values, first %d", f) { sequences(NOPS, 0, depth - 1, [&](const std::vector<int>& rest) {
        std::vector<int> seq = {f}; seq.insert(seq.end(), rest.begin(), rest.end());
        mbedtls_asn1_named_data* head = nullptr; std::vector<E> m; // the newest first
        for (int op : seq) {
            const S& o = OID[op % NO]; int v = op / NO; size_t n = LEN[v < NV ? v : 3]; S d = bytes(n, v + 1);
            size_t i = 0; while (i < m.size() && m[i].oid != o) i++;
            S oc = o; // the list keeps its own copies
            mbedtls_asn1_named_data* r = mbedtls_asn1_store_named_data(&head, oc.data(), oc.size(), v < NV ? U(d) : nullptr, n); ctx.step();
            oc.assign(oc.size(), '\x77');
            if (!CK(r != nullptr, "storing a value failed")) break;
            if (i == m.size()) { m.insert(m.begin(), E{o, S(n, 0), n}); i = 0; CK(r->val.len == n, "a new entry has %zu bytes, expected %zu", r->val.len, n); }
            else { CK(r->val.len >= n, "an entry has %zu bytes, at least %zu are needed", r->val.len, n); if (m[i].len < n) m[i].val.clear(); }
            m[i].len = r->val.len; // "minimum length of the data buffer needed"
            if (v < NV) m[i].val = d; else if (m[i].val.size() > n) m[i].val.resize(n);
            d.assign(n, '\x77');
            size_t k = 0; mbedtls_asn1_named_data* c = head;
            for (; c && k < m.size(); c = c->next, k++) {
                CK(S((char*)c->oid.p, c->oid.len) == m[k].oid && c->val.len == m[k].len && !memcmp(c->val.p, m[k].val.data(), m[k].val.size()), "entry %zu of %zu differs after %zu operations", k, m.size(), seq.size());
                CK((c == r) == (k == i), "the entry returned is not the one stored");
            }
            CK(!c && k == m.size(), "the list does not have %zu entries", m.size());
            for (const S& q : OID) {
                size_t j = 0; while (j < m.size() && m[j].oid != q) j++;
                mbedtls_asn1_named_data* g = mbedtls_asn1_find_named_data(head, q.data(), q.size());
                CK(j == m.size() ? !g : g && S((char*)g->oid.p, g->oid.len) == q, "find_named_data");
            }
        }
        ctx.outcome(m.size());
        mbedtls_asn1_free_named_data_list(&head); CK(head == nullptr, "a freed list is not empty");
        mbedtls_asn1_free_named_data(nullptr); CK(mbedtls_asn1_find_named_data(nullptr, "a", 1) == nullptr, "found in nothing");
    }); };
}
static void explore(Ctx& ctx) { base64(ctx); pem(ctx); asn1_read(ctx); asn1_write(ctx); search(ctx); named(ctx); CASE("self test") { CK(mbedtls_base64_self_test(0) == 0, "self test"); }; }
int main(int argc, char** argv) { return explore_main(argc, argv, explore); }
