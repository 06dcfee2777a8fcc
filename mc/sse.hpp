// The library's headers and small helpers shared by the harnesses.
#pragma once
#include "mc.hpp"
#include <sodium.h>
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/utils.hpp>
#include <sse/crypto/wrapper.hpp>
#include <stdexcept>
#include <type_traits>
#include <utility>

// The content of a key can only be read by the friends declared in key.hpp for the repository's own tests;
// this is the definition of one of these friends for the harnesses.
namespace mc {
extern thread_local const void* peek_key;
extern thread_local std::string* peek_out;
} // namespace mc
namespace tests {
template<size_t L> void test_key_derivation_consistency(size_t)
{
    const sse::crypto::Key<L>& k = *static_cast<const sse::crypto::Key<L>*>(mc::peek_key);
    const uint8_t* p = k.unlock_get();
    mc::peek_out->assign(reinterpret_cast<const char*>(p), L);
    k.lock();
}
} // namespace tests

namespace mc {
using namespace sse::crypto;

template<size_t N> std::string key_bytes(const Key<N>& k)
{
    std::string out;
    peek_key = &k; peek_out = &out;
    tests::test_key_derivation_consistency<N>(0);
    return out;
}
template<size_t N> Key<N> key_from(std::string bytes)
{
    bytes.resize(N, 0);
    return Key<N>(reinterpret_cast<uint8_t*>(&bytes[0]));
}
// A fixed family of key contents: special patterns first, then mixed bytes.
inline std::string key_content(size_t n, int which)
{
    switch (which) {
    case 0: return bytes(n, 77);
    case 1: return std::string(n, '\0');
    case 2: return std::string(n, '\xff');
    case 3: { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)i; return s; }
    case 4: { std::string s(n, 0); s[n - 1] = 1; return s; }
    case 5: { std::string s(n, 0); s[0] = (char)0x80; return s; }
    default: return bytes(n, 1000 + which);
    }
}
template<size_t N> Key<N> mk(int which) { return key_from<N>(key_content(N, which)); }

// Message contents used at every length.
inline std::string message(size_t n, int which)
{
    switch (which) {
    case 0: return bytes(n, 5 + n);
    case 1: return std::string(n, '\0');
    case 2: return std::string(n, '\xff');
    case 3: { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i + 1); return s; }
    case 4: { std::string s(n, 'a'); if (n) s[n / 2] = 0; return s; }
    default: return bytes(n, 9000 + which);
    }
}

inline const uint8_t* u8(const std::string& s) { return reinterpret_cast<const uint8_t*>(s.data()); }
inline uint8_t* u8(std::string& s) { return reinterpret_cast<uint8_t*>(&s[0]); }
template<class A> std::string str(const A& a) { return std::string(reinterpret_cast<const char*>(a.data()), a.size()); }

// Kind of exception f ends with ("none" if it returns).
template<class F> const char* thrown(F&& f)
{
    try { f(); return "none"; }
    catch (const std::invalid_argument&) { return "invalid_argument"; }
    catch (const std::out_of_range&) { return "out_of_range"; }
    catch (const std::length_error&) { return "length_error"; }
    catch (const std::logic_error&) { return "logic_error"; }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::runtime_error&) { return "runtime_error"; }
    catch (const std::exception&) { return "exception"; }
    catch (...) { return "unknown"; }
}
template<class F> bool expect(Ctx& ctx, const char* kind, F&& f, const char* what)
{
    const char* t = thrown(f);
    ctx.step();
    ctx.outcome(std::string(what) + t);
    return ctx.check(!strcmp(t, kind), "%s: expected %s, got %s", what, kind, t);
}
inline bool same(Ctx& ctx, const std::string& got, const std::string& want, const char* what)
{
    if (got == want) { ctx.checks++; return true; }
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    ctx.checks++;
    ctx.fail("%s: differs at byte %zu (sizes %zu, expected %zu): got %s expected %s", what, i, got.size(), want.size(),
             hex(got.substr(i < got.size() ? i : 0), 16).c_str(), hex(want.substr(i < want.size() ? i : 0), 16).c_str());
    return false;
}

// Output buffer surrounded by canaries.
struct Guarded
{
    std::vector<uint8_t> b; size_t n;
    explicit Guarded(size_t n_, size_t misalign = 0) : b(n_ + 128 + misalign, 0xA5), n(n_), off(64 + misalign) {}
    size_t off;
    uint8_t* p() { return b.data() + off; }
    std::string get() const { return std::string(reinterpret_cast<const char*>(b.data() + off), n); }
    bool intact() const
    {
        for (size_t i = 0; i < off; i++) if (b[i] != 0xA5) return false;
        for (size_t i = off + n; i < b.size(); i++) if (b[i] != 0xA5) return false;
        return true;
    }
};

// A page-aligned buffer whose end (or start) touches an inaccessible page.
struct Fenced
{
    uint8_t* base; size_t total; uint8_t* ptr; size_t n;
    Fenced(size_t n_, bool at_end, const void* content = nullptr) : n(n_)
    {
        size_t body = (n + 4095) / 4096 * 4096; if (!body) body = 4096;
        total = body + 8192;
        base = static_cast<uint8_t*>(mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(base + 4096, body, PROT_READ | PROT_WRITE);
        memset(base + 4096, 0xC7, body);
        ptr = at_end ? base + 4096 + body - n : base + 4096;
        if (content) memcpy(ptr, content, n);
    }
    void readonly() { mprotect(base + 4096, total - 8192, PROT_READ); }
    std::string get() const { return std::string(reinterpret_cast<const char*>(ptr), n); }
    ~Fenced() { munmap(base, total); }
    Fenced(const Fenced&) = delete;
};
} // namespace mc

#ifdef MC_MAIN
namespace mc {
thread_local const void* peek_key;
thread_local std::string* peek_out;
}
#endif
