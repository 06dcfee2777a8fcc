// Independent model of the wrapper's format.
#pragma once
#include "ref.hpp"
#include "sse.hpp"

namespace mc { namespace refwrap {
enum Type : uint8_t { CIPHER = 1, PRF = 2, PRG = 3, PRP = 4, RCPRF = 5, CRCPRF = 6, TDPI = 7 };
inline std::string enc_key(const std::string& k) { return ref::prf(k, std::string(1, 2), 32); }
inline std::string tag_key(const std::string& k) { return ref::prf(k, std::string(1, 1), 32); }
inline std::string nb(unsigned n) { return std::string(1, (char)(n >> 8)) + (char)n; } // public context of the sized classes
inline std::string wrap(const std::string& k, const std::string& iv, uint8_t type, const std::string& context, const std::string& data)
{
    std::string tag = ref::prf(tag_key(k), iv + std::string(1, (char)type) + context + data, 12);
    return iv + ref::chacha_ietf_xor(enc_key(k), tag, data) + tag;
}
// the serialized object inside a wrapped one
inline std::string content(const std::string& k, const std::string& w)
{
    std::string tag = w.substr(w.size() - 12);
    return ref::chacha_ietf_xor(enc_key(k), tag, w.substr(16, w.size() - 28));
}
inline std::string tostr(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
inline std::vector<uint8_t> tovec(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
}} // namespace mc::refwrap
