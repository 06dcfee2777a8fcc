// Controlled randomness: libsodium's generator is replaced (through its public interface) by a deterministic
// stream whose every answer is recorded and can be altered; used to enumerate the answers of the generator.
#pragma once
#include "mc.hpp"
#include <sodium.h>
#include <vector>

namespace mc {
struct Rng
{
    static Rng& get() { static thread_local Rng r; return r; }
    uint64_t label = 1, pos = 0;           // the stream
    bool constant = false; uint8_t value = 0; // answer every request with this byte
    long flip_bit = -1;                     // flip this bit of the stream (relative to the last reset)
    std::vector<uint8_t> forced;            // answers to serve first
    uint64_t requests = 0, served = 0;
    std::vector<uint8_t> log; bool logging = false;
    void (*seen)(const uint8_t*, size_t) = nullptr; // told every answer
    void reset(uint64_t l) { label = l; pos = 0; flip_bit = -1; constant = false; forced.clear(); requests = served = 0; log.clear(); logging = false; }
    void bytes(uint8_t* o, size_t n)
    {
        requests++;
        for (size_t i = 0; i < n; i++, pos++) {
            uint8_t b = (uint8_t)(mix(label * 0x1000003ULL + pos / 8) >> (8 * (pos % 8)));
            if (pos < forced.size()) b = forced[pos];
            if (constant) b = value;
            if (flip_bit >= 0 && (uint64_t)(flip_bit / 8) == pos) b ^= 1u << (flip_bit % 8);
            o[i] = b;
            if (logging) log.push_back(b);
        }
        served += n;
        if (seen) seen(o, n);
    }
    static const char* name() { return "mc"; }
    static uint32_t rnd() { uint32_t x; get().bytes((uint8_t*)&x, 4); return x; }
    static void buf(void* const o, const size_t n) { get().bytes((uint8_t*)o, n); }
    static void install()
    {
        static randombytes_implementation impl = {name, rnd, nullptr, nullptr, buf, nullptr};
        randombytes_set_implementation(&impl);
    }
};
} // namespace mc
