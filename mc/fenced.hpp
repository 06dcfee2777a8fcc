// Exactly sized buffers directly before or after an unmapped page (reused mappings: cheap enough for one per call).
#pragma once
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <vector>
namespace mc {
struct Fence
{
    enum Where { BEGIN, END };
    uint8_t* base; size_t body, n; uint8_t* p; bool ro = false;
    static std::vector<uint8_t*>& pool(size_t k) { static std::vector<uint8_t*> v[40]; return v[k]; }
    static size_t order(size_t n) { size_t k = 0; while ((size_t(4096) << k) < n) k++; return k; }
    explicit Fence(size_t n_, Where w = END, const void* content = nullptr) : n(n_)
    {
        size_t k = order(n); body = size_t(4096) << k;
        auto& v = pool(k);
        if (v.empty()) {
            base = static_cast<uint8_t*>(mmap(nullptr, body + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            mprotect(base + 4096, body, PROT_READ | PROT_WRITE);
        } else { base = v.back(); v.pop_back(); }
        p = w == END ? base + 4096 + body - n : base + 4096;
        // what lies beside the buffer on its page is filled and checked too
        memset(side(), 0xC7, side_len());
        if (content && n) memcpy(p, content, n);
    }
    size_t side_len() const { size_t l = body - n; return l < 64 ? l : 64; }
    uint8_t* side() const { return p == base + 4096 ? p + n : p - side_len(); }
    bool intact() const { for (size_t i = 0; i < side_len(); i++) if (side()[i] != 0xC7) return false; return true; }
    void readonly() { mprotect(base + 4096, body, PROT_READ); ro = true; }
    std::string get() const { return std::string(reinterpret_cast<const char*>(p), n); }
    ~Fence() { if (ro) mprotect(base + 4096, body, PROT_READ | PROT_WRITE); pool(order(n)).push_back(base); }
    Fence(const Fence&) = delete;
};
} // namespace mc
