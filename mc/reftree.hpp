// Independent model of the range-constrained PRF: a binary tree of ChaCha20-derived nodes.
#pragma once
#include "ref.hpp"
#include "sse.hpp"
#include <map>

namespace mc {
struct RefTree
{
    std::string root; int h;
    std::map<std::pair<int, uint64_t>, std::string> memo;
    RefTree(const std::string& k, int height) : root(k), h(height) {}
    uint64_t maxleaf() const { return (1ULL << (h - 1)) - 1; }
    // key of the node at the depth (0: root), at the position in its row
    std::string node(int depth, uint64_t pos)
    {
        if (depth == 0) return root;
        auto key = std::make_pair(depth, pos);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::string k = ref::keystream(node(depth - 1, pos / 2), (pos & 1) * 32, 32);
        if (memo.size() < 200000) memo[key] = k;
        return k;
    }
    std::string leaf(uint64_t i, size_t nbytes) { return ref::keystream(node(h - 2, i / 2), (i & 1) * nbytes, nbytes); }
};
} // namespace mc
