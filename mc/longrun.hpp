// Long histories: each chosen operation again and again on the same objects, and the same operations on many objects alive at once.
#pragma once
#include "ops.hpp"
#include <map>

namespace mc { namespace ops {

inline bool named(const Op& op, std::initializer_list<const char*> prefixes)
{
    for (const char* p : prefixes) if (op.name.compare(0, strlen(p), p) == 0) return true;
    return false;
}
// an operation's name has this part between its dots
inline bool part(const Op& op, const char* p) { return ("." + op.name + ".").find("." + std::string(p) + ".") != std::string::npos; }

template<class Which> void long_runs(Ctx& ctx, Which which)
{
    for (int fam : {(int)World::SYM, (int)World::RC, (int)World::TDP}) {
        std::vector<int> sel;
        for (int i : select(fam)) if (which(all()[i])) sel.push_back(i);
        static std::map<int, std::vector<uint64_t>> wants;
        auto& want = wants[fam];
        auto fresh = [&] { if (want.empty()) { World F(1, fam); for (int i : sel) want.push_back(fnv(run(all()[i], F))); } };
        for (size_t s = 0; s < sel.size(); s++) {
            const Op& op = all()[sel[s]];
            CASE("%s again and again", op.name.c_str()) {
                fresh();
                World W(1, fam);
                int rounds = 66000;
                if (named(op, {"rcprf", "crcprf"}) && !ctx.thorough && !part(op, "eval")) rounds = 5000; // many keys each
                if (fam == World::TDP) rounds = named(op, {"tdpi"}) && !(op.flags & FAIL) ? (ctx.thorough ? 5000 : 300) : (ctx.thorough ? 66000 : 3000);
                for (int r = 1; r <= rounds; r++) {
                    if (!ctx.check(fnv(run(op, W)) == want[s], "%s: another result at call %d in a row", op.name.c_str(), r)) return;
                    if ((r & (r - 1)) == 0 || r == rounds)
                        for (size_t p = 0; p < sel.size(); p++) {
                            if (fam == World::TDP && r > 1 && r < rounds && r != 256) continue;
                            if (!ctx.check(fnv(run(all()[sel[p]], W)) == want[p], "%s after %d calls of %s: another result", all()[sel[p]].name.c_str(), r, op.name.c_str())) return;
                        }
                    if (r % 256 == 0) ctx.tick();
                }
                ctx.step(rounds);
            };
            CASE("%s on many objects", op.name.c_str()) {
                int n = fam == World::TDP ? 8 : 300;
                std::vector<uint64_t> w;
                for (int l = 1; l <= n; l++) { World F(l, fam); w.push_back(fnv(run(op, F))); }
                std::vector<std::unique_ptr<World>> live;
                for (int l = 1; l <= n; l++) live.emplace_back(new World(l, fam));
                for (int pass = 0; pass < 3; pass++)
                    for (int l = 0; l < n; l++) {
                        if (pass == 1) { live[l].reset(); if (l % 3 == 0) live[l].reset(new World(l + 1, fam)); else continue; }
                        if (!live[l]) continue;
                        if (!ctx.check(fnv(run(op, *live[l])) == w[l], "%s on object %d of %d: not the result it gives alone", op.name.c_str(), l + 1, n)) return;
                        ctx.step();
                    }
            };
        }
    }
}
}} // namespace mc::ops
