// Controlled two-thread scheduler and happens-before monitor: see tsanrt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace mc { namespace sched {
struct Race { uint64_t addr; void* pc; void* other; int tid; bool write, other_write; unsigned size; };
struct Report
{
    uint64_t accesses = 0, syncs = 0, switches = 0;
    uint32_t points[2] = {0, 0};       // scheduling points passed by each thread
    bool deadlock = false, overflow = false;
    unsigned races = 0; Race race[8];
};
// Runs f(0) and f(1) in two threads, one at a time. The thread `first` starts; when it is about to pass its point number p[0] (counted from 1) the other
// runs until its point number p[1] (0: to its end), and so on, alternating over the list; after the list every thread runs to its end (or until it blocks).
Report run(void (*f)(int), int first, const std::vector<uint32_t>& p);
}} // namespace mc::sched
