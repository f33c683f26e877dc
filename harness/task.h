// A self-contained piece of work whose whole observable result is one string.
#pragma once
#include "spec.h"
struct Task {
    int kind = 0;                // 0..4 as JobSpec, 5 chain, 6 digest, 7 text helpers, 8 parameters
    Bytes a, b, sig; SigP sp{0, 0, 0}; Iface f; uint64_t seed = 0; bool has_sig = false;
    std::string desc;
};
Task gen_task(Src &s, int kind, size_t maxn, size_t maxbl, size_t maxblocks = 3000);
std::string run_task(const Task &t);
void thread_trace(rs_loglevel l, char const *m);
