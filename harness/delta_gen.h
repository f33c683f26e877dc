#pragma once
#include "lib.h"
struct DeltaProg {
    Bytes basis, delta, expect; std::string desc; size_t cmds = 0, copies = 0, nonmin = 0;
    std::vector<size_t> cmd_at;      // offset of each command byte in delta (end command last)
    std::vector<size_t> out_at;      // output length before each command
};
// A random valid delta with its reference output.
DeltaProg gen_delta(Src &s, size_t maxcmds, size_t maxlit, size_t maxbasis, bool minimal);
void put_lit(Bytes &d, const uint8_t *p, size_t n, int w);
void put_copy(Bytes &d, uint64_t pos, uint64_t len, int w1, int w2);
