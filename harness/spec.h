// Generated job descriptions shared by several properties.
#pragma once
#include "lib.h"
#include "delta_gen.h"
struct JobSpec {
    int kind = 0; // 0 sig 1 load 2 delta 3 slack 4 patch
    Bytes in, basis; SigP sp{0, 0, 0}; rs_signature_t *sig = nullptr;
    bool damaged = false; std::string desc;
    unsigned partial = 0, own = 0; uint64_t bseed = 0;
    uint32_t magic = 0; size_t bl = 0, sl = 0; size_t sig_basis = 0;
};
struct Outcome { rs_result res; Bytes out; std::string extra; };
extern const char *const KINDS[5];
void mutate(Src &s, Bytes &b, size_t keep_header_chance);
Outcome run_spec(const JobSpec &j, const Iface &f, const Bytes &probe);
void gen_spec(Src &s, JobSpec &j, SigHolder &sig, Bytes &probe, size_t maxn, size_t maxbl);
void compare_spec(const JobSpec &j, const Outcome &ref, const Outcome &o, const Iface &f);
