// Drivers for the library under test; uses only the public interface.
#pragma once
#include "engine.h"
#include "ref.h"
#include <cstdio>
extern "C" {
#include "librsync.h"
}

void lib_reset_globals();
void lib_reset_trace();
struct LogCap {                // captures log messages while in scope
    std::vector<std::pair<int, std::string>> ev; std::function<void(int, const char *)> hook;
    explicit LogCap(int level); ~LogCap(); std::string text() const;
};
std::string dump_text(rs_signature_t *sig);

// How a job is fed. All sizes come from a private PRNG so that a schedule is
// described by a few draws only.
struct Plan {
    uint64_t seed = 0;
    size_t in_max = SIZE_MAX;   // 0 = present everything at once
    size_t out_max = 0;         // 0 = ample
    int in_mode = 0;            // 0 fixed size in_max, 1 random 1..in_max, 2 mixture tiny/large
    int out_mode = 0;
    unsigned zero_in = 0, zero_out = 0;  // per-16 chance of an empty offer
    bool late_eof = false;      // signal end of input on a separate call
    bool whole_in = true, whole_out = true;
    bool fresh = true;          // re-present leftovers at new addresses
    std::string str() const;
};
Plan whole_plan();
Plan gen_plan(Src &s, size_t in_hint, size_t out_hint, bool small = false);

struct Iface { int kind = 0; Plan plan; int inbuf = 0, outbuf = 0; int filekind = 0; bool nostats = false; std::string str() const; }; // 0 push 1 pull 2 whole-file
Iface gen_iface(Src &s, size_t in_hint, size_t out_hint);

struct RunResult {
    rs_result res = RS_DONE;
    Bytes out;
    uint64_t out_len = 0;
    uint64_t consumed = 0;
    uint64_t calls = 0;
    rs_stats_t stats;
};

// in-memory basis with generated callback behaviour
struct Basis {
    const Bytes *data = nullptr;
    uint64_t vsize = 0;                 // virtual size when data is null
    // behaviour
    uint64_t seed = 0; unsigned partial = 0, own = 0, block = 0; // per-16 chances
    int64_t fail_at_call = -1; rs_result fail_with = RS_IO_ERROR;
    // log
    struct Call { uint64_t pos; size_t len, got; rs_result res; bool own; size_t avail; };
    std::vector<Call> log; bool keep_log = false;
    uint64_t calls = 0, blocked = 0; bool failed = false;
    Bytes ownbuf;
    const rs_buffers_t *cur = nullptr;  // current buffers, when driven by push
    std::string err;
    Rng rng{1};
    bool started = false;
};
extern std::function<void()> g_cb_hook; // runs inside the callbacks, when set
rs_result basis_cb(void *opaque, rs_long_t pos, size_t *len, void **buf);

struct PushOpts {
    std::function<bool()> stalled_ok;   // a no-progress BLOCKED return is legitimate
    std::function<void(const uint8_t *, size_t)> sink; // where output goes (default: RunResult.out)
    Basis *basis = nullptr;
    bool may_block = false;             // the basis callback blocks on its own account
    uint64_t max_out = 64u << 20;
    int64_t stop_after_calls = -1;      // give up (cancel) after this many calls
    bool eof = true;                    // false: never signal end of input
    std::function<void(rs_job_t *)> per_call;
};
// Drive job over `in`; checks buffer accounting and progress on every call.
RunResult run_push(rs_job_t *job, const Bytes &in, const Plan &p, const PushOpts &o = PushOpts());
RunResult run_pull(rs_job_t *job, const Bytes &in, const Plan &p, bool has_out, Basis *basis = nullptr);

// ---- whole operations through a chosen interface
struct SigP { uint32_t magic; size_t block_len; size_t strong_len; };
RunResult op_sig(const Bytes &basis, const SigP &p, const Iface &f);
RunResult op_load(const Bytes &sig, rs_signature_t **out, const Iface &f);
RunResult op_delta(rs_signature_t *sig, const Bytes &nw, const Iface &f);
RunResult op_patch(Basis &basis, const Bytes &delta, const Iface &f);

struct SigHolder {              // frees on scope exit
    rs_signature_t *s = nullptr;
    ~SigHolder() { reset(); }
    void reset() { if (s) { LibScope l; rs_free_sumset(s); s = nullptr; } }
};
struct JobHolder { rs_job_t *j = nullptr; ~JobHolder() { reset(); } void reset() { if (j) { LibScope l; rs_job_free(j); j = nullptr; } } };
void load_ok(const Bytes &sig, SigHolder &h);  // load + index, must succeed

// ---- stdio streams in memory, with faults
struct MemFile {
    Bytes data; uint64_t pos = 0;
    bool can_seek = true;
    size_t rmax = SIZE_MAX, wmax = SIZE_MAX;     // short operations
    int64_t fail_read_at = -1, fail_write_at = -1; // byte position from which operations fail
    int fail_read_times = -1, fail_write_times = -1; // -1 forever
    int64_t fail_seek_no = -1;
    int64_t nseek = 0, nread = 0, nwrite = 0;
    bool read_failed = false, write_failed = false, seek_failed = false, closed = false;
    int err = 5;
};
FILE *mem_open(MemFile *m, const char *mode, size_t stdio_buf /* 0 unbuffered, else size; SIZE_MAX default */);

// ---- generators
uint32_t gen_magic(Src &s);
size_t gen_block_len(Src &s, size_t maxbl);
size_t gen_strong_len(Src &s, uint32_t magic, size_t lo = 1);
Bytes gen_content(Src &s, size_t n, size_t bl);
struct PairCfg { size_t max_basis = 40000, max_new = 40000; };
void gen_pair(Src &s, size_t bl, uint32_t magic, size_t max_basis, size_t max_new, Bytes &basis, Bytes &nw, Ctx *c = nullptr);
void fill_random(uint8_t *p, size_t n, uint64_t seed, unsigned alphabet = 256);
// make a different block with the same weak sum; returns false if impossible
bool weak_twin(Src &s, uint32_t magic, uint8_t *p, size_t n);
// change the block so its weak sum becomes target
bool weak_target(uint32_t magic, uint8_t *p, size_t n, uint32_t target, uint64_t seed);

const char *res_name(rs_result r);
void expect_same(const Bytes &got, const Bytes &want, const char *what);
int scratch_file(const Bytes &b, std::string &path); // creates file, returns fd
std::string scratch_path(const char *stem);
