#include "lib.h"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>

static void null_trace(rs_loglevel, char const *) {}
static LogCap *s_cap;
static void cap_trace(rs_loglevel l, char const *m) { OutScope o; if (s_cap) { s_cap->ev.push_back({(int)l, m ? m : "(null)"}); if (s_cap->hook) s_cap->hook((int)l, m); } }
LogCap::LogCap(int level) { s_cap = this; rs_trace_to(cap_trace); rs_trace_set_level((rs_loglevel)level); }
LogCap::~LogCap() { s_cap = nullptr; lib_reset_trace(); }
void lib_reset_trace() { rs_trace_set_level(RS_LOG_EMERG); rs_trace_to(null_trace); }
std::string LogCap::text() const { std::string t; for (auto &e : ev) t += e.second; return t; }
std::string dump_text(rs_signature_t *sig) { LogCap c(RS_LOG_INFO); { LibScope l; rs_sumset_dump(sig); } return c.text(); }
void lib_reset_globals() {
    rs_inbuflen = rs_outbuflen = 0;
    rs_trace_set_level(RS_LOG_EMERG);
    rs_trace_to(null_trace);
    errno = 0;
}

const char *res_name(rs_result r) {
    switch ((int)r) {
    case RS_DONE: return "DONE"; case RS_BLOCKED: return "BLOCKED"; case RS_RUNNING: return "RUNNING";
    case RS_IO_ERROR: return "IO_ERROR"; case RS_SYNTAX_ERROR: return "SYNTAX_ERROR"; case RS_MEM_ERROR: return "MEM_ERROR";
    case RS_INPUT_ENDED: return "INPUT_ENDED"; case RS_BAD_MAGIC: return "BAD_MAGIC"; case RS_UNIMPLEMENTED: return "UNIMPLEMENTED";
    case RS_CORRUPT: return "CORRUPT"; case RS_INTERNAL_ERROR: return "INTERNAL_ERROR"; case RS_PARAM_ERROR: return "PARAM_ERROR";
    case RS_TEST_SKIPPED: return "SKIPPED";
    default: return "(unknown result)";
    }
}
void expect_same(const Bytes &got, const Bytes &want, const char *what) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("%s: got %zu bytes, expected %zu, first difference at %zu (got %s, expected %s)", what, got.size(), want.size(), i,
         i < got.size() ? hexs(&got[i], std::min<size_t>(8, got.size() - i)).c_str() : "end",
         i < want.size() ? hexs(&want[i], std::min<size_t>(8, want.size() - i)).c_str() : "end");
}

std::string Plan::str() const {
    if (whole_in && whole_out) return late_eof ? "whole/late-eof" : "whole";
    return strf("in(%s%zu m%d z%u) out(%s%zu m%d z%u)%s%s", whole_in ? "whole " : "", in_max, in_mode, zero_in, whole_out ? "ample " : "", out_max, out_mode, zero_out,
                late_eof ? " late-eof" : "", fresh ? " fresh" : "");
}
std::string Iface::str() const {
    if (kind == 2) return strf("file(in=%d out=%d k%d%s)", inbuf, outbuf, filekind, nostats ? " no-stats" : "");
    return std::string(kind ? "pull " : "push ") + plan.str();
}
Plan whole_plan() { Plan p; return p; }

// hints bound the number of calls: at most ~20000 per direction
Plan gen_plan(Src &s, size_t in_hint, size_t out_hint, bool small) {
    Plan p;
    unsigned k = s.weighted({small ? 1u : 4u, 3, 3, 6});
    p.late_eof = s.flip();
    if (k == 0) return p;
    p.seed = s.draw(0, 0xffffffff);
    p.whole_in = k == 1;
    p.whole_out = k == 2;
    p.fresh = !s.chance(1, 4);
    const size_t cap = 12000;
    auto sz = [&](size_t hint) -> size_t {
        size_t lo = 1 + hint / cap;
        size_t v;
        switch (s.weighted({4, 3, 3})) {
        case 0: v = s.size(1, 40); break;
        case 1: v = s.size(1, hint + 2 > 2 ? hint + 2 : 2); break;
        default: v = s.size(1, 200000); break;
        }
        return v < lo ? lo : v;
    };
    if (!p.whole_in) { p.in_max = sz(in_hint); p.in_mode = (int)s.draw(0, 2); p.zero_in = s.chance(1, 3) ? (unsigned)s.draw(1, 8) : 0; }
    if (!p.whole_out) { p.out_max = sz(out_hint); p.out_mode = (int)s.draw(0, 2); p.zero_out = s.chance(1, 3) ? (unsigned)s.draw(1, 8) : 0; }
    return p;
}
Iface gen_iface(Src &s, size_t in_hint, size_t out_hint) {
    Iface f;
    f.kind = (int)s.weighted({5, 2, 3});
    if (f.kind == 2) {
        auto bl = [&](size_t hint) -> int {
            if (s.chance(2, 5)) return 0;
            size_t v = s.flip() ? s.size(1, 64) : s.size(1, 300000);
            size_t lo = 1 + hint / 20000;
            return (int)std::max(v, lo);
        };
        f.inbuf = bl(in_hint); f.outbuf = bl(out_hint);
        f.filekind = (int)s.draw(0, 3);
        f.nostats = s.chance(1, 5);     // the caller may pass no statistics structure
    } else f.plan = gen_plan(s, in_hint, out_hint);
    return f;
}

static size_t pick_sz(Rng &r, int mode, size_t max) {
    switch (mode) {
    case 0: return max;
    case 1: return 1 + r.next() % max;
    default: return (r.next() & 3) ? 1 + r.next() % std::min<size_t>(max, 4) : max;
    }
}

// ------------------------------------------------------------------ basis
std::function<void()> g_cb_hook;   // runs inside the callbacks, when set
rs_result basis_cb(void *opaque, rs_long_t pos, size_t *len, void **buf) {
    OutScope os;
    if (g_cb_hook) g_cb_hook();
    Basis *b = (Basis *)opaque;
    if (!b->started) { b->rng = Rng(b->seed); b->started = true; }
    b->calls++;
    size_t want = *len;
    uint64_t size = b->data ? b->data->size() : b->vsize;
    Basis::Call c{(uint64_t)pos, want, 0, RS_DONE, false, b->cur ? b->cur->avail_out : (size_t)-1};
    auto done = [&](rs_result r) { c.res = r; if (b->keep_log) b->log.push_back(c); return r; };
    if (pos < 0) { if (b->err.empty()) b->err = strf("callback asked for negative position %lld", (long long)pos); return done(RS_IO_ERROR); }
    if (want == 0) { if (b->err.empty()) b->err = "callback asked for zero bytes"; return done(RS_IO_ERROR); }
    if (b->fail_at_call >= 0 && (int64_t)b->calls - 1 >= b->fail_at_call) { b->failed = true; return done(b->fail_with); }
    if (b->block && b->rng.next() % 16 < b->block && b->blocked < 4000) { b->blocked++; return done(RS_BLOCKED); }
    if ((uint64_t)pos >= size) return done(RS_INPUT_ENDED);
    size_t n = (size_t)std::min<uint64_t>(want, size - pos);
    if (b->partial && b->rng.next() % 16 < b->partial && n > 1) n = 1 + b->rng.next() % n;
    uint8_t *dst = (uint8_t *)*buf;
    if (b->own && b->rng.next() % 16 < b->own) {
        if (b->data) {
            *buf = (void *)(b->data->data() + pos); // points into the basis itself
            dst = nullptr;
        } else { b->ownbuf.resize(n); dst = b->ownbuf.data(); *buf = dst; }
        c.own = true;
    }
    if (dst) {
        if (b->data) memcpy(dst, b->data->data() + pos, n);
        else for (size_t i = 0; i < n; i++) { uint64_t q = pos + i; dst[i] = (uint8_t)((q * 0x9E3779B97F4A7C15ull) >> 56 ^ q); }
    }
    *len = n;
    c.got = n;
    return done(RS_DONE);
}

// ------------------------------------------------------------------ push
namespace {
const size_t GUARD = 32;
struct Buf {                   // exact-size heap buffer with guard bytes checked by us when no sanitizer is there
    uint8_t *raw = nullptr; size_t n = 0;
    size_t g = 0;
    void alloc(size_t k) {
        release();
        g = g_san ? 0 : GUARD;
        raw = (uint8_t *)malloc(k + 2 * g + (k + g == 0));
        n = k;
        if (g) { memset(raw, 0xC3, g); memset(raw + g + k, 0xC3, g); }
    }
    uint8_t *p() { return raw + g; }
    void check(const char *what) {
        for (size_t i = 0; i < g; i++)
            if (raw[i] != 0xC3 || raw[g + n + i] != 0xC3) fail("%s: bytes outside the offered buffer were written", what);
    }
    void release() { if (raw) { if (!g_san) memset(raw, 0xDB, n + 2 * g); free(raw); raw = nullptr; } }
    ~Buf() { release(); }
};
}

RunResult run_push(rs_job_t *job, const Bytes &in, const Plan &p, const PushOpts &o) {
    RunResult r;
    Rng rng(p.seed);
    Buf ib, ob;
    rs_buffers_t b;
    memset(&b, 0, sizeof b);
    size_t shown = 0;           // bytes of `in` presented so far
    bool eof = false;
    unsigned stuck = 0, idle = 0;
    size_t base = 0;            // offset in `in` of ib.p()
    bool have_in = false, have_out = false;
    for (;;) {
        if (o.stop_after_calls >= 0 && (int64_t)r.calls >= o.stop_after_calls) { r.res = RS_BLOCKED; return r; }
        // ---- offer input
        size_t left = b.avail_in;
        size_t add = 0;
        if (shown < in.size()) {
            if (p.whole_in) add = in.size() - shown;
            else if (!(p.zero_in && rng.next() % 16 < p.zero_in)) add = std::min(in.size() - shown, pick_sz(rng, p.in_mode, p.in_max));
            // do not let the unconsumed tail grow without bound while output is blocked
            if (!p.whole_in && left > 2048 && (left > 400000 || rng.next() % 16)) add = 0;
        }
        if (shown + add == in.size() && o.eof && !eof) {
            if (!p.late_eof || (add == 0 && shown == in.size())) eof = true;
        }
        if (add || !have_in || (p.fresh && left && (left < 2048 || rng.next() % 64 == 0))) {
            size_t from = shown - left;
            Buf nb;
            nb.alloc(left + add);
            memcpy(nb.p(), in.data() + from, left + add);
            std::swap(nb.raw, ib.raw); std::swap(nb.n, ib.n); std::swap(nb.g, ib.g);
            base = from; have_in = true;
            b.next_in = (char *)ib.p();
            b.avail_in = left + add;
            shown += add;
        }
        if (b.avail_in == 0 && rng.next() % 2) b.next_in = nullptr, have_in = false;
        b.eof_in = eof;
        // ---- offer output
        size_t osz;
        if (p.whole_out) osz = 65536 + (r.calls ? 65536 : in.size() * 2);
        else if (p.zero_out && rng.next() % 16 < p.zero_out) osz = 0;
        else osz = pick_sz(rng, p.out_mode, p.out_max);
        bool keep_out = have_out && b.avail_out && (p.whole_out ? b.avail_out > 30000 : rng.next() % 4 == 0);
        if (!keep_out) {
            ob.alloc(osz);
            b.next_out = (osz || rng.next() % 2) ? (char *)ob.p() : nullptr;
            b.avail_out = osz;
            have_out = true;
        }
        char *ni = b.next_in, *no = b.next_out;
        size_t ai = b.avail_in, ao = b.avail_out;
        if (o.basis) o.basis->cur = &b;
        rs_result res; uint64_t bb = o.basis ? o.basis->blocked : 0;
        { LibScope l; res = rs_job_iter(job, &b); }
        r.calls++;
        // ---- accounting
        CHECK(b.avail_in <= ai, "avail_in grew from %zu to %zu", ai, b.avail_in);
        CHECK(b.avail_out <= ao, "avail_out grew from %zu to %zu", ao, b.avail_out);
        CHECK((size_t)(b.next_in - ni) == ai - b.avail_in, "next_in moved by %td but avail_in fell by %zu", b.next_in - ni, ai - b.avail_in);
        CHECK((size_t)(b.next_out - no) == ao - b.avail_out, "next_out moved by %td but avail_out fell by %zu", b.next_out - no, ao - b.avail_out);
        CHECK(b.eof_in == (int)eof, "eof_in was changed by the library");
        size_t used = ai - b.avail_in, made = ao - b.avail_out;
        r.consumed += used;
        r.out_len += made;
        if (ao) ob.check("output");
        if (have_in && (ib.n < 4096 || rng.next() % 16 == 0)) {
            if (ib.n && memcmp(ib.p(), in.data() + base, ib.n)) fail("input buffer contents were modified");
            ib.check("input");
        }
        if (made) {
            if (o.sink) o.sink((uint8_t *)no, made);
            else r.out.insert(r.out.end(), (uint8_t *)no, (uint8_t *)no + made);
        }
        if (o.per_call) o.per_call(job);
        if (r.out_len > o.max_out) { fail("job produced more than %llu bytes of output", (unsigned long long)o.max_out); }
        r.res = res;
        if (res != RS_BLOCKED) break;
        if (eof && b.avail_out && !o.may_block && !(o.basis && o.basis->blocked != bb)) fail("rs_job_iter reported RS_BLOCKED although the input has ended and %zu bytes of output space are left", b.avail_out);
        // ---- progress
        if (used || made) stuck = 0, idle = 0;
        else if (o.stalled_ok && ao && o.stalled_ok()) stuck = idle = 0;
        else if (ao && (ai || eof) && ++idle > 2000) fail("livelock: no progress in %u calls with input (%zu bytes, eof=%d) and output space offered", idle, ai, (int)eof);
        else if (ao && (shown == in.size()) && (eof || !o.eof)) {
            if (!o.eof) { break; }       // wants more input: legitimate
            else if (++stuck >= 3) fail("livelock: job stays blocked with all input (avail_in=%zu) and end of input offered and %zu bytes of output space", ai, ao);
        }
    }
    r.stats = *rs_job_statistics(job);
    CHECK(r.res != RS_RUNNING, "rs_job_iter returned RS_RUNNING");
    return r;
}

// ------------------------------------------------------------------ pull
namespace {
struct PullState {
    const Bytes *in; size_t shown = 0; const Plan *p; Rng rng{1};
    Bytes ibuf, obuf, out; uint64_t out_len = 0; size_t osz = 0; bool outset = false; uint64_t calls = 0; unsigned stuck = 0; size_t eaten = 0; uint64_t quiet = 0;
    rs_job_t *job = nullptr; bool eof_sent = false;
    Bytes obuf2;
};
}
static const rs_result PULL_STUCK = (rs_result)98765;
static rs_result pull_in(rs_job_t *job, rs_buffers_t *buf, void *opaque) {
    OutScope os;
    if (g_cb_hook) g_cb_hook();
    PullState *s = (PullState *)opaque;
    if (job != s->job) return RS_PARAM_ERROR;
    s->calls++;
    size_t left = buf->avail_in, add = 0;
    if (s->shown - left != s->eaten) { s->eaten = s->shown - left; s->quiet = 0; }     // only calls without any progress count
    if (++s->quiet > 1000000) return PULL_STUCK;
    size_t rest = s->in->size() - s->shown;
    if (rest) {
        if (s->p->whole_in) add = rest;
        else if (!(s->p->zero_in && s->rng.next() % 16 < s->p->zero_in)) add = std::min(rest, pick_sz(s->rng, s->p->in_mode, s->p->in_max));
        if (!s->p->whole_in && left > 2048 && (left > 400000 || s->rng.next() % 16)) add = 0;
    }
    if (add) {
        s->quiet = 0;
        Bytes nb(s->in->begin() + (s->shown - left), s->in->begin() + s->shown + add);
        s->shown += add;
        s->ibuf.swap(nb);
        buf->next_in = (char *)s->ibuf.data(); buf->avail_in = s->ibuf.size();
        if (s->shown == s->in->size() && !s->p->late_eof) { buf->eof_in = 1; s->eof_sent = true; }
    } else if (s->shown == s->in->size()) { buf->eof_in = 1; s->eof_sent = true; }
    return RS_DONE;
}
static rs_result pull_out(rs_job_t *job, rs_buffers_t *buf, void *opaque) {
    OutScope os;
    if (g_cb_hook) g_cb_hook();
    PullState *s = (PullState *)opaque;
    if (job != s->job) return RS_PARAM_ERROR;
    if (s->outset) {
        size_t made = s->osz - buf->avail_out;
        if (made) { s->out.insert(s->out.end(), s->obuf.begin(), s->obuf.begin() + made); s->stuck = 0; s->quiet = 0; }
        else if (s->osz && s->eof_sent && ++s->stuck > 40) return PULL_STUCK; // no progress possible any more
        if (s->out.size() > (256u << 20)) return PULL_STUCK;
    }
    size_t osz = s->p->whole_out ? 65536 : (s->p->zero_out && s->rng.next() % 16 < s->p->zero_out) ? 0 : pick_sz(s->rng, s->p->out_mode, s->p->out_max);
    if (s->outset && osz == s->osz && buf->avail_out == osz) return RS_DONE;
    Bytes nb(osz);
    s->obuf.swap(nb);
    s->osz = osz; s->outset = true;
    buf->next_out = (char *)s->obuf.data(); buf->avail_out = osz;
    return RS_DONE;
}
RunResult run_pull(rs_job_t *job, const Bytes &in, const Plan &p, bool has_out, Basis *basis) {
    RunResult r;
    PullState s;
    s.in = &in; s.p = &p; s.rng = Rng(p.seed); s.job = job;
    rs_buffers_t b;
    memset(&b, 0x5a, sizeof b);  // the drive call must initialise it
    (void)basis;
    { LibScope l; r.res = rs_job_drive(job, &b, pull_in, &s, has_out ? pull_out : nullptr, &s); }
    CHECK(r.res != PULL_STUCK, "livelock: pull job makes no progress although end of input was signalled and output space is available");
    r.out.swap(s.out);
    r.out_len = r.out.size();
    r.calls = s.calls;
    r.stats = *rs_job_statistics(job);
    return r;
}

// ------------------------------------------------------------------ stdio
static ssize_t mf_read(void *c, char *buf, size_t n) {
    OutScope os;
    if (g_cb_hook) g_cb_hook();
    MemFile *m = (MemFile *)c;
    m->nread++;
    if (m->pos >= m->data.size() && !(m->fail_read_at >= 0 && m->pos >= (uint64_t)m->fail_read_at)) return 0;
    size_t k = m->pos < m->data.size() ? std::min(n, m->data.size() - (size_t)m->pos) : 0;
    if (m->fail_read_at >= 0 && m->fail_read_times != 0) {
        if (m->pos >= (uint64_t)m->fail_read_at) { m->read_failed = true; if (m->fail_read_times > 0) m->fail_read_times--; errno = m->err; return -1; }
        k = std::min<size_t>(k, m->fail_read_at - m->pos);
    }
    k = std::min(k, m->rmax);
    memcpy(buf, m->data.data() + m->pos, k);
    m->pos += k;
    return (ssize_t)k;
}
static ssize_t mf_write(void *c, const char *buf, size_t n) {
    OutScope os;
    if (g_cb_hook) g_cb_hook();
    MemFile *m = (MemFile *)c;
    m->nwrite++;
    size_t k = n;
    if (m->fail_write_at >= 0 && m->fail_write_times != 0) {
        if (m->pos >= (uint64_t)m->fail_write_at) { m->write_failed = true; if (m->fail_write_times > 0) m->fail_write_times--; errno = m->err; return 0; }
        k = std::min<size_t>(k, m->fail_write_at - m->pos);
        // the C library takes a short write from a stream cookie for a write error
        if (k < n) { m->write_failed = true; if (m->fail_write_times > 0) m->fail_write_times--; errno = m->err; }
    }
    k = std::min(k, m->wmax);
    if (m->data.size() < m->pos + k) m->data.resize(m->pos + k);
    memcpy(m->data.data() + m->pos, buf, k);
    m->pos += k;
    return (ssize_t)k;
}
static int mf_seek(void *c, off64_t *off, int whence) {
    OutScope os;
    MemFile *m = (MemFile *)c;
    if (!m->can_seek) { m->seek_failed = true; errno = ESPIPE; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)m->pos : (int64_t)m->data.size();
    if (m->fail_seek_no >= 0 && m->nseek++ >= m->fail_seek_no) { m->seek_failed = true; errno = EIO; return -1; }
    if (base + *off < 0) { errno = EINVAL; return -1; }
    m->pos = base + *off;
    *off = m->pos;
    return 0;
}
static int mf_close(void *c) { ((MemFile *)c)->closed = true; return 0; }
FILE *mem_open(MemFile *m, const char *mode, size_t sb) {
    cookie_io_functions_t f = {mf_read, mf_write, mf_seek, mf_close};
    FILE *fp = fopencookie(m, mode, f);
    if (!fp) fail("harness: fopencookie failed");
    if (sb == 0) setvbuf(fp, nullptr, _IONBF, 0);
    else if (sb != SIZE_MAX) setvbuf(fp, nullptr, _IOFBF, sb);
    return fp;
}

static std::atomic<uint64_t> scr_no;
bool g_fixed_buflen = false; // several threads: the library's buffer size settings stay as they are
std::string scratch_path(const char *stem) { return strf("%s/%s.%d.%llu", g_scratch.c_str(), stem, (int)getpid(), (unsigned long long)scr_no++); }
int scratch_file(const Bytes &b, std::string &path) {
    path = scratch_path("f");
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) fail("harness: cannot create scratch file %s", path.c_str());
    size_t o = 0;
    while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) { close(fd); fail("harness: scratch write"); } o += k; }
    lseek(fd, 0, SEEK_SET);
    return fd;
}

namespace {
// A FILE holding given bytes: memory stream, unbuffered memory stream or real temporary file.
struct InFile {
    MemFile m; FILE *f = nullptr; std::string path;
    InFile(const Bytes &b, int kind) {
        if (kind == 3) { int fd = scratch_file(b, path); unlink(path.c_str()); f = fdopen(fd, "r+b"); }
        else { m.data = b; if (kind == 2) m.rmax = 1 + b.size() / 300; f = mem_open(&m, "r", kind == 1 ? 0 : SIZE_MAX); }
    }
    ~InFile() { if (f) fclose(f); }
};
struct OutFile {
    MemFile m; FILE *f = nullptr;
    explicit OutFile(int kind) { f = mem_open(&m, "w", kind == 1 ? 0 : SIZE_MAX); }
    Bytes finish() { if (f) { int r = fclose(f); f = nullptr; CHECK(r == 0, "harness: fclose"); } return m.data; }
    ~OutFile() { if (f) fclose(f); }
};
struct BufLen { BufLen(int i, int o) { if (!g_fixed_buflen) { rs_inbuflen = i; rs_outbuflen = o; } } ~BufLen() { if (!g_fixed_buflen) rs_inbuflen = rs_outbuflen = 0; } };
}

RunResult op_sig(const Bytes &basis, const SigP &p, const Iface &f) {
    if (f.kind == 2) {
        InFile in(basis, f.filekind); OutFile out(f.filekind); BufLen bl(f.inbuf, f.outbuf);
        RunResult r;
        { LibScope l; r.res = rs_sig_file(in.f, out.f, p.block_len, p.strong_len, (rs_magic_number)p.magic, f.nostats ? nullptr : &r.stats); }
        r.out = out.finish(); r.out_len = r.out.size();
        return r;
    }
    JobHolder j;
    { LibScope l; j.j = rs_sig_begin(p.block_len, p.strong_len, (rs_magic_number)p.magic); }
    CHECK(j.j, "rs_sig_begin returned NULL");
    return f.kind ? run_pull(j.j, basis, f.plan, true) : run_push(j.j, basis, f.plan);
}
RunResult op_load(const Bytes &sig, rs_signature_t **out, const Iface &f) {
    *out = nullptr;
    if (f.kind == 2) {
        InFile in(sig, f.filekind); BufLen bl(f.inbuf, f.outbuf);
        RunResult r;
        { LibScope l; r.res = rs_loadsig_file(in.f, out, f.nostats ? nullptr : &r.stats); }
        return r;
    }
    JobHolder j;
    { LibScope l; j.j = rs_loadsig_begin(out); }
    CHECK(j.j, "rs_loadsig_begin returned NULL");
    return f.kind ? run_pull(j.j, sig, f.plan, false) : run_push(j.j, sig, f.plan);
}
RunResult op_delta(rs_signature_t *sig, const Bytes &nw, const Iface &f) {
    if (f.kind == 2 && sig) {
        InFile in(nw, f.filekind); OutFile out(f.filekind); BufLen bl(f.inbuf, f.outbuf);
        RunResult r;
        { LibScope l; r.res = rs_delta_file(sig, in.f, out.f, f.nostats ? nullptr : &r.stats); }
        r.out = out.finish(); r.out_len = r.out.size();
        return r;
    }
    JobHolder j;
    { LibScope l; j.j = rs_delta_begin(sig); }
    CHECK(j.j, "rs_delta_begin returned NULL");
    return f.kind == 1 ? run_pull(j.j, nw, f.plan, true) : run_push(j.j, nw, f.plan);
}
RunResult op_patch(Basis &basis, const Bytes &delta, const Iface &f) {
    if (f.kind == 2 && basis.data) {
        InFile bs(*basis.data, f.filekind), in(delta, f.filekind); OutFile out(f.filekind); BufLen bl(f.inbuf, f.outbuf);
        RunResult r;
        { LibScope l; r.res = rs_patch_file(bs.f, in.f, out.f, f.nostats ? nullptr : &r.stats); }
        r.out = out.finish(); r.out_len = r.out.size();
        return r;
    }
    JobHolder j;
    { LibScope l; j.j = rs_patch_begin(basis_cb, &basis); }
    CHECK(j.j, "rs_patch_begin returned NULL");
    RunResult r;
    if (f.kind == 1) r = run_pull(j.j, delta, f.plan, true, &basis);
    else {
        PushOpts o;
        o.basis = &basis;
        uint64_t lastb = 0;
        o.stalled_ok = [&]() { bool b = basis.blocked != lastb; lastb = basis.blocked; return b; };
        r = run_push(j.j, delta, f.plan, o);
        basis.cur = nullptr;
    }
    if (!basis.err.empty()) fail("%s", basis.err.c_str());
    return r;
}
void load_ok(const Bytes &sig, SigHolder &h) {
    Iface f;
    RunResult r = op_load(sig, &h.s, f);
    CHECK(r.res == RS_DONE, "loading a well-formed signature (%zu bytes) failed: %s", sig.size(), res_name(r.res));
    rs_result q;
    { LibScope l; q = rs_build_hash_table(h.s); }
    CHECK(q == RS_DONE, "rs_build_hash_table failed: %s", res_name(q));
}

// ------------------------------------------------------------------ generators
void fill_random(uint8_t *p, size_t n, uint64_t seed, unsigned alpha) {
    Rng r(seed);
    if (alpha >= 256) {
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
        uint64_t v = r.next();
        for (; i < n; i++) { p[i] = (uint8_t)v; v >>= 8; }
    } else for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(r.next() % alpha + (seed >> 5 & 0x7f));
}
uint32_t gen_magic(Src &s) { static const uint32_t m[4] = {M_RK_BLAKE2, M_RK_MD4, M_BLAKE2, M_MD4}; return m[s.draw(0, 3)]; }
size_t gen_block_len(Src &s, size_t maxbl) {
    switch (s.weighted({4, 4, 4, 2})) {
    case 0: return s.draw(1, std::min<size_t>(maxbl, 16));
    case 1: return s.size(1, std::min<size_t>(maxbl, 256));
    case 2: return s.size(1, std::min<size_t>(maxbl, 4096));
    default: return s.size(1, maxbl);
    }
}
size_t gen_strong_len(Src &s, uint32_t magic, size_t lo) {
    size_t mx = magic_max_strong(magic);
    switch (s.weighted({3, 3, 4})) {
    case 0: return mx;
    case 1: return std::max(lo, std::min<size_t>(mx, 8));
    default: return s.draw(std::min(lo, mx), mx);
    }
}
Bytes gen_content(Src &s, size_t n, size_t bl) {
    Bytes b(n);
    size_t o = 0;
    int segs = 0;
    while (o < n) {
        size_t rest = n - o;
        size_t len = segs++ >= 6 ? rest : std::min(rest, s.flip() ? s.size(1, rest) : (size_t)s.draw(1, 8) * bl);
        if (!len) len = 1;
        uint64_t seed = s.draw(0, 0xffff);
        switch (s.weighted({6, 3, 2, 3, 2})) {
        case 0: fill_random(&b[o], len, seed); break;
        case 1: fill_random(&b[o], len, seed, 1 + (unsigned)(seed % 3)); break;
        case 2: memset(&b[o], (int)(seed & 1 ? 0 : seed & 2 ? 0xff : seed >> 2), len); break;
        case 3: if (o) { size_t from = s.draw(0, o - 1); for (size_t i = 0; i < len; i++) b[o + i] = b[from + i]; } else fill_random(&b[o], len, seed); break;
        default: { size_t per = 1 + seed % 40; for (size_t i = 0; i < len; i++) b[o + i] = (uint8_t)((i % per) * 37 + seed); }
        }
        o += len;
    }
    return b;
}

// --- weak sum tools
bool weak_target(uint32_t magic, uint8_t *p, size_t n, uint32_t target, uint64_t seed) {
    if (magic_is_rk(magic)) {
        if (n < 5) return false;
        const uint32_t M = 0x08104225u;
        static std::vector<std::pair<uint32_t, uint16_t>> tab; // value of last two bytes
        if (tab.empty()) {
            for (uint32_t i = 0; i < 65536; i++) tab.push_back({(i >> 8) * M + (i & 255), (uint16_t)i});
            std::sort(tab.begin(), tab.end());
        }
        uint32_t h0 = 1;
        for (size_t i = 0; i + 5 < n; i++) h0 = h0 * M + p[i];
        uint32_t M2 = M * M;
        Rng r(seed);
        uint32_t start = (uint32_t)r.next() & 0xffffff;
        for (uint32_t k = 0; k < (1u << 24); k++) {
            uint32_t t = (start + k * 0x9e3779u) & 0xffffff;
            uint32_t h = ((h0 * M + (t >> 16)) * M + (t >> 8 & 255)) * M + (t & 255);
            uint32_t need = target - h * M2;
            auto it = std::lower_bound(tab.begin(), tab.end(), std::make_pair(need, (uint16_t)0));
            if (it != tab.end() && it->first == need) {
                p[n - 5] = t >> 16; p[n - 4] = t >> 8; p[n - 3] = t; p[n - 2] = it->second >> 8; p[n - 1] = (uint8_t)it->second;
                return ref_rk(p, n) == target;
            }
        }
        return false;
    }
    // rollsum: reach s1 by adjusting bytes, then s2 by moving mass between positions
    if (n < 64 || n > 20000) return false;
    uint32_t t1 = target & 0xffff, t2 = target >> 16;
    Rng r(seed);
    int64_t sum = 0;
    for (size_t i = 0; i < n; i++) sum += p[i];
    // want sum + 31 n == t1 (mod 65536), 0 <= sum <= 255 n
    int64_t want = -1;
    for (int64_t v = ((int64_t)t1 - 31 * (int64_t)n) % 65536; v <= 255 * (int64_t)n; v += 65536) { if (v >= 0 && (want < 0 || std::llabs(v - sum) < std::llabs(want - sum))) want = v; }
    if (want < 0) return false;
    for (size_t guard = 0; sum != want && guard < 600 * n; guard++) {
        size_t i = r.next() % n;
        int64_t d = want - sum;
        int64_t nv = (int64_t)p[i] + d;
        nv = nv < 0 ? 0 : nv > 255 ? 255 : nv;
        sum += nv - p[i]; p[i] = (uint8_t)nv;
    }
    if (sum != want) return false;
    // s2 = sum (n-i)*(b_i+31): moving one unit from i to j>i lowers s2 by (j-i)
    for (int guard = 0; guard < 200000; guard++) {
        uint32_t s2 = ref_rollsum(p, n) >> 16;
        if (s2 == t2) return ref_rollsum(p, n) == target;
        uint32_t down = (s2 - t2) & 0xffff, up = (t2 - s2) & 0xffff;
        bool dn = down <= up;
        uint32_t amt = dn ? down : up;
        size_t dist = std::min<size_t>(amt, n - 1);
        size_t i = r.next() % (n - dist), j = i + dist;
        uint8_t &from = dn ? p[i] : p[j], &to = dn ? p[j] : p[i];
        uint32_t units = (uint32_t)std::min<size_t>(amt / dist, std::min<int>(from, 255 - to));
        if (!units) continue;
        from -= units; to += units;
    }
    return false;
}
bool weak_twin(Src &s, uint32_t magic, uint8_t *p, size_t n) {
    if (magic_is_rk(magic)) {
        if (n < 6) return false;
        uint32_t t = ref_rk(p, n);
        Bytes o(p, p + n);
        p[s.draw(0, n - 6)] ^= (uint8_t)s.draw(1, 255);
        if (!weak_target(magic, p, n, t, s.draw(0, 0xffff))) { memcpy(p, o.data(), n); return false; }
        return memcmp(p, o.data(), n) != 0;
    }
    if (n < 3) return false;
    for (int k = 0; k < 20; k++) {
        size_t d = s.draw(1, (n - 1) / 2), i = s.draw(0, n - 1 - 2 * d);
        uint8_t &a = p[i], &b = p[i + d], &c = p[i + 2 * d];
        if (a < 255 && c < 255 && b >= 2) { a++; c++; b -= 2; return true; }
        if (a > 0 && c > 0 && b < 254) { a--; c--; b += 2; return true; }
    }
    return false;
}

void gen_pair(Src &s, size_t bl, uint32_t magic, size_t max_basis, size_t max_new, Bytes &basis, Bytes &nw, Ctx *c) {
    size_t bn;
    switch (s.weighted({1, 5, 4, 2})) {
    case 0: bn = 0; break;
    case 1: bn = s.size(0, max_basis); break;
    case 2: bn = std::min<size_t>(max_basis, (size_t)s.draw(0, 20) * bl + s.draw(0, 2)); break;
    default: bn = s.draw(0, max_basis); break;
    }
    basis = gen_content(s, bn, bl);
    size_t nb = bl ? (bn + bl - 1) / bl : 0;
    if (nb >= 2 && bl >= 6 && s.chance(1, 4)) { // plant weak-sum twins inside the basis
        size_t k = s.draw(1, 3);
        while (k--) {
            size_t i = s.draw(0, nb - 2), j = s.draw(0, nb - 2);
            if (i == j) continue;
            memcpy(&basis[j * bl], &basis[i * bl], bl);
            if (weak_twin(s, magic, &basis[j * bl], bl) && c) c->label("twin-in-basis");
        }
    }
    nw.clear();
    unsigned kind = s.weighted({10, 2, 1, 2, 1});
    if (kind == 1) { nw = basis; if (nw.size() > max_new) nw.resize(max_new); return; }
    if (kind == 2) return;
    if (kind == 3) { size_t n = s.size(0, max_new); nw = gen_content(s, n, bl); return; }
    if (kind == 4) { size_t n = s.size(0, max_new); nw.resize(n); fill_random(nw.data(), n, s.draw(0, 0xffff)); return; }
    unsigned edits = (unsigned)s.draw(1, 14);
    size_t cursor = 0;
    for (unsigned e = 0; e < edits && nw.size() < max_new; e++) {
        size_t room = max_new - nw.size();
        switch (s.weighted({6, 4, 4, 2, 2, 2, 1})) {
        case 0: {                // continue copying from the cursor
            if (cursor >= bn) cursor = 0;
            size_t n = std::min(room, bn - cursor);
            if (n && !s.chance(1, 3)) n = s.size(1, n);
            nw.insert(nw.end(), basis.begin() + cursor, basis.begin() + cursor + n);
            cursor += n;
            break;
        }
        case 1: {                // insert fresh data
            size_t n = std::min<size_t>(room, s.flip() ? s.size(0, 200) : s.size(0, room));
            size_t o = nw.size();
            nw.resize(o + n);
            fill_random(nw.data() + o, n, s.draw(0, 0xffff), s.chance(1, 4) ? 2 : 256);
            break;
        }
        case 2: {                // whole blocks from anywhere
            if (!nb) break;
            size_t b = s.draw(0, nb - 1), k = s.draw(1, 4);
            size_t n = std::min(room, std::min(k * bl, bn - b * bl));
            nw.insert(nw.end(), basis.begin() + b * bl, basis.begin() + b * bl + n);
            break;
        }
        case 3: cursor += s.size(0, bn ? bn : 1); break; // delete
        case 4: {                // arbitrary range
            if (!bn) break;
            size_t o = s.draw(0, bn - 1), n = std::min(room, (size_t)s.size(1, bn - o));
            nw.insert(nw.end(), basis.begin() + o, basis.begin() + o + n);
            break;
        }
        case 5: {                // a weak twin of a basis block
            if (nb < 2 || room < bl || bl < 3) break;
            size_t b = s.draw(0, nb - 2), o = nw.size();
            nw.insert(nw.end(), basis.begin() + b * bl, basis.begin() + (b + 1) * bl);
            if (weak_twin(s, magic, &nw[o], bl) && c) c->label("twin-in-new");
            break;
        }
        default: {               // overwrite a few bytes already there
            if (nw.empty()) break;
            for (int k = (int)s.draw(1, 3); k--;) nw[s.draw(0, nw.size() - 1)] ^= (uint8_t)s.draw(1, 255);
        }
        }
    }
    if (nw.size() > max_new) nw.resize(max_new);
}
