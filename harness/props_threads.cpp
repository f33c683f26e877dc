// C21: threads with their own jobs, signatures, digests and streams. Every case
// runs in a forked process that has not used the library before, so that work
// done once per process (lazily built tables) also happens concurrently.
#include "lib.h"
#include "delta_gen.h"
#include "spec.h"
#include "task.h"
#include <atomic>
#include <cstring>
#include <algorithm>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/wait.h>

static thread_local std::string *t_log;
void thread_trace(rs_loglevel l, char const *m) { OutScope o; if (t_log && t_log->size() < 200000) *t_log += strf("%d:%s\n", (int)l, m ? m : "(null)"); }

namespace {
struct Th { std::vector<Task> *tasks; std::vector<std::string> obs; std::string err; unsigned reps; std::atomic<int> *gate; int n; };
}
static std::string stat_text(const rs_stats_t &t) {
    return strf("[%s lit %lld/%lld/%lld copy %lld/%lld/%lld sig %lld/%lld bl %zu false %d in %lld out %lld]", t.op ? t.op : "-", (long long)t.lit_cmds, (long long)t.lit_bytes, (long long)t.lit_cmdbytes,
                (long long)t.copy_cmds, (long long)t.copy_bytes, (long long)t.copy_cmdbytes, (long long)t.sig_cmds, (long long)t.sig_blocks, t.block_len, t.false_matches, (long long)t.in_bytes, (long long)t.out_bytes);
}
static void put(std::string &o, const char *what, const RunResult &r) {
    o += strf("%s=%s(%zu):", what, res_name(r.res), r.out.size());
    o.append((const char *)r.out.data(), r.out.size());
    o += stat_text(r.stats) + "\n";
}
// messages name file descriptors and the like, which differ between runs
static std::string plain(const std::string &t) {
    std::string o;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '0' && i + 1 < t.size() && t[i + 1] == 'x') { i += 2; while (i < t.size() && isxdigit((unsigned char)t[i])) i++; o += '#'; }
        else if (isdigit((unsigned char)t[i])) { while (i < t.size() && isdigit((unsigned char)t[i])) i++; o += '#'; }
        else o += t[i++];
    }
    return o;
}
std::string run_task(const Task &t) {
    std::string o, log;
    t_log = &log;
    switch (t.kind) {
    case 0: put(o, "signature", op_sig(t.a, t.sp, t.f)); break;
    case 1: case 2: case 3: {
        SigHolder h;
        if (t.has_sig) {
            RunResult r = op_load(t.sig, &h.s, t.kind == 1 ? t.f : Iface());
            put(o, "load", r);
            if (r.res != RS_DONE || !h.s) break;
            rs_result q = rs_build_hash_table(h.s);
            o += strf("index %s\n", res_name(q));
            if (t.kind == 1) { std::string d; t_log = &d; rs_sumset_dump(h.s); t_log = &log; o += d; }
        }
        put(o, "delta", op_delta(h.s, t.a, t.kind == 1 ? Iface() : t.f));
        break;
    }
    case 4: { Basis b; b.data = &t.b; b.seed = t.seed; b.partial = t.seed % 7; b.own = t.seed / 7 % 7; put(o, "patch", op_patch(b, t.a, t.f)); break; }
    case 5: {
        RunResult s = op_sig(t.b, t.sp, t.f); put(o, "signature", s);
        SigHolder h; RunResult l = op_load(s.out, &h.s, t.f); put(o, "load", l);
        if (l.res != RS_DONE) break;
        rs_build_hash_table(h.s);
        RunResult d = op_delta(h.s, t.a, t.f); put(o, "delta", d);
        Basis b; b.data = &t.b; RunResult p = op_patch(b, d.out, t.f); put(o, "patch", p);
        CHECK(p.res == RS_DONE && p.out == t.a, "round trip does not reproduce the new file: %s", t.desc.c_str());
        rs_log_stats(&d.stats);
        break;
    }
    case 6: {
        rs_strong_sum_t d;
        alignas(64) unsigned char mb[2048]; rs_mdfour_t *m = (rs_mdfour_t *)mb; rs_mdfour_begin(m); Rng r(t.seed);
        for (size_t p = 0; p < t.a.size();) { size_t k = std::min<size_t>(t.a.size() - p, r.next() % 150); rs_mdfour_update(m, t.a.data() + p, k); p += k; }
        rs_mdfour_result(m, (unsigned char *)&d);
        o += hexs((uint8_t *)&d, 16);
        rs_mdfour((unsigned char *)&d, t.a.data(), t.a.size());
        o += hexs((uint8_t *)&d, 16);
        break;
    }
    case 7: {
        size_t n = std::min<size_t>(t.a.size(), 300);
        std::vector<char> x(2 * n + 8), y(2 * n + 8);
        rs_hexify(x.data(), t.a.data(), (int)n); o += x.data();
        rs_base64(t.a.data(), (int)n, y.data()); o += y.data();
        size_t k = rs_unbase64(y.data()); o += strf(" %zu ", k); o.append(y.data(), k);
        for (int e : {0, 1, 2, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, (int)(t.seed % 200)}) { const char *m = rs_strerror((rs_result)e); o += m ? m : "(null)"; }
        rs_stats_t st; memset(&st, 0, sizeof st); st.op = "delta"; st.lit_cmds = (int)(t.seed % 1000); st.lit_bytes = t.seed; st.copy_cmds = 3; st.copy_bytes = t.seed * 3; st.in_bytes = t.seed; st.out_bytes = 77;
        st.start = 100; st.end = 105; st.block_len = 64;
        char buf[300]; rs_format_stats(&st, buf, sizeof buf); o += buf;
        rs_log_stats(&st);
        break;
    }
    default: {
        Rng r(t.seed);
        for (int i = 0; i < 20; i++) {
            rs_magic_number m = (rs_magic_number)(r.next() % 3 ? t.sp.magic : 0); size_t bl = r.next() % 2 ? 0 : r.next() % 100000, sl = r.next() % 2 ? 0 : r.next() % 40;
            int64_t sz = (int64_t)(r.next() >> (r.next() % 64)) - 1; if (sz < -1) sz = -1;
            rs_result q = rs_sig_args(sz, &m, &bl, &sl); o += strf("%s %x %zu %zu;", res_name(q), (unsigned)m, bl, sl);
        }
    }
    }
    t_log = nullptr;
    return o + "\nlog:\n" + plain(log);
}
static void *th_main(void *p) {
    Th *t = (Th *)p;
    t->gate->fetch_add(1);
    while (t->gate->load() < t->n) sched_yield();
    try { for (unsigned k = 0; k < t->reps; k++) for (auto &x : *t->tasks) t->obs.push_back(run_task(x)); }
    catch (Failure &f) { t->err = f.msg; }
    catch (Discard &) { t->err = "harness: discard in thread"; }
    t_log = nullptr;
    return nullptr;
}
Task gen_task(Src &s, int kind, size_t maxn, size_t maxbl, size_t maxblocks) {
    Task t; t.kind = kind; t.seed = s.draw(0, 0xffffff);
    t.sp.magic = gen_magic(s); t.sp.block_len = gen_block_len(s, maxbl); t.sp.strong_len = gen_strong_len(s, t.sp.magic, 8);
    if (kind == 0) t.a = gen_content(s, s.size(0, maxn), t.sp.block_len);
    else if (kind <= 3 || kind == 5) {
        gen_pair(s, t.sp.block_len, t.sp.magic, maxn, maxn, t.b, t.a);
        if (t.b.size() / t.sp.block_len > maxblocks) t.b.resize(maxblocks * t.sp.block_len);
        if (kind != 5 && kind != 3) { t.sig = ref_sig(t.b, t.sp.magic, t.sp.block_len, t.sp.strong_len).encode(); t.has_sig = true; }
        if (kind == 1 && s.chance(1, 4)) { mutate(s, t.sig, 3); if (t.sig.size() >= 8 && get_be(&t.sig[4], 4) > 100000) t.sig[4] = t.sig[5] = 0; }
    } else if (kind == 4) {
        DeltaProg g = gen_delta(s, 20, std::max<size_t>(100, maxn / 8), maxn, false); t.b = g.basis; t.a = g.delta;
        if (s.chance(1, 4)) mutate(s, t.a, 3);
    } else t.a = gen_content(s, s.size(0, maxn), 64);
    t.f = gen_iface(s, t.a.size(), t.a.size()); t.f.nostats = false;
    if (t.f.kind == 2 && t.kind == 4 && s.flip()) t.f.kind = 0;
    t.desc = strf("kind %d bl %zu in %zu basis %zu %s", kind, t.sp.block_len, t.a.size(), t.b.size(), t.f.str().c_str());
    return t;
}
extern bool g_fixed_buflen;
static void c21_body(std::vector<std::vector<Task>> &work, unsigned reps, int level) {
    g_fixed_buflen = true;
    rs_trace_to(thread_trace); rs_trace_set_level((rs_loglevel)level);
    std::atomic<int> gate{0};
    size_t n = work.size();
    std::vector<Th> th(n); std::vector<pthread_t> id(n);
    for (size_t i = 0; i < n; i++) { th[i].tasks = &work[i]; th[i].reps = reps; th[i].gate = &gate; th[i].n = (int)n; }
    for (size_t i = 0; i < n; i++) if (pthread_create(&id[i], nullptr, th_main, &th[i])) { gate = 1000; for (size_t k = 0; k < i; k++) pthread_join(id[k], nullptr); fail("harness: pthread_create"); }
    for (size_t i = 0; i < n; i++) pthread_join(id[i], nullptr);
    for (size_t i = 0; i < n; i++) if (!th[i].err.empty()) fail("thread %zu of %zu: %s", i, n, th[i].err.c_str());
    for (size_t i = 0; i < n; i++) {
        std::vector<std::string> solo;
        for (auto &x : work[i]) solo.push_back(run_task(x));
        for (size_t k = 0; k < th[i].obs.size(); k++) {
            const std::string &got = th[i].obs[k], &want = solo[k % solo.size()];
            if (got == want) continue;
            size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
            fail("thread %zu of %zu, task %s: result differs at %zu from the one obtained alone: ...%s vs ...%s", i, n, work[i][k % solo.size()].desc.c_str(), d,
                 hexs((const uint8_t *)got.data() + d, std::min<size_t>(24, got.size() - d)).c_str(), hexs((const uint8_t *)want.data() + d, std::min<size_t>(24, want.size() - d)).c_str());
        }
    }
}
static void c21(Ctx &c, size_t maxn, size_t maxbl, unsigned maxrep) {
    Src &s = c.s;
    unsigned n = (unsigned)s.draw(2, 5);
    int same = s.chance(1, 3) ? (int)s.draw(0, 8) : -1;
    std::vector<std::vector<Task>> work(n);
    std::string ds; unsigned kinds = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned k = (unsigned)s.draw(1, 3);
        for (unsigned j = 0; j < k; j++) {
            int kind = same >= 0 ? same : (int)s.weighted({3, 3, 4, 2, 3, 3, 3, 2, 1});
            work[i].push_back(gen_task(s, kind, maxn, maxbl)); kinds |= 1u << kind;
            if (ds.size() < 300) ds += strf("%s{%s}", j ? "," : (i ? " | " : ""), work[i].back().desc.c_str());
        }
    }
    unsigned reps = (unsigned)s.draw(1, maxrep);
    int level = s.flip() ? 7 : (int)s.draw(0, 7);
    int pp[2]; if (pipe(pp)) fail("harness: pipe");
    pid_t pid = fork();
    if (pid < 0) fail("harness: fork");
    if (pid == 0) {
        close(pp[0]);
        int rc = 0;
        try { c21_body(work, reps, level); }
        catch (Failure &f) { rc = 10; size_t k = std::min<size_t>(f.msg.size(), 3000); if (write(pp[1], f.msg.data(), k) < 0) rc = 11; }
        _exit(rc);
    }
    close(pp[1]);
    std::string msg; char t[4096]; ssize_t k; while ((k = read(pp[0], t, sizeof t)) > 0) msg.append(t, k);
    close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (!msg.empty()) fail("%s", msg.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) fail("data race reported by ThreadSanitizer: %u threads, tasks %s", n, ds.c_str());
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash with %u threads (status %#x), tasks %s", n, st, ds.c_str());
    for (int i = 0; i < 9; i++) if (kinds >> i & 1) { static const char *N[] = {"sig", "load", "delta", "slack", "patch", "chain", "digest", "text", "args"}; c.label(N[i]); }
    c.nontrivial = true;
    c.describe("%u threads x%u: %s", n, reps, ds.c_str());
}
PROPERTY(C21, small) { c21(c, 1500, 200, 3); }
PROPERTY(C21, large) { c21(c, 60000, 3000, 6); }
