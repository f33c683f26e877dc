// C27: allocations that fail. C28: results depend on the arguments only.
// Linked with --wrap=malloc,calloc,realloc: requests made while the library is
// running can be refused (C27), and what they return can be pre-filled (C28).
#include "lib.h"
#include "spec.h"
#include "task.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <clocale>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
typedef unsigned long long ull;

// ------------------------------------------------------------------ allocator
namespace {
int64_t a_fail_at = -1; bool a_fail_rest; size_t a_fail_size = SIZE_MAX;   // which requests are refused
int64_t a_count; uint64_t a_refused;
int a_fill = -1;                     // byte pattern for fresh memory
bool a_move;                         // realloc always moves
std::vector<size_t> *a_sizes;        // sizes requested, when wanted
bool refuse(size_t n) {
    int64_t k = a_count++;
    if (a_sizes && a_sizes->size() < 4096) { int64_t c = a_count; OutScope o; a_sizes->push_back(n); a_count = c; }
    bool r = (a_fail_at >= 0 && (k == a_fail_at || (a_fail_rest && k > a_fail_at))) || n >= a_fail_size;
    if (r) { a_refused++; errno = ENOMEM; }
    return r;
}
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) {
    if (!lib_in()) return __real_malloc(n);
    if (refuse(n)) return nullptr;
    void *p = __real_malloc(n);
    if (p && a_fill >= 0) memset(p, a_fill, malloc_usable_size(p));
    return p;
}
void *__wrap_calloc(size_t m, size_t n) {
    size_t t;
    if (!lib_in()) return __real_calloc(m, n);
    if (refuse(__builtin_mul_overflow(m, n, &t) ? SIZE_MAX : t)) return nullptr;
    return __real_calloc(m, n);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!lib_in()) return __real_realloc(p, n);
    if (refuse(n)) return nullptr;
    if (a_fill < 0 || !p) { void *q = __real_realloc(p, n); if (q && !p && a_fill >= 0) memset(q, a_fill, malloc_usable_size(q)); return q; }
    void *q = __real_malloc(n);
    if (!q) return q;
    memset(q, a_fill, malloc_usable_size(q));
    memcpy(q, p, std::min(n, malloc_usable_size(p)));
    free(p);
    return q;
}
}

// ------------------------------------------------------------------ C27
namespace {
struct Shared { volatile int crit; volatile int hit; char crit_msg[200]; };
Shared *sh;
void crit_trace(rs_loglevel l, char const *m) {
    OutScope o;
    if ((l & 7) <= RS_LOG_CRIT) { sh->crit++; snprintf(sh->crit_msg, sizeof sh->crit_msg, "%s", m ? m : ""); }
}
struct Mem { Outcome o; std::string index; bool retried = false; };
void watch() { rs_trace_to(crit_trace); rs_trace_set_level(RS_LOG_CRIT); }
// As run_spec, but indexing the signature is part of the operation and may fail.
Mem run27(const JobSpec &j, const Iface &f, const Bytes &probe) {
    Mem m; RunResult r;
    if (j.kind != 1 && j.kind != 2) { m.o = run_spec(j, f, probe); return m; }
    SigHolder h; const Bytes &sig = j.kind == 1 ? j.in : j.basis;
    r = op_load(sig, &h.s, f);
    m.o.res = r.res;
    if (r.res != RS_DONE) return m;
    CHECK(h.s, "load reported success without a signature");
    std::string before = dump_text(h.s);
    size_t live = lib_live_blocks(), liveb = lib_live_bytes(); rs_result q; uint64_t ref0 = a_refused;
    watch();
    { LibScope l; q = rs_build_hash_table(h.s); }
    m.index = res_name(q);
    if (q != RS_DONE) {
        CHECK(a_refused != ref0, "rs_build_hash_table failed with %s although no allocation failed", res_name(q));
        CHECK(q == RS_MEM_ERROR, "rs_build_hash_table returned %s when memory ran out, expected MEM_ERROR", res_name(q));
        if (lib_heap_available()) CHECK(lib_live_blocks() == live && lib_live_bytes() == liveb, "rs_build_hash_table ran out of memory and left %zd blocks (%zd bytes) allocated", (ssize_t)(lib_live_blocks() - live), (ssize_t)(lib_live_bytes() - liveb));
        // memory is available again: the signature must still be usable
        a_fail_at = -1; a_fail_size = SIZE_MAX; a_fail_rest = false; m.retried = true;
        CHECK(dump_text(h.s) == before, "a failed rs_build_hash_table changed the signature");
        watch();
        { LibScope l; q = rs_build_hash_table(h.s); }
        CHECK(q == RS_DONE, "rs_build_hash_table after an earlier lack of memory: %s", res_name(q));
    }
    m.o.extra = before;
    watch();
    RunResult d = op_delta(h.s, j.kind == 1 ? probe : j.in, j.kind == 1 ? Iface() : f);
    m.o.res = d.res; m.o.out = std::move(d.out);
    return m;
}
void c27(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s; JobSpec j; Bytes probe; SigHolder sg;
    gen_spec(s, j, sg, probe, maxn, maxbl);
    if (j.kind == 2) {               // the load and the indexing belong to the case
        size_t bl = j.bl, sl = j.sl; Bytes basis = gen_content(s, s.size(1, maxn), bl);
        size_t n = std::min(basis.size(), j.in.size()); if (s.flip()) memcpy(basis.data(), j.in.data(), n);
        if (basis.size() / bl > 3000) basis.resize(bl * 3000);
        j.basis = ref_sig(basis, j.magic, bl, sl).encode();
    }
    Iface f = gen_iface(s, j.in.size(), j.in.size());
    if (j.kind == 3 && f.kind == 2) f.kind = 0;
    if (!sh) { sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { sh = nullptr; fail("harness: mmap"); } }
    // the undisturbed run, and what it allocates
    std::vector<size_t> sizes; a_fail_at = -1; a_fail_size = SIZE_MAX; a_fail_rest = false; a_fill = -1; a_count = 0; a_sizes = &sizes;
    sh->crit = 0; watch();
    Mem ref;
    try { ref = run27(j, f, probe); } catch (Failure &) { a_sizes = nullptr; lib_reset_trace(); throw; }
    a_sizes = nullptr; lib_reset_trace();
    int64_t n = a_count;
    CHECK(!sh->crit, "%s: a critical message without a failing allocation: %s", j.desc.c_str(), sh->crit_msg);
    if (!n) throw Discard();
    unsigned mode = (unsigned)s.weighted({5, 2, 2}); int64_t at = (int64_t)s.draw(0, (uint64_t)n - 1); size_t lim = SIZE_MAX; std::string how;
    if (mode == 2) { lim = sizes[(size_t)at % sizes.size()]; how = strf("requests of %zu bytes and more fail", lim); }
    else how = strf("allocation %lld of %lld fails%s", (long long)at, (long long)n, mode ? " and all later ones" : "");
    sh->crit = 0; sh->hit = 0; sh->crit_msg[0] = 0;
    int pp[2]; if (pipe(pp)) fail("harness: pipe");
    pid_t pid = fork();
    if (pid < 0) fail("harness: fork");
    if (!pid) {
        close(pp[0]);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        std::string msg; int rc = 0;
        size_t live0 = lib_live_blocks();
        watch();
        a_count = 0; a_refused = 0;
        if (mode == 2) a_fail_size = lim; else { a_fail_at = at; a_fail_rest = mode == 1; }
        try {
            Mem m = run27(j, f, probe);
            sh->hit = (int)a_refused;
            a_fail_at = -1; a_fail_size = SIZE_MAX; a_fail_rest = false;
            if (m.o.res == RS_DONE) {
                if (m.o.res != ref.o.res || m.o.out != ref.o.out || m.o.extra != ref.o.extra) fail("success with a result that differs from the undisturbed one (%s, %zu bytes instead of %s, %zu bytes)", res_name(m.o.res), m.o.out.size(), res_name(ref.o.res), ref.o.out.size());
            } else {
                if (!a_refused && m.o.res != ref.o.res) fail("no allocation failed, but the result is %s instead of %s", res_name(m.o.res), res_name(ref.o.res));
                if (m.o.res == RS_BLOCKED || m.o.res == RS_RUNNING) fail("ended with %s", res_name(m.o.res));
                if (m.o.out.size() > ref.o.out.size() || (m.o.out.size() && memcmp(m.o.out.data(), ref.o.out.data(), m.o.out.size()))) fail("the failed operation's output is not a prefix of the correct one");
            }
            if (lib_heap_available() && lib_live_blocks() != live0) fail("%zd blocks of memory are still allocated after everything was freed", (ssize_t)(lib_live_blocks() - live0));
        } catch (Failure &e) { msg = e.msg; rc = 10; } catch (Discard &) { rc = 0; }
        if (rc && write(pp[1], msg.data(), std::min<size_t>(msg.size(), 3000)) < 0) rc = 11;
        _exit(rc);
    }
    close(pp[1]);
    std::string msg; char t[4096]; ssize_t k; while ((k = read(pp[0], t, sizeof t)) > 0) msg.append(t, k);
    close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    std::string what = strf("%s, %s; %s", j.desc.c_str(), f.str().c_str(), how.c_str());
    if (!msg.empty()) { if (msg.rfind("harness:", 0) == 0) fail("%s", msg.c_str()); fail("%s: %s", what.c_str(), msg.c_str()); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && sh->crit) c.label("stopped");
    else {
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: the process crashed (status %#x)%s", what.c_str(), st, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? " without a critical message" : "");
        c.label(sh->hit ? "survived" : "not-reached");
    }
    c.nontrivial = true;
    c.label(KINDS[j.kind]);
    c.describe("%s -> %s", what.c_str(), WIFSIGNALED(st) ? sh->crit_msg : sh->hit ? "error" : "not reached");
}
}
PROPERTY(C27, small) { c27(c, 3000, 300); }
PROPERTY(C27, large) { c27(c, 200000, 20000); }

// ------------------------------------------------------------------ C28
namespace {
int st_fill; Rng st_rng(1);
__attribute__((noinline, no_sanitize("address"))) void scribble() {
    volatile uint8_t b[24 << 10];
    if (st_fill >= 0) { for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = 0x0101010101010101ull * (uint8_t)st_fill; }
    else for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = st_rng.next();
    static const int E[] = {0, EIO, EAGAIN, EINTR, ENOSPC, ERANGE, EINVAL, ENOMEM}; errno = st_fill == 0 ? 0 : E[st_rng.next() & 7];
}
struct World { int heap, stack; uint64_t junk; int locale, level; std::string str() const { return strf("heap %d stack %d junk %llu locale %d", heap, stack, (ull)junk, locale); } };
std::string in_world(const Task &t, const World &w) {
    std::vector<void *> junk; Rng r(w.junk);
    if (w.junk) for (int i = 0; i < 40; i++) junk.push_back(__real_malloc(1 + r.next() % (r.next() % 8 ? 300 : 70000)));
    for (size_t i = 0; i < junk.size(); i += 2) { free(junk[i]); junk[i] = nullptr; }
    if (w.locale) { static const char *L[] = {"C", "C.UTF-8", "POSIX", "C.utf8"}; setlocale(LC_ALL, L[w.locale & 3]); setenv("TZ", w.locale & 1 ? "UTC-11" : "America/New_York", 1); setenv("LANG", "de_DE.UTF-8", 1); }
    a_fill = w.heap; st_fill = w.stack; st_rng = Rng(w.junk + 5); g_scope_hook = scribble;
    rs_trace_to(thread_trace); rs_trace_set_level((rs_loglevel)w.level);
    std::string o;
    auto restore = [&] { a_fill = -1; g_scope_hook = nullptr; lib_reset_trace(); setlocale(LC_ALL, "C"); unsetenv("TZ"); unsetenv("LANG"); for (void *p : junk) free(p); };
    try { o = run_task(t); } catch (...) { restore(); throw; }
    restore();
    return o;
}
void c28(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    int kind = (int)s.weighted({3, 3, 4, 2, 3, 3, 2, 2, 1});
    Task t = gen_task(s, kind, maxn, maxbl, maxn > 100000 ? 200000 : 3000);
    static const int P[] = {0, 255, 1, 127, 128, 0x41, 0x5a, 0xa5};
    int level = s.flip() ? 7 : (int)s.draw(0, 7);
    World ref{0, 0, 0, 0, level}; std::string a = in_world(t, ref);
    unsigned k = (unsigned)s.draw(1, 3);
    for (unsigned i = 0; i < k; i++) {
        World w{P[s.draw(0, 7)], s.chance(1, 3) ? -1 : P[s.draw(0, 7)], s.draw(0, 1000), (int)s.draw(0, 7), level};
        std::string b = in_world(t, w); c.cases++;
        if (a == b) continue;
        size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
        fail("%s: the same call gives another result with different earlier memory contents (%s): at %zu ...%s vs ...%s", t.desc.c_str(), w.str().c_str(), d,
             hexs((const uint8_t *)a.data() + d, std::min<size_t>(24, a.size() - d)).c_str(), hexs((const uint8_t *)b.data() + d, std::min<size_t>(24, b.size() - d)).c_str());
    }
    c.nontrivial = !t.a.empty() || kind >= 7;
    static const char *N[] = {"sig", "load", "delta", "slack", "patch", "chain", "digest", "text", "args"}; c.label(N[kind]);
    c.describe("%s, %u other worlds, %zu bytes of results", t.desc.c_str(), k, a.size());
}
}
PROPERTY(C28, small) { c28(c, 3000, 300); }
PROPERTY(C28, large) { c28(c, 150000, c.s.chance(1, 10) ? 4 : 5000); }
