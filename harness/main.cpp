// Command-line front end of the property engine.
#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include "lib.h"

extern void heap_hooks_install();

struct Shared {
    volatile uint64_t index;
    volatile uint64_t n;          // draws of the current case
    volatile int fuel_out;
    char msg[4096];
    uint64_t rec[1 << 20];
};
static Shared *sh;

// Src mirrors every draw into the shared record as it happens.
extern uint64_t *g_mirror;
extern volatile uint64_t *g_mirror_n;
static Src *cur_src;
static void flush_rec() {}
extern "C" void vh_fuel_out() {
    flush_rec();
    if (sh) { sh->fuel_out = 1; snprintf(sh->msg, sizeof sh->msg, "hang: library code ran past the work bound for one case"); }
    _exit(77);
}
static void on_sig(int sig) {
    flush_rec();
    if (sh && !sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "crash: signal %d (%s)", sig, strsignal(sig));
    signal(sig, SIG_DFL);
    raise(sig);
}
static void on_prof(int) {
    flush_rec();
    if (sh) snprintf(sh->msg, sizeof sh->msg, "suspect-hang: case exceeded its CPU allowance");
    _exit(78);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() {
    flush_rec();
    if (sh && !sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "crash: sanitizer report (see log)");
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Prop *find_prop(const std::string &id, const std::string &sub) {
    for (auto &p : props()) if (id == p.id && sub == p.sub) return &p;
    fprintf(stderr, "no such property %s/%s\n", id.c_str(), sub.c_str());
    exit(2);
}

struct CaseFile {
    std::string prop, sub, variant, msg;
    int thorough = 0;
    std::vector<uint64_t> choices;
    // a "run" replay re-executes a range of generated cases (for failures that
    // need the history of earlier cases in the same process)
    bool is_run = false; uint64_t seed = 0, shard = 0, shards = 1, start = 0, count = 0;
};
static bool read_case(const char *path, CaseFile &c) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n && (line[n - 1] == '\n')) line[--n] = 0;
        if (!strncmp(line, "prop ", 5)) c.prop = line + 5;
        else if (!strncmp(line, "sub ", 4)) c.sub = line + 4;
        else if (!strncmp(line, "variant ", 8)) c.variant = line + 8;
        else if (!strncmp(line, "thorough ", 9)) c.thorough = atoi(line + 9);
        else if (!strncmp(line, "msg ", 4)) c.msg = line + 4;
        else if (!strncmp(line, "run ", 4)) {
            unsigned long long v[5] = {};
            sscanf(line + 4, "%llu %llu %llu %llu %llu", &v[0], &v[1], &v[2], &v[3], &v[4]);
            c.is_run = true; c.seed = v[0]; c.shard = v[1]; c.shards = v[2]; c.start = v[3]; c.count = v[4];
        }
        else if (!strncmp(line, "dict", 4)) {   // the biasing dictionary the choices were drawn with
            g_dict.clear(); g_dict_new.clear();
            char *p = line + 4, *e;
            for (;;) {
                while (*p == ' ') p++;
                char k = *p; if (k != 'b' && k != 'n') break;
                uint64_t v = strtoull(p + 1, &e, 10); if (e == p + 1) break;
                g_dict.push_back(v); if (k == 'n') g_dict_new.push_back(v);
                p = e;
            }
        }
        else if (!strncmp(line, "choices", 7)) {
            char *p = line + 7, *e;
            for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; c.choices.push_back(v); p = e; }
        }
    }
    free(line);
    fclose(f);
    return true;
}
static void write_case(const char *path, const CaseFile &c) {
    FILE *f = fopen(path, "w");
    if (!f) return;
    std::string m = printable(c.msg.c_str());
    for (auto &ch : m) if (ch == '\n') ch = ' ';
    fprintf(f, "vcase 1\nprop %s\nsub %s\nvariant %s\nthorough %d\nmsg %s\n", c.prop.c_str(), c.sub.c_str(), c.variant.c_str(), c.thorough, m.c_str());
    if (c.is_run) fprintf(f, "run %llu %llu %llu %llu %llu\n", (unsigned long long)c.seed, (unsigned long long)c.shard, (unsigned long long)c.shards, (unsigned long long)c.start, (unsigned long long)c.count);
    fprintf(f, "dict");
    size_t ni = 0;
    for (auto v : g_dict) {
        bool n = ni < g_dict_new.size() && g_dict_new[ni] == v;
        if (n) ni++;
        fprintf(f, " %c%llu", n ? 'n' : 'b', (unsigned long long)v);
    }
    fprintf(f, "\nchoices");
    for (auto v : c.choices) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n");
    fclose(f);
}

static void setup_child() {
    signal(SIGPROF, on_prof);
    if (!__sanitizer_set_death_callback) {
        static char stk[1 << 16];
        stack_t ss = {}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
        struct sigaction sa = {}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
        for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
    } else {
        __sanitizer_set_death_callback(on_death);
        struct sigaction sa = {}; sa.sa_handler = on_sig; sa.sa_flags = SA_RESETHAND;
        sigaction(SIGABRT, &sa, nullptr);
    }
    heap_hooks_install();
}
static void arm(unsigned cpu) {
    struct itimerval it = {};
    it.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &it, nullptr);
}

static uint64_t case_seed(uint64_t seed, const char *id, const char *sub, uint64_t i) {
    uint64_t h = seed * 1000003 + 17;
    for (const char *p = id; *p; p++) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
    for (const char *p = sub; *p; p++) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
    Rng r(h ^ (i * 0x9E3779B97F4A7C15ull));
    return r.next();
}

static uint64_t hash_rec(const std::vector<uint64_t> &r) {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t v : r) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x100000001b3ull; }
    return h;
}

unsigned g_case_cpu = 240;
uint64_t g_case_fuel = 4000000000ull;

// returns 0 ok, 1 failed (msg set), 2 discarded
static int run_one(Prop *p, Src &src, std::string &msg, Ctx **out = nullptr) {
    static Ctx *ctx = nullptr;
    delete ctx;
    ctx = new Ctx(src, g_thorough);
    cur_src = &src;
    if (sh) { sh->n = 0; sh->msg[0] = 0; sh->fuel_out = 0; }
    lib_reset_globals();
    fuel_set(g_case_fuel);
    int rc = 0;
    try { p->fn(*ctx); }
    catch (Failure &f) { msg = f.msg; rc = 1; }
    catch (Discard &) { rc = 2; }
    fuel_set(UINT64_MAX);
    if (out) *out = ctx;
    return rc;
}

// Run one choice list in a forked child; returns true when it fails.
static bool child_fails(Prop *p, const std::vector<uint64_t> &ch, std::string &msg, std::vector<uint64_t> *norm, bool verbose) {
    sh->msg[0] = 0; sh->n = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
        setup_child();
        arm(g_case_cpu);
        Src s(ch);
        std::string m;
        Ctx *cx = nullptr;
        int rc = run_one(p, s, m, &cx);
        flush_rec();
        if (verbose && cx) fprintf(stderr, "case: %s\n", cx->desc.c_str());
        if (rc == 1) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); _exit(10); }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) {
        msg = sh->msg[0] ? sh->msg : strf("crash: status %#x", st);
        if (norm) norm->assign(sh->rec, sh->rec + sh->n);
    }
    return bad;
}

static const char *arg(int argc, char **argv, const char *name, const char *def) {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
static bool flag(int argc, char **argv, const char *name) {
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], name)) return true;
    return false;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o;
}

#ifdef VH_FUZZ
#define MAIN_NAME vh_main
#else
#define MAIN_NAME main
#endif

static void common(int argc, char **argv) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_mirror = sh->rec; g_mirror_n = &sh->n;
    load_dict(arg(argc, argv, "--dict", "/nonexistent"));
    g_rdiff = arg(argc, argv, "--rdiff", "");
    g_thorough = flag(argc, argv, "--thorough");
    g_scratch = arg(argc, argv, "--scratch", "/tmp");
    g_case_cpu = atoi(arg(argc, argv, "--case-cpu", "240"));
    g_case_fuel = strtoull(arg(argc, argv, "--case-fuel", "4000000000"), nullptr, 10);
    signal(SIGPIPE, SIG_IGN);
}

int MAIN_NAME(int argc, char **argv) {
    if (argc < 2) return 2;
    std::string mode = argv[1];
    common(argc, argv);
    if (mode == "list") {
        for (auto &p : props()) printf("%s %s\n", p.id, p.sub);
        return 0;
    }
    if (mode == "run") {
        std::string id = arg(argc, argv, "--prop", ""), sub = arg(argc, argv, "--sub", "main");
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        uint64_t shard = strtoull(arg(argc, argv, "--shard", "0"), nullptr, 10);
        uint64_t shards = strtoull(arg(argc, argv, "--shards", "1"), nullptr, 10);
        uint64_t count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
        double wall = atof(arg(argc, argv, "--wall", "60"));
        const char *out = arg(argc, argv, "--out", "out");
        uint64_t start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
        const char *rf = arg(argc, argv, "--runfile", nullptr);
        if (rf) {
            CaseFile c;
            if (!read_case(rf, c) || !c.is_run) return 2;
            id = c.prop; sub = c.sub; seed = c.seed; shard = c.shard; shards = c.shards; start = c.start; count = c.count; g_thorough = c.thorough;
            wall = 1e9;
        }
        Prop *p = find_prop(id, sub);
        pid_t pid = fork();
        if (pid == 0) {
            setup_child();
            std::unordered_set<uint64_t> seen;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            uint64_t evals = 0, disc = 0, trivial = 0, subcases = 0;
            double t0 = now();
            bool capped = false;
            for (uint64_t i = shard; i < count; i += shards) {
                if (i < start) continue;
                if (now() - t0 > wall) { capped = true; break; }
                sh->index = i;
                arm(g_case_cpu);
                Src s(case_seed(seed, p->id, p->sub, i));
                std::string msg;
                Ctx *cx = nullptr;
                int rc = run_one(p, s, msg, &cx);
                if (rc == 1) {
                    flush_rec();
                    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
                    _exit(10);
                }
                evals++;
                if (rc == 2) { disc++; continue; }
                subcases += cx->cases;
                for (auto &l : cx->labels) labels[l]++;
                if (cx->nontrivial) {
                    bool fresh = seen.insert(hash_rec(s.rec)).second;
                    if (fresh && (samples.size() < 2 || (samples.size() < 4 && evals % 97 == 0)) && !cx->desc.empty())
                        samples.push_back(cx->desc.substr(0, 900));
                } else trivial++;
            }
            arm(0);
            std::string o = out;
            FILE *f = fopen((o + ".json").c_str(), "w");
            fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"trivial\": %llu, \"subcases\": %llu, \"nontrivial\": %zu, \"capped\": %d, \"labels\": {",
                    (unsigned long long)evals, (unsigned long long)disc, (unsigned long long)trivial, (unsigned long long)subcases, seen.size(), capped);
            bool first = true;
            for (auto &l : labels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "}, \"samples\": [");
            for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
            fprintf(f, "], \"wall\": %.2f}\n", now() - t0);
            fclose(f);
            f = fopen((o + ".hash").c_str(), "wb");
            for (uint64_t h : seen) fwrite(&h, 8, 1, f);
            fclose(f);
            fflush(stdout);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        CaseFile c;
        c.prop = id; c.sub = sub; c.variant = g_variant; c.thorough = g_thorough;
        c.msg = sh->msg[0] ? sh->msg : strf("crash: status %#x", st);
        c.choices.assign(sh->rec, sh->rec + sh->n);
        write_case((std::string(out) + ".fail").c_str(), c);
        c.is_run = true; c.seed = seed; c.shard = shard; c.shards = shards; c.start = start; c.count = sh->index + 1;
        c.choices.clear();
        write_case((std::string(out) + ".failrun").c_str(), c);
        return 1;
    }
    if (mode == "replay") {
        CaseFile c;
        if (!read_case(arg(argc, argv, "--file", ""), c)) return 2;
        g_thorough = c.thorough;
        Prop *p = find_prop(c.prop, c.sub);
        std::string msg;
        int times = atoi(arg(argc, argv, "--times", "1")), bad = 0;
        bool quiet = flag(argc, argv, "--quiet");
        for (int i = 0; i < times; i++) if (child_fails(p, c.choices, msg, nullptr, !quiet)) bad++;
        if (bad) printf("FAIL %d/%d %s\n", bad, times, msg.c_str());
        else printf("PASS %d\n", times);
        return bad == times ? 1 : bad ? 4 : 0;
    }
    if (mode == "shrink") {
        CaseFile c;
        if (!read_case(arg(argc, argv, "--file", ""), c)) return 2;
        g_thorough = c.thorough;
        const char *out = arg(argc, argv, "--out", "");
        double budget = atof(arg(argc, argv, "--budget", "30"));
        Prop *p = find_prop(c.prop, c.sub);
        std::string msg;
        std::vector<uint64_t> best = c.choices, norm;
        double t0 = now();
        if (!child_fails(p, best, msg, &norm, false)) { printf("NOREPRO\n"); return 4; }
        double each = now() - t0;
        bool hang = msg.find("hang") != std::string::npos;
        (void)each;
        best = norm; c.msg = msg;
        auto attempt = [&](const std::vector<uint64_t> &cand) {
            if (now() - t0 > budget) return false;
            std::string m; std::vector<uint64_t> nn;
            if (!child_fails(p, cand, m, &nn, false)) return false;
            if ((m.find("hang") != std::string::npos) != hang) return false;
            if (nn.size() > best.size()) return false;
            if (nn.size() == best.size() && !(nn < best)) return false;
            best = nn; c.msg = m;
            return true;
        };
        bool any = true;
        while (any && now() - t0 < budget) {
            any = false;
            for (size_t blk = best.size() / 2 + 1; blk >= 1; blk /= 2) {
                for (size_t i = 0; i + 1 <= best.size() && now() - t0 < budget;) {
                    std::vector<uint64_t> cand(best);
                    size_t e = std::min(cand.size(), i + blk);
                    cand.erase(cand.begin() + i, cand.begin() + e);
                    if (attempt(cand)) { any = true; continue; }
                    cand = best;
                    bool nz = false;
                    for (size_t k = i; k < e && k < cand.size(); k++) { nz |= cand[k] != 0; cand[k] = 0; }
                    if (nz && attempt(cand)) any = true;
                    i += blk;
                }
                if (blk == 1) break;
            }
            for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo && now() - t0 < budget) {
                    std::vector<uint64_t> cand(best);
                    uint64_t mid = lo + (best[i] - lo) / 2;
                    cand[i] = mid;
                    if (attempt(cand)) any = true; else lo = mid + 1;
                }
            }
        }
        c.choices = best;
        c.variant = g_variant;
        write_case(out, c);
        printf("SHRUNK %zu draws: %s\n", best.size(), c.msg.c_str());
        return 1;
    }
    if (mode == "corpus") {
        std::string id = arg(argc, argv, "--prop", ""), sub = arg(argc, argv, "--sub", "main"), dir = arg(argc, argv, "--dir", "");
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        uint64_t count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
        size_t maxlen = strtoull(arg(argc, argv, "--maxlen", "600"), nullptr, 10);
        Prop *p = find_prop(id, sub);
        for (uint64_t i = 0; i < count; i++) {
            fflush(stdout);
            pid_t pid = fork();
            if (!pid) {
                setup_child(); arm(g_case_cpu);
                Src s(case_seed(seed ^ 0xc0ffee, p->id, p->sub, i));
                std::string m;
                run_one(p, s, m);
                Bytes b = encode_bytes(s.rec, s.recrange);
                if (b.size() <= maxlen) {
                    FILE *f = fopen(strf("%s/s%llu", dir.c_str(), (unsigned long long)i).c_str(), "wb");
                    fwrite(b.data(), 1, b.size(), f); fclose(f);
                }
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
        }
        return 0;
    }
    if (mode == "fromfuzz") {    // fuzzer artifact -> case file
        CaseFile c;
        c.prop = arg(argc, argv, "--prop", ""); c.sub = arg(argc, argv, "--sub", "main"); c.variant = g_variant; c.thorough = g_thorough;
        FILE *f = fopen(arg(argc, argv, "--artifact", ""), "rb");
        if (!f) return 2;
        Bytes b(1 << 20); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f);
        Prop *p = find_prop(c.prop, c.sub);
        sh->n = 0; sh->msg[0] = 0;
        pid_t pid = fork();
        if (!pid) {
            setup_child(); arm(g_case_cpu);
            Src s(b.data(), b.size());
            std::string m;
            int rc = run_one(p, s, m);
            flush_rec();
            if (rc == 1) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); _exit(10); }
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (!bad) { printf("PASS\n"); return 0; }
        c.msg = sh->msg[0] ? sh->msg : strf("crash: status %#x", st);
        c.choices.assign(sh->rec, sh->rec + sh->n);
        write_case(arg(argc, argv, "--out", "out.fail"), c);
        printf("FAIL %s\n", c.msg.c_str());
        return 1;
    }
    return 2;
}

#ifdef VH_FUZZ
// libFuzzer entry: same properties, choices decoded from the fuzzer's bytes.
static Prop *fz_prop;
static std::unordered_set<uint64_t> fz_seen;
static uint64_t fz_evals, fz_disc;
static std::vector<std::string> fz_samples;
static void fz_exit() {
    const char *o = getenv("FZ_OUT");
    if (!o) return;
    FILE *f = fopen((std::string(o) + ".json").c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %zu, \"labels\": {}, \"samples\": [", (unsigned long long)fz_evals, (unsigned long long)fz_disc, fz_seen.size());
    for (size_t i = 0; i < fz_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(fz_samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((std::string(o) + ".hash").c_str(), "wb");
    if (!f) return;
    for (uint64_t h : fz_seen) fwrite(&h, 8, 1, f);
    fclose(f);
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *id = getenv("FZ_PROP"), *sub = getenv("FZ_SUB");
    load_dict(getenv("FZ_DICT") ? getenv("FZ_DICT") : "/nonexistent");
    g_rdiff = "";
    g_scratch = getenv("FZ_SCRATCH") ? getenv("FZ_SCRATCH") : "/tmp";
    fz_prop = find_prop(id ? id : "C01", sub ? sub : "main");
    heap_hooks_install();
    signal(SIGPIPE, SIG_IGN);
    g_case_fuel = UINT64_MAX;
    atexit(fz_exit);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Src s(d, n);
    std::string m;
    Ctx *cx = nullptr;
    int rc = run_one(fz_prop, s, m, &cx);
    if (rc == 1) { fprintf(stderr, "VHFAIL %s\n", m.c_str()); abort(); }
    fz_evals++;
    if (rc == 2) { fz_disc++; return -1; }
    if (cx->nontrivial && fz_seen.size() < 400000 && fz_seen.insert(hash_rec(s.rec)).second && (fz_samples.size() < 1 || (fz_samples.size() < 3 && fz_evals % 997 == 0)))
        fz_samples.push_back(cx->desc.substr(0, 900));
    return 0;
}
#endif
