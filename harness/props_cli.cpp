// C17 rdiff round trips, C18 rdiff failure reporting. The command runs in a
// private scratch directory, some cases as an unprivileged user.
#include "lib.h"
#include "delta_gen.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>

namespace {
struct Dir {
    std::string p; std::vector<std::string> files;
    Dir() { p = scratch_path("cli"); if (mkdir(p.c_str(), 0777) || chmod(p.c_str(), 0777)) fail("harness: mkdir %s", p.c_str()); }
    std::string put(const char *name, const Bytes &b) {
        std::string q = p + "/" + name;
        int fd = open(q.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) fail("harness: create %s", q.c_str());
        size_t o = 0; while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) { close(fd); fail("harness: write"); } o += k; }
        fchmod(fd, 0644); close(fd); files.push_back(name); return q;
    }
    void own(const char *name) { files.push_back(name); }
    ~Dir() {
        chmod(p.c_str(), 0777);
        for (auto &f : files) { std::string q = p + "/" + f; if (unlink(q.c_str()) && (errno == EISDIR || errno == EPERM)) rmdir(q.c_str()); }
        rmdir(p.c_str());
    }
};
struct Cli {
    std::vector<std::string> args;
    std::string cwd;
    enum { IN_NONE, IN_FILE, IN_PIPE } in = IN_NONE; std::string in_path; const Bytes *in_data = nullptr; uint64_t chop = 0;
    enum { OUT_PIPE, OUT_FILE, OUT_FULL, OUT_CLOSED, OUT_BROKEN } out = OUT_PIPE; std::string out_path;
    bool nobody = false; int64_t fsize = -1;
    std::string str() const { std::string r = "rdiff"; for (auto &a : args) r += " " + (a.empty() ? std::string("''") : a);
        if (in == IN_FILE) r += " <FILE"; if (in == IN_PIPE) r = "cat FILE | " + r;
        if (out == OUT_FILE) r += " >FILE"; if (out == OUT_FULL) r += " >/dev/full"; if (out == OUT_CLOSED) r += " >&-"; if (out == OUT_BROKEN) r += " | true";
        if (nobody) r += " (unprivileged)"; if (fsize >= 0) r += strf(" (file size limit %lld)", (long long)fsize); return r; }
};
struct CliRes { bool exited = false; int code = 0; Bytes out; std::string err; };
}
static const char *rdiff_copy() {     // a copy every user may execute
    static std::string p;
    if (p.empty()) {
        if (!g_rdiff || !*g_rdiff) fail("harness: no rdiff");
        std::string q = strf("%s/rdiff.%d", g_scratch.c_str(), (int)getpid());
        int a = open(g_rdiff, O_RDONLY), b = open(q.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0755);
        if (a < 0 || b < 0) fail("harness: copying rdiff");
        char t[65536]; ssize_t k; while ((k = read(a, t, sizeof t)) > 0) if (write(b, t, k) != k) fail("harness: copying rdiff");
        close(a); close(b); chmod(q.c_str(), 0755); p = q;
    }
    return p.c_str();
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static CliRes run_cli(const Cli &c) {
    const char *exe = rdiff_copy();
    int pi[2] = {-1, -1}, po[2] = {-1, -1}, pe[2] = {-1, -1};
    if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) fail("harness: pipe");
    std::vector<char *> av; av.push_back((char *)"rdiff"); for (auto &a : c.args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    signal(SIGPIPE, SIG_IGN);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fi = -1, fo = -1;
        if (c.in == Cli::IN_FILE) fi = open(c.in_path.c_str(), O_RDONLY); else if (c.in == Cli::IN_PIPE) fi = pi[0]; else fi = open("/dev/null", O_RDONLY);
        if (c.out == Cli::OUT_PIPE) fo = po[1]; else if (c.out == Cli::OUT_FILE) fo = open(c.out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        else if (c.out == Cli::OUT_FULL) fo = open("/dev/full", O_WRONLY); else if (c.out == Cli::OUT_BROKEN) { int b[2]; if (pipe(b)) _exit(126); close(b[0]); fo = b[1]; }
        if (fi < 0 || (fo < 0 && c.out != Cli::OUT_CLOSED) || chdir(c.cwd.c_str())) _exit(126);
        dup2(fi, 0); dup2(pe[1], 2); if (fo >= 0) dup2(fo, 1); else close(1);
        for (int k = 3; k < 64; k++) close(k);
        struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
        if (c.fsize >= 0) { struct rlimit r = {(rlim_t)c.fsize, (rlim_t)c.fsize}; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); }
        if (c.nobody && (setgid(65534) || setuid(65534))) _exit(126);
        alarm(60);
        execv(exe, av.data());
        _exit(127);
    }
    close(pi[0]); close(po[1]); close(pe[1]);
    CliRes r; size_t at = 0; double t0 = now_s();
    if (c.in != Cli::IN_PIPE) { close(pi[1]); pi[1] = -1; } else fcntl(pi[1], F_SETFL, O_NONBLOCK);
    Rng rng(c.chop);
    bool so = true, se = true;
    while (so || se || pi[1] >= 0) {
        struct pollfd f[3]; int n = 0, ii = -1, io = -1, ie = -1;
        if (pi[1] >= 0) { f[ii = n++] = {pi[1], POLLOUT, 0}; }
        if (so) f[io = n++] = {po[0], POLLIN, 0};
        if (se) f[ie = n++] = {pe[0], POLLIN, 0};
        if (poll(f, n, 1000) < 0 && errno != EINTR) break;
        if (now_s() - t0 > 70) { kill(pid, SIGKILL); }
        uint8_t t[65536]; ssize_t k;
        if (io >= 0 && f[io].revents) { k = read(po[0], t, sizeof t); if (k <= 0) so = false; else r.out.insert(r.out.end(), t, t + k); }
        if (ie >= 0 && f[ie].revents) { k = read(pe[0], t, sizeof t); if (k <= 0) se = false; else if (r.err.size() < 100000) r.err.append((char *)t, k); }
        if (ii >= 0 && f[ii].revents) {
            size_t want = c.in_data->size() - at;
            if (c.chop) want = std::min<size_t>(want, 1 + rng.next() % (at < 2000 ? 100 : 20000));
            k = want ? write(pi[1], c.in_data->data() + at, want) : 0;
            if (k > 0) at += k;
            if (at == c.in_data->size() || (k < 0 && errno != EAGAIN)) { close(pi[1]); pi[1] = -1; }
        }
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    close(po[0]); close(pe[0]);
    r.exited = WIFEXITED(st); r.code = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    if (r.exited && (r.code == 126 || r.code == 127)) fail("harness: could not start rdiff (%d)", r.code);
    if (r.exited && r.code == 1 && r.err.find("Sanitizer") != std::string::npos) fail("rdiff crashed: %s: %.600s", c.str().c_str(), r.err.c_str());
    if (r.err.find("runtime error:") != std::string::npos) fail("rdiff undefined behaviour: %s: %.600s", c.str().c_str(), r.err.c_str());
    CHECK(r.exited || c.out == Cli::OUT_BROKEN, "rdiff was killed by signal %d: %s", r.code, c.str().c_str());
    return r;
}
static bool slurp(const std::string &p, Bytes &b) {
    int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
    b.clear(); uint8_t t[65536]; ssize_t k; while ((k = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + k);
    close(fd); return k == 0;
}
static std::string num(Src &s, const char *sh, const char *lg, long v, std::vector<std::string> &o) {
    switch (s.draw(0, 3)) {
    case 0: o.push_back(sh); o.push_back(strf("%ld", v)); break;
    case 1: o.push_back(strf("%s%ld", sh, v)); break;
    case 2: o.push_back(strf("%s=%ld", lg, v)); break;
    default: o.push_back(lg); o.push_back(strf("%ld", v));
    }
    return "";
}
static void opt_str(Src &s, const char *sh, const char *lg, const char *v, std::vector<std::string> &o) {
    switch (s.draw(0, 2)) { case 0: o.push_back(sh); o.push_back(v); break; case 1: o.push_back(strf("%s=%s", lg, v)); break; default: o.push_back(lg); o.push_back(v); }
}
// options that must not influence the output
static size_t g_near;    // a block length whose multiples make interesting buffer sizes
static bool io_opts(Src &s, std::vector<std::string> &o, size_t n) {
    size_t lo = n > 30000 ? 200 : 1;
    if (g_near > 4000 && s.flip()) {
        num(s, "-I", "--input-size", (long)(s.draw(1, 3) * g_near + s.draw(0, 8)) - 4, o);
        num(s, "-O", "--output-size", (long)s.size(16, 200), o);
        return false;
    }
    if (s.chance(1, 2)) num(s, "-I", "--input-size", (long)s.size(lo, 100000), o);
    if (s.chance(1, 2)) num(s, "-O", "--output-size", (long)s.size(lo, 100000), o);
    bool noisy = false;
    if (s.chance(1, 4)) { static const char *S[] = {"-s", "--statistics", "--stats"}; o.push_back(S[s.draw(0, 2)]); noisy = true; }
    if (s.chance(1, 10)) { o.push_back(s.flip() ? "-v" : "--verbose"); noisy = true; }
    return noisy;
}
static std::string action(Src &s, const char *full) { size_t n = strlen(full); return std::string(full, s.chance(1, 3) ? s.draw(1, n) : n); }
// options may stand before, between or after the other arguments
static std::vector<std::string> assemble(Src &s, const std::vector<std::vector<std::string>> &opts, const std::vector<std::string> &pos) {
    std::vector<std::string> a = pos; 
    for (auto &o : opts) { size_t at = s.chance(2, 3) ? 0 : s.draw(0, a.size()); (void)at; if (s.chance(2, 3)) a.insert(a.begin(), o.begin(), o.end()); else a.insert(a.end(), o.begin(), o.end()); }
    return a;
}
namespace {
struct Step { Bytes out; std::string how; };
}
// One rdiff step. ins: inputs in order (name, content, must be seekable); output returned.
static Bytes rdiff_step(Src &s, Dir &d, const char *act, std::vector<std::pair<std::string, const Bytes *>> ins, bool first_seekable, const char *outname,
                        std::vector<std::vector<std::string>> opts, size_t chunkhint, std::string &how, bool *known_size, bool force_file0 = false) {
    Cli c; c.cwd = d.p;
    std::vector<std::string> pos; pos.push_back(action(s, act));
    int std_in = s.chance(1, 2) ? (int)s.draw(0, ins.size() - 1) : -1;  // which input comes from standard input
    if (force_file0 && std_in == 0) std_in = -1;
    bool out_std = s.chance(1, 2);
    bool rel = s.flip();
    // names that look like options, or are odd otherwise
    static const char *ODD[] = {"-", "--", "-b", "--force=", " ", "a b", "-\n", "\xc3\xa9\xff", "%s%n", "'\"$;"};
    std::string pre; if (rel && s.chance(1, 4)) { size_t k = s.draw(0, 10); pre = k < 10 ? ODD[k] : std::string(200, 'n'); }
    auto path = [&](const std::string &n) { return !pre.empty() ? pre + n : rel ? (s.flip() ? n : "./" + n) : d.p + "/" + n; };
    bool dashed = false;
    if (!pre.empty()) for (auto &i : ins) { std::string a = d.p + "/" + pre + i.first; d.own((pre + i.first).c_str()); unlink(a.c_str()); if (link((d.p + "/" + i.first).c_str(), a.c_str())) fail("harness: link"); }
    bool omit_ok = true; // trailing names may be left out
    std::vector<std::string> names;
    for (size_t i = 0; i < ins.size(); i++) names.push_back((int)i == std_in ? "-" : path(ins[i].first));
    if (known_size) *known_size = true;
    if (std_in >= 0) {
        bool pipe = s.flip() && !(std_in == 0 && first_seekable);
        if (pipe) { c.in = Cli::IN_PIPE; c.in_data = ins[std_in].second; c.chop = s.flip() ? s.draw(1, 0xffff) : 0; if (known_size && std_in == 0) *known_size = false; }
        else { c.in = Cli::IN_FILE; c.in_path = d.p + "/" + ins[std_in].first; }
    }
    std::string outp = d.p + "/" + outname;
    bool existing = false;
    d.own(outname);
    unlink(outp.c_str());
    if (out_std) {
        if (s.flip()) c.out = Cli::OUT_PIPE; else { c.out = Cli::OUT_FILE; c.out_path = outp; }
        names.push_back("-");
    } else {
        existing = s.chance(1, 3);
        if (!pre.empty()) { d.own((pre + outname).c_str()); unlink((d.p + "/" + pre + outname).c_str()); }
        if (existing) { Bytes junk(s.size(0, 5000)); fill_random(junk.data(), junk.size(), 5); d.put((pre + outname).c_str(), junk); }
        names.push_back(path(outname));
    }
    // leave out trailing '-' arguments (the first of delta and patch is required)
    size_t req = ins.size() - 1;
    while (omit_ok && names.size() > req && names.back() == "-" && s.flip()) names.pop_back();
    pos.insert(pos.end(), names.begin(), names.end());
    std::vector<std::string> io; io_opts(s, io, chunkhint); if (!io.empty()) opts.push_back(io);
    if (existing || s.chance(1, 6)) opts.push_back({s.flip() ? "-f" : "--force"});
    for (auto &n : names) dashed |= n.size() > 1 && n[0] == '-';
    if (dashed) { std::vector<std::string> a; for (auto &o : opts) a.insert(a.end(), o.begin(), o.end()); a.push_back("--"); a.insert(a.end(), pos.begin(), pos.end()); c.args = a; }
    else c.args = assemble(s, opts, pos);
    how = c.str();
    CliRes r = run_cli(c);
    CHECK(r.exited && r.code == 0, "failed with status %d: %s: %.300s", r.code, how.c_str(), r.err.c_str());
    if (!pre.empty()) {
        for (auto &i : ins) unlink((d.p + "/" + pre + i.first).c_str());
        if (!out_std) { CHECK(!rename((d.p + "/" + pre + outname).c_str(), outp.c_str()), "the named output file was not written: %s", how.c_str()); }
    }
    Bytes out;
    if (out_std && c.out == Cli::OUT_PIPE) out = r.out;
    else { CHECK(r.out.empty(), "wrote to standard output though a file was named: %s", how.c_str()); CHECK(slurp(outp, out), "no output file: %s", how.c_str()); }
    for (auto &i : ins) { Bytes b; if (i.second) CHECK(slurp(d.p + "/" + i.first, b) && b == *i.second, "input file %s was changed: %s", i.first.c_str(), how.c_str()); }
    return out;
}
static void c17(Ctx &c, size_t maxn) {
    Src &s = c.s;
    uint32_t magic = M_BLAKE2;
    std::vector<std::vector<std::string>> so;
    bool md4 = s.chance(1, 3), roll = s.chance(1, 3);
    if (md4) magic = M_MD4;
    if (md4 || s.chance(1, 3)) { std::vector<std::string> o; opt_str(s, "-H", "--hash", md4 ? "md4" : "blake2", o); so.push_back(o); }
    if (!roll) magic += 0x10;
    if (roll || s.chance(1, 3)) { std::vector<std::string> o; opt_str(s, "-R", "--rollsum", roll ? "rollsum" : "rabinkarp", o); so.push_back(o); }
    size_t bl = s.chance(1, 3) ? 0 : maxn > 20000 && s.chance(1, 3) ? s.size(20000, 200000) : gen_block_len(s, maxn > 20000 ? 5000 : 600);
    size_t hint = bl ? bl : 256;
    g_near = bl;
    Bytes basis, nw; gen_pair(s, hint, magic, maxn, maxn, basis, nw);
    if (bl && basis.size() / bl > 20000) bl += basis.size() / 20000;
    if (bl || s.chance(1, 4)) { std::vector<std::string> o; num(s, "-b", "--block-size", (long)bl, o); so.push_back(o); }
    long sl = s.chance(1, 3) ? 0 : s.chance(1, 3) ? -1 : (long)s.draw(8, magic_max_strong(magic));
    if (sl || s.chance(1, 4)) { std::vector<std::string> o; o.push_back(strf("--sum-size=%ld", sl)); if (sl >= 0) { o.clear(); num(s, "-S", "--sum-size", sl, o); } so.push_back(o); }
    Dir d;
    d.put("basis", basis); d.put("new file", nw);
    std::string h1, h2, h3; bool known;
    Bytes sig = rdiff_step(s, d, "signature", {{"basis", &basis}}, false, "sig", so, std::max(basis.size(), nw.size()), h1, &known);
    // what the library's rules give for the same parameters
    rs_magic_number m = (rs_magic_number)magic; size_t rb = bl, rl = sl < 0 ? (size_t)-1 : (size_t)sl;
    { rs_result q = rs_sig_args(known ? (rs_long_t)basis.size() : -1, &m, &rb, &rl); CHECK(q == RS_DONE, "rs_sig_args refused what rdiff accepted: %s", h1.c_str()); }
    Bytes want = ref_sig(basis, (uint32_t)m, rb, rl).encode();
    CHECK((uint32_t)m == magic, "magic changed");
    CHECK(sig == want, "rdiff's signature (%zu bytes, header %s) is not the one of the library for magic %#x block %zu strong %zu (%zu bytes, header %s): %s", sig.size(), hexs(sig.data(), std::min<size_t>(12, sig.size())).c_str(),
          magic, rb, rl, want.size(), hexs(want.data(), 12).c_str(), h1.c_str());
    d.put("sig", sig);
    Bytes delta = rdiff_step(s, d, "delta", {{"sig", &sig}, {"new file", &nw}}, false, "delta", {}, std::max(basis.size(), nw.size()), h2, nullptr);
    RefDelta rd; std::string e = ref_parse_delta(delta, rd);
    CHECK(e.empty(), "rdiff's delta is not well formed: %s: %s", e.c_str(), h2.c_str());
    if (!basis.empty()) {
        SigHolder sh; load_ok(sig, sh); Iface w; RunResult q = op_delta(sh.s, nw, w);
        CHECK(q.res == RS_DONE && q.out == delta, "rdiff's delta differs from the library's: %s", h2.c_str());
    }
    d.put("delta", delta);
    Bytes out = rdiff_step(s, d, "patch", {{"basis", &basis}, {"delta", &delta}}, true, "out", {}, std::max(basis.size(), nw.size()), h3, nullptr);
    CHECK(out == nw, "the recreated file (%zu bytes) is not the new file (%zu bytes): %s; %s; %s", out.size(), nw.size(), h1.c_str(), h2.c_str(), h3.c_str());
    c.nontrivial = !basis.empty() && !nw.empty() && rd.copy_cmds > 0;
    if (h1.find("cat") == 0 || h2.find("cat") == 0 || h3.find("cat") == 0) c.label("pipe");
    if (rd.copy_cmds) c.label("copies");
    if (!bl) c.label("recommended-block");
    c.describe("basis %zu new %zu: %s; %s; %s", basis.size(), nw.size(), h1.c_str(), h2.c_str(), h3.c_str());
}
PROPERTY(C17, small) { c17(c, 4000); }
PROPERTY(C17, large) { c17(c, 400000); }

// ------------------------------------------------------------------ C13
// The numbers rdiff shows with the statistics option are those of what it just did.
PROPERTY(C13, rdiff) {
    Src &s = c.s;
    uint32_t magic = gen_magic(s); size_t bl = gen_block_len(s, 600), maxn = s.chance(1, 4) ? 300000 : 4000;
    Bytes basis, nw; gen_pair(s, bl, magic, maxn, maxn, basis, nw);
    if (basis.size() / bl > 20000) bl += basis.size() / 20000;
    Dir d; d.put("basis", basis); d.put("new", nw); d.own("sig"); d.own("delta"); d.own("out");
    static const char *S[] = {"-s", "--statistics", "--stats"};
    auto go = [&](std::vector<std::string> a) {
        Cli k; k.cwd = d.p; a.insert(s.flip() ? a.begin() : a.end(), S[s.draw(0, 2)]); k.args = a;
        CliRes r = run_cli(k); CHECK(r.exited && r.code == 0, "failed with status %d: %s: %.300s", r.code, k.str().c_str(), r.err.c_str()); return r.err;
    };
    auto has = [&](const std::string &t, const std::string &w, const char *step) { CHECK(t.find(w) != std::string::npos, "rdiff %s with statistics does not show \"%s\": %s", step, w.c_str(), t.c_str()); };
    auto speed = [&](const std::string &t, const char *op, size_t in, size_t out, const char *step) {
        size_t a = t.find(std::string(op) + " statistics:"); CHECK(a != std::string::npos, "rdiff %s shows no %s statistics: %s", step, op, t.c_str());
        std::string l = t.substr(a, t.find('\n', a) - a); has(l, strf("speed[%.1f MB (", (double)in / 1e6), step); has(l, strf(" in, %.1f MB (", (double)out / 1e6), step); return l;
    };
    std::string t = go({"-b", strf("%zu", bl), magic_is_md4(magic) ? "--hash=md4" : "--hash=blake2", magic_is_rk(magic) ? "--rollsum=rabinkarp" : "--rollsum=rollsum", "signature", "basis", "sig"});
    Bytes sig; if (!slurp(d.p + "/sig", sig)) fail("harness: no signature");
    size_t nb = (basis.size() + bl - 1) / bl;
    std::string l = speed(t, "signature", basis.size(), sig.size(), "signature"), sg = strf("signature[%zu blocks, %zu bytes per block]", nb, bl);
    if (nb) has(l, sg, "signature");
    t = go({"delta", "sig", "new", "delta"});
    Bytes delta; if (!slurp(d.p + "/delta", delta)) fail("harness: no delta");
    RefDelta rd; std::string e = ref_parse_delta(delta, rd); CHECK(e.empty(), "rdiff's delta is not well formed: %s", e.c_str());
    l = speed(t, "loadsig", sig.size(), 0, "delta"); if (nb) has(l, sg, "delta");
    std::string lit = strf("literal[%llu cmds, %llu bytes, %llu cmdbytes]", (unsigned long long)rd.lit_cmds, (unsigned long long)rd.lit_bytes, (unsigned long long)rd.lit_hdr);
    std::string cp = strf("copy[%llu cmds, %llu bytes, %llu cmdbytes", (unsigned long long)rd.copy_cmds, (unsigned long long)rd.copy_bytes, (unsigned long long)rd.copy_hdr);
    l = speed(t, "delta", nw.size(), delta.size(), "delta"); if (rd.lit_cmds) has(l, lit, "delta"); if (rd.copy_cmds) has(l, cp, "delta");
    unsigned long long hits = 0; for (auto &k : rd.c) if (k.k == Cmd::COPY) hits += (k.len + bl - 1) / bl;
    if (nb && nw.size()) { CHECK(t.find("match statistics") != std::string::npos, "rdiff delta shows no match statistics: %s", t.c_str()); has(t, strf("searches, %llu (", hits), "delta"); }
    t = go({"patch", "basis", "delta", "out"});
    l = speed(t, "patch", delta.size(), nw.size(), "patch"); if (rd.lit_cmds) has(l, lit, "patch"); if (rd.copy_cmds) has(l, cp, "patch");
    c.nontrivial = nb > 0 && rd.lit_cmds + rd.copy_cmds >= 2;
    c.describe("rdiff with statistics: %zu blocks of %zu, %s %s", nb, bl, lit.c_str(), cp.c_str());
}

// ------------------------------------------------------------------ C18
static void touch_old(const std::string &p) { struct timespec ts[2] = {{1000, 0}, {2000, 0}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); }
PROPERTY(C18, cases) {
    Src &s = c.s;
    unsigned step = (unsigned)s.draw(0, 2);
    Dir d; Cli k; k.cwd = d.p;
    bool big = s.chance(1, 8);
    // inputs and the correct output
    std::vector<std::pair<std::string, Bytes>> in; Bytes want; bool check_out = true;
    uint32_t magic = gen_magic(s);
    size_t bl = gen_block_len(s, 300);
    std::vector<std::vector<std::string>> opts;
    if (step == 0) {
        Bytes b = gen_content(s, s.size(0, big ? 200000 : 3000), bl);
        want = ref_sig(b, M_RK_BLAKE2, bl, 32).encode(); in.push_back({"basis", b});
        opts.push_back({strf("-b%zu", bl)});
    } else if (step == 1) {
        Bytes b, n; gen_pair(s, bl, magic, 3000, big ? 200000 : 3000, b, n);
        if (b.empty()) b.resize(bl + 3, 9);
        Bytes sg = ref_sig(b, magic, bl, magic_max_strong(magic)).encode();
        in.push_back({"sig", sg}); in.push_back({"new", n});
        SigHolder h; load_ok(sg, h); Iface w; RunResult q = op_delta(h.s, n, w); CHECK(q.res == RS_DONE, "library delta failed"); want = q.out;
    } else {
        DeltaProg g = gen_delta(s, 12, big ? 60000 : 300, big ? 100000 : 1000, false);
        in.push_back({"basis", g.basis}); in.push_back({"delta", g.delta}); want = g.expect;
    }
    static const char *ACT[] = {"signature", "delta", "patch"};
    bool must_fail = false, exact_fail = true; // exact_fail: otherwise success is required
    std::string fault = "none";
    bool force = s.flip(), nobody = s.chance(1, 2);
    unsigned outk = (unsigned)s.weighted({4, 3, 1, 1});   // new file, existing file, stdout pipe, stdout file
    std::vector<std::string> extra_pos;
    std::string act = ACT[step];
    size_t drop_args = 0;
    std::vector<std::string> names; for (auto &i : in) names.push_back(i.first);
    std::string missing; size_t unreadable = SIZE_MAX; bool dir_in = false;
    unsigned fk = (unsigned)s.draw(0, 13);
    bool out_existing = outk == 1, out_unwritable = false;
    switch (fk) {
    case 0: case 1: break;                                                                     // no fault
    case 2: { size_t i = s.draw(0, in.size() - 1); names[i] = s.flip() ? "absent" : "absent/" + names[i]; must_fail = true; fault = "missing input"; break; }
    case 3: { unreadable = s.draw(0, in.size() - 1); if (nobody) { must_fail = true; fault = "unreadable input"; } break; }
    case 4: { size_t i = s.draw(0, in.size() - 1); d.own("dir"); if (mkdir((d.p + "/dir").c_str(), 0755)) fail("harness: mkdir"); names[i] = "dir"; dir_in = true; must_fail = !(step == 2 && i == 0); exact_fail = must_fail; fault = "directory as input";
        if (step == 2 && i == 0) { RefDelta rd; ref_parse_delta(in[1].second, rd); if (rd.copy_cmds) must_fail = exact_fail = true; } break; }
    case 5: case 6: {                                                                            // damaged signature or delta
        if (step == 0) break;
        Bytes &x = step == 1 ? in[0].second : in[1].second;
        unsigned how = (unsigned)s.draw(0, 3);
        if (how == 0) { x.resize(s.draw(0, x.size() - 1)); fault = strf("truncated to %zu", x.size()); }
        else if (how == 1) { x[s.draw(0, 3)] ^= (uint8_t)(1 << s.draw(0, 7)); fault = "magic damaged"; }
        else if (how == 2) { size_t p = s.draw(0, std::min<size_t>(x.size() - 1, 12)); x[p] = (uint8_t)s.draw(0, 255); fault = strf("byte %zu replaced", p); }
        else { size_t p = s.draw(0, x.size() - 1); x[p] ^= (uint8_t)s.draw(1, 255); fault = strf("byte %zu changed", p); }
        if (step == 1) { RefSig rs; std::string e; bool ok = ref_parse_sig(x, rs, e); must_fail = !ok;
            // a signature ending inside a weak sum is taken as ending before it; a zero strong length means the maximum
            if (!ok && ((e == "ragged" && (x.size() - 12) % (4 + rs.strong_len) < 4) || (e == "strong_len" && rs.strong_len == 0))) { must_fail = false; ok = true; }
             check_out = false; if (ok) exact_fail = false; }
        else { RefDelta rd; Bytes o; std::string e = ref_parse_delta(x, rd, true); if (e.empty()) e = ref_apply(rd, x, in[0].second, o); must_fail = !e.empty(); if (e.empty()) want = o; }
        break;
    }
    case 7: {                                                                                    // basis too short
        if (step != 2) break;
        Bytes &b = in[0].second; if (b.empty()) break;
        b.resize(s.draw(0, b.size() - 1)); fault = strf("basis cut to %zu", b.size());
        RefDelta rd; Bytes o; std::string e = ref_parse_delta(in[1].second, rd); if (e.empty()) e = ref_apply(rd, in[1].second, b, o); must_fail = !e.empty(); break;
    }
    case 8: {                                                                                    // bad options and arguments
        must_fail = true;
        switch (s.draw(0, 11)) {
        case 0: opts.push_back({"--no-such-option"}); fault = "unknown option"; break;
        case 1: opts.push_back({"-q"}); fault = "unknown short option"; break;
        case 2: opts.push_back({"-b", "x12"}); fault = "non-numeric block size"; break;
        case 3: extra_pos.push_back("extra"); if (s.flip()) extra_pos.push_back("more"); fault = "too many arguments"; break;
        case 4: act = s.flip() ? "frobnicate" : act + "s"; fault = "unknown action"; break;
        case 5: drop_args = 99; act = ""; fault = "no action"; break;
        case 6: if (step == 0) { must_fail = false; break; } drop_args = 99; fault = "missing argument"; break;
        case 7: if (step != 0) { must_fail = false; break; } opts.push_back({"-H", s.flip() ? "sha1" : "MD4"}); fault = "unknown hash"; break;
        case 8: if (step != 0) { must_fail = false; break; } opts.push_back({"--rollsum=" + std::string(s.flip() ? "adler" : "rollsu")}); fault = "unknown rollsum"; break;
        case 9: if (step != 0) { must_fail = false; break; } opts.push_back({strf("-S%d", (int)s.draw(33, 200))}); fault = "sum size too large"; break;
        case 10: if (step != 0) { must_fail = false; break; } opts.clear(); opts.push_back({"-b", strf("-%d", (int)s.draw(1, 5000))}); fault = "negative block size"; break;
        default: opts.push_back({s.flip() ? "-z" : "--bzip2"}); fault = "compression requested";
        }
        if (!must_fail) fault = "none";
        break;
    }
    case 9: out_existing = true; if (outk >= 2) outk = 1; force = false; break;                   // existing output, no force
    case 10: {                                                                                   // output cannot be opened
        outk = 0; out_existing = false; fault = "output in a missing directory"; must_fail = true; break; }
    case 11: { outk = 1; out_existing = true; out_unwritable = true; break; }
    case 12: { k.fsize = (int64_t)s.size(0, want.size() + 2); if (outk >= 2) outk = 3; break; }
    default: { outk = 4 + (unsigned)s.draw(0, 3); break; }                                        // full device, closed, broken pipe, /dev/full by name
    }
    if (outk == 1) out_existing = true;
    // lay out the files
    Bytes old(s.size(0, 2000)); fill_random(old.data(), old.size(), 77);
    for (auto &i : in) { d.put(i.first.c_str(), i.second); touch_old(d.p + "/" + i.first); }
    if (unreadable != SIZE_MAX) chmod((d.p + "/" + in[unreadable].first).c_str(), s.flip() ? 0000 : 0222);
    std::string outn = "out", outp = d.p + "/out";
    d.own("out");
    std::vector<std::string> pos; if (!act.empty()) pos.push_back(act);
    if (drop_args != 99) for (auto &n : names) pos.push_back(n);
    bool same_as_input = false;
    if (drop_args == 99) { }
    else if (outk <= 1) {
        if (fk == 10) { outn = "nodir/out"; outp = d.p + "/" + outn; }
        else if (out_existing) {
            if (!force && s.chance(1, 3)) { size_t i = s.draw(0, in.size() - 1); outn = in[i].first; outp = d.p + "/" + outn; old = in[i].second; same_as_input = true; }
            else { d.put("out", old); chmod(outp.c_str(), out_unwritable ? 0444 : (mode_t)(s.flip() ? 0666 : 0222)); touch_old(outp); if (nobody && s.flip() && chown(outp.c_str(), 65534, 65534)) { } }
            if (!force) { must_fail = true; if (fault == "none") fault = "existing output"; }
            else if (nobody) {
                struct stat st; stat(outp.c_str(), &st);
                bool w = st.st_uid == 65534 ? st.st_mode & 0200 : st.st_mode & 0002;
                if (!w) { must_fail = true; fault = "unwritable output"; }
            }
        }
        pos.push_back(outn);
    } else if (outk == 2) k.out = Cli::OUT_PIPE;
    else if (outk == 3) { k.out = Cli::OUT_FILE; k.out_path = outp; }
    else if (outk == 4) { k.out = Cli::OUT_FULL; }
    else if (outk == 5) { k.out = Cli::OUT_CLOSED; }
    else if (outk == 6) { k.out = Cli::OUT_BROKEN; }
    else { pos.push_back("/dev/full"); force = true; }
    if (drop_args != 99 && (outk >= 2 && outk <= 6) && (extra_pos.size() || s.flip())) pos.push_back("-");
    if (extra_pos.size() && drop_args != 99) pos.insert(pos.end(), extra_pos.begin(), extra_pos.end());
    if (drop_args != 99 && outk >= 4 && !must_fail) { if (!want.empty()) { must_fail = true; fault = "unwritable output device"; } if (!check_out) { exact_fail = false; } }
    if (k.fsize >= 0 && !must_fail && (outk <= 1 || outk == 3)) { if (!check_out) exact_fail = false; else if ((int64_t)want.size() > k.fsize) { must_fail = true; fault = "file size limit"; } }
    if (force) opts.push_back({s.flip() ? "-f" : "--force"});
    std::vector<std::string> io; io_opts(s, io, want.size()); if (!io.empty()) opts.push_back(io);
    k.args = assemble(s, opts, pos); k.nobody = nobody;
    struct stat so0; bool had = lstat(outp.c_str(), &so0) == 0;
    CliRes r = run_cli(k);
    std::string how = k.str() + " [" + fault + "]";
    bool ok = r.exited && r.code == 0;
    // inputs are never modified
    for (size_t i = 0; i < in.size(); i++) {
        std::string p = d.p + "/" + in[i].first; struct stat st; Bytes b;
        CHECK(lstat(p.c_str(), &st) == 0 && slurp(p, b) && b == in[i].second, "input file %s was changed: %s", in[i].first.c_str(), how.c_str());
        CHECK(st.st_mtime == 2000, "input file %s was written to: %s", in[i].first.c_str(), how.c_str());
    }
    // an existing output survives without force
    if (outk <= 1 && out_existing && !force && drop_args != 99) {
        Bytes b; CHECK(slurp(outp, b) && b == old, "an existing file was overwritten without the force option: %s", how.c_str());
    }
    (void)had; (void)same_as_input; (void)dir_in;
    if (must_fail) {
        CHECK(!ok, "exit status 0 although the step could not be done: %s", how.c_str());
        CHECK(!r.err.empty() || !r.exited, "failed without any message on standard error: %s", how.c_str());
    } else if (exact_fail) {
        CHECK(ok, "exit status %d although nothing is wrong: %s: %.300s", r.code, how.c_str(), r.err.c_str());
    }
    if (ok && check_out && drop_args != 99) {
        Bytes b;
        if (outk == 2) b = r.out; else if (outk <= 1 || outk == 3) { chmod(outp.c_str(), 0644); CHECK(slurp(outp, b), "exit status 0 but no output: %s", how.c_str()); } else b = want;
        CHECK(b == want, "exit status 0 but the output (%zu bytes) is not the %zu-byte result: %s", b.size(), want.size(), how.c_str());
    }
    if (!ok && r.exited) CHECK(!r.err.empty(), "exit status %d without any message on standard error: %s", r.code, how.c_str());
    c.nontrivial = fault != "none";
    c.label(must_fail ? "must-fail" : "succeeds");
    c.describe("%s -> %d", how.c_str(), r.code);
}
