#!/usr/bin/env python3
"""Driver: builds librsync from /repo's working tree in several instrumented
variants, runs the generated-input search for one property, shrinks and replays
any failure, and writes evidence/<id>.json.

  run.py check ID        decide one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE     run a replay file against the current tree
  run.py setup           prepare (compiles everything once)
"""
import sys, os, json, hashlib, subprocess, time, shutil, fcntl, glob, re, struct, signal, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
import plan as PLAN

BUILD = os.environ.get("VH_BUILD", os.path.join(HERE, "build"))
NPROC = int(os.environ.get("VH_JOBS", str(os.cpu_count() or 8)))
CLANG, CLANGXX, GCC = "/usr/bin/clang", "/usr/bin/clang++", "/usr/bin/gcc"
UBSAN = "bounds,integer-divide-by-zero,null,return,unreachable,vla-bound,shift-exponent"
VARIANTS = {
    # name: compiler, cmake type, cflags, link flags, defines
    "rel":  dict(cc=GCC, type="RelWithDebInfo", cflags="", link="", defs=["-DVH_SAN=0"], rt=False),
    "san":  dict(cc=CLANG, type="None", cflags=f"-O1 -g -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,{UBSAN} -fno-sanitize-recover=all -fsanitize-coverage=trace-pc-guard",
                 link=f"-fsanitize=address,{UBSAN}", defs=["-DVH_SAN=1"], rt=True),
    "dbg":  dict(cc=CLANG, type="Debug", cflags=f"-O1 -g -fno-omit-frame-pointer -fsanitize=address,{UBSAN} -fno-sanitize-recover=all -fsanitize-coverage=trace-pc-guard",
                 link=f"-fsanitize=address,{UBSAN}", defs=["-DVH_SAN=1", "-DVH_DBG=1"], rt=True),
    "fuzz": dict(cc=CLANG, type="None", cflags="-O1 -g -DNDEBUG -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address",
                 link="-fsanitize=fuzzer,address", defs=["-DVH_SAN=1"], rt=False),
    "tsan": dict(cc=CLANG, type="None", cflags="-O1 -g -DNDEBUG -DDO_RS_TRACE=1 -fsanitize=thread", link="-fsanitize=thread", defs=["-DVH_SAN=0"], rt=False),
}
VIDX = {v: i for i, v in enumerate(["rel", "san", "dbg", "fuzz", "tsan"])}
CORE = ["engine.cpp", "ref.cpp", "lib.cpp", "delta_gen.cpp", "spec.cpp"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(2)
    return r.stdout

def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def repo_files():
    out = []
    for base in ("src", "cmake"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return out

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def tree_dir():
    d = os.path.join(BUILD, "t-" + file_hash(repo_files() + [os.path.abspath(__file__)]))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    return d

def prune(keep):
    """Keep only the few most recent build trees."""
    for pre, n in (("t-", 4), ("h-", 3)):
        ds = sorted(glob.glob(os.path.join(BUILD, pre + "*")), key=os.path.getmtime, reverse=True)
        for d in ds[n:]:
            if d not in keep: shutil.rmtree(d, ignore_errors=True)

def build_lib(tree, name):
    v = VARIANTS[name]
    d = os.path.join(tree, name)
    with Lock(os.path.join(tree, name + ".lock")):
        if os.path.exists(os.path.join(d, ".ok")): return d
        shutil.rmtree(d, ignore_errors=True)
        env = {k: x for k, x in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "DESTDIR", "CC")}
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        args = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + v["cc"], "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                "-DBUILD_RDIFF=ON", "-DBUILD_SHARED_LIBS=OFF", "-DCMAKE_BUILD_TYPE=" + v["type"], "-DCMAKE_C_FLAGS=-Wno-error -w -DLIBRSYNC_STATIC_DEFINE"]
        targets = ["rsync", "rdiff"]
        # sanitizer flags only after the configure probes: keep probes plain
        sh(args, env=env)
        if v["cflags"]:
            if name in ("fuzz", "tsan"): targets = ["rsync"]
            tf = os.path.join(d, "build.ninja")
            s = open(tf).read()
            s = re.sub(r"(?m)^(  FLAGS = .*)$", lambda m: m.group(1) + " " + v["cflags"], s)
            if name == "san" or name == "dbg":
                # rdiff is linked with the sanitizer runtime and a coverage stub
                s = re.sub(r"(?m)^(  LINK_LIBRARIES = .*)$", lambda m: m.group(1) + " " + os.path.join(d, "covstub.o") + " " + v["link"], s)
                with open(os.path.join(d, "covstub.c"), "w") as f:
                    f.write("#include <stdint.h>\nvoid __sanitizer_cov_trace_pc_guard_init(uint32_t*a,uint32_t*b){}\nvoid __sanitizer_cov_trace_pc_guard(uint32_t*g){}\n")
                sh([CLANG, "-O2", "-c", os.path.join(d, "covstub.c"), "-o", os.path.join(d, "covstub.o")])
            open(tf, "w").write(s)
        sh(["ninja", "-C", d] + targets, env=env)
        open(os.path.join(d, ".ok"), "w").close()
    return d

def build_harness(srcs):
    """Compile harness objects (uninstrumented), return dict source->object."""
    hdrs = sorted(glob.glob(os.path.join(H, "*.h")))
    hh = file_hash(hdrs + [os.path.join(REPO, "src", x) for x in ("librsync.h", "librsync_export.h")])
    d = os.path.join(BUILD, "h-" + hh)
    os.makedirs(d, exist_ok=True); os.utime(d)
    res = {}
    def one(item):
        src, defs, tag = item
        p = os.path.join(H, src)
        o = os.path.join(d, tag + "-" + file_hash([p]) + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            if src.endswith(".c"): sh([CLANG, "-O2", "-g", "-c", p, "-o", tmp] + defs)
            else: sh([CLANGXX, "-std=c++17", "-O2", "-g1", "-Wall", "-DLIBRSYNC_STATIC_DEFINE", "-I" + os.path.join(REPO, "src"), "-I" + H, "-c", p, "-o", tmp] + defs)
            os.replace(tmp, o)
        return tag, o
    items = [(s, [], s) for s in srcs]
    items += [("main.cpp", [], "main.cpp"), ("main.cpp", ["-DVH_FUZZ"], "main_fuzz.cpp"), ("rt_cov.c", [], "rt_cov.c")]
    with ThreadPoolExecutor(NPROC) as ex:
        for tag, o in ex.map(one, items): res[tag] = o
    return d, res

def link_variant(tree, name, libdir, objs, srcs):
    v = VARIANTS[name]
    use = [objs[s] for s in srcs]
    use.append(objs["main_fuzz.cpp"] if name == "fuzz" else objs["main.cpp"])
    if v["rt"]: use.append(objs["rt_cov.c"]); use.append("-Wl,--wrap=__asan_memcpy,--wrap=__asan_memmove,--wrap=__asan_memset")
    if any("props_mem" in s for s in srcs): use.append("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc")
    key = hashlib.sha256(("|".join(use)).encode()).hexdigest()[:12]
    exe = os.path.join(tree, "vh-%s-%s" % (name, key))
    with Lock(exe + ".lock"):
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            sh([CLANGXX, "-std=c++17", "-O2", "-o", tmp, os.path.join(H, "variant.cpp")] + v["defs"] + ['-DVH_NAME="%s"' % name] + use +
               [os.path.join(libdir, "librsync.a")] + v["link"].split() + ["-lpthread", "-lm"])
            os.replace(tmp, exe)
    return exe

# ---------------------------------------------------------------- dictionary
def make_dict(tree, libdir):
    """Integer constants the code compares with; only biases generation."""
    out = os.path.join(tree, "dict.txt")
    with Lock(out + ".lock"):
        if os.path.exists(out): return out
        consts = set()
        pat = re.compile(r"\b(?:icmp \w+|and|urem|srem|udiv|sdiv|lshr|ashr)\b(?: \w+)* i(\d+) [^,]+, (-?\d+)")
        sw = re.compile(r"^\s+i(\d+) (-?\d+), label")
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) + sorted(glob.glob(os.path.join(REPO, "src", "blake2", "*.c")))
        def one(s):
            r = subprocess.run([CLANG, "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-std=c99", "-DNDEBUG", "-DLIBRSYNC_STATIC_DEFINE", "-I" + os.path.join(REPO, "src"),
                                "-I" + os.path.join(REPO, "src", "blake2"), "-I" + os.path.join(libdir, "src"), "-o", "-", s], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            c = set()
            for line in r.stdout.splitlines():
                m = pat.search(line) or sw.search(line)
                if m:
                    b, x = int(m.group(1)), int(m.group(2))
                    c.add(x & ((1 << 64) - 1) if x >= 0 else (x & ((1 << b) - 1) if b <= 64 else 0))
            return c
        with ThreadPoolExecutor(NPROC) as ex:
            for c in ex.map(one, srcs): consts |= c
        base = set()
        bp = os.path.join(HERE, "dict_base.txt")
        if os.path.exists(bp): base = {int(x) for x in open(bp).read().split()}
        with open(out + ".tmp", "w") as f:
            for x in sorted(consts | base): f.write("%s %d\n" % ("b" if x in base or not base or x < 4 else "n", x))
        os.replace(out + ".tmp", out)
    return out

# ---------------------------------------------------------------- running
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=4:thread_local_quarantine_size_kb=256:abort_on_error=0:malloc_context_size=8:max_allocation_size_mb=8192"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
for k in ("LD_LIBRARY_PATH", "LD_PRELOAD", "POSIXLY_CORRECT"): ENV.pop(k, None)
ENV["LC_ALL"] = "C"

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = PLAN.PROPS[pid]
        self.tree = tree_dir()
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vh-%s-" % pid)
        os.chmod(self.scratch, 0o755)
        self.exe, self.rdiff = {}, {}
        self.notes = []

    def build(self):
        srcs = CORE + self.cfg["src"]
        want = {j["variant"] for j in self.jobs()} | {"san"}
        if any(j.get("rdiff") for j in self.jobs()): want |= {"rel"}
        if "tsan" in want: want.discard("san")
        with ThreadPoolExecutor(8) as ex:
            fh = ex.submit(build_harness, srcs)
            libs = {n: ex.submit(build_lib, self.tree, n) for n in sorted(want)}
            hd, objs = fh.result()
            libs = {n: f.result() for n, f in libs.items()}
            exes = {n: ex.submit(link_variant, self.tree, n, libs[n], objs, srcs) for n in libs}
            fd = ex.submit(make_dict, self.tree, next(iter(libs.values())))
            self.exe = {n: f.result() for n, f in exes.items()}
            self.dict = fd.result()
        self.rdiff = {n: os.path.join(libs[n], "rdiff") for n in libs if os.path.exists(os.path.join(libs[n], "rdiff"))}
        prune({self.tree, hd})
        self.build_s = time.time() - self.t0

    def jobs(self):
        return [j for j in self.cfg["jobs"] if j.get(self.tier, 0)]

    def args(self, variant):
        a = ["--dict", self.dict, "--scratch", self.scratch]
        if variant in self.rdiff: a += ["--rdiff", self.rdiff[variant]]
        if self.tier == "thorough": a += ["--thorough"]
        return a

    def explore(self):
        """Run all shards; returns list of failure descriptors."""
        tasks = []
        wall = PLAN.WALL[self.tier]
        for ji, j in enumerate(self.jobs()):
            n = j[self.tier]
            if j["variant"] == "fuzz":
                sh_n = j.get("shards", 4 if self.tier == "quick" else NPROC)
                for k in range(sh_n): tasks.append(("fuzz", ji, j, k, sh_n, n))
            else:
                sh_n = min(n, j.get("shards", NPROC))
                for k in range(sh_n): tasks.append(("run", ji, j, k, sh_n, n))
        # interleave jobs so that every job gets cores early
        tasks.sort(key=lambda t: (t[3], t[1]))
        self.fails, self.stats, procs = [], [], []
        pending = list(tasks)
        deadline = self.t0 + PLAN.TOTAL[self.tier]
        seedbase = self.seed
        while pending or procs:
            while pending and len(procs) < NPROC and not self.fails:
                kind, ji, j, k, sh_n, n = pending.pop(0)
                out = os.path.join(self.scratch, "r%d.%d" % (ji, k))
                left = max(5.0, deadline - time.time())
                w = min(j.get("wall", wall), left)
                sd = os.path.join(self.scratch, "s%d.%d" % (ji, k)); os.mkdir(sd)
                env = dict(ENV)
                if kind == "run":
                    cmd = [self.exe[j["variant"]], "run", "--prop", self.pid, "--sub", j["sub"], "--seed", str(seedbase * 16 + VIDX[j["variant"]]),
                           "--shard", str(k), "--shards", str(sh_n), "--count", str(n), "--wall", "%.1f" % w, "--out", out,
                           "--case-cpu", str(j.get("cpu", 60)), "--case-fuel", str(j.get("fuel", 1500000000))] + self.args(j["variant"])
                    cmd[cmd.index("--scratch") + 1] = sd
                    cap = w + 900
                else:
                    cd = os.path.join(self.scratch, "c%d.%d" % (ji, k)); os.mkdir(cd); os.mkdir(cd + "/art")
                    subprocess.run([self.exe["san"], "corpus", "--prop", self.pid, "--sub", j["sub"], "--seed", str(seedbase * 64 + k), "--count", "60", "--dir", cd] + self.args("san"),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                    env.update(FZ_PROP=self.pid, FZ_SUB=j["sub"], FZ_DICT=self.dict, FZ_SCRATCH=sd, FZ_OUT=out)
                    cmd = [self.exe["fuzz"], "-runs=%d" % max(1, n // sh_n), "-seed=%d" % (seedbase * 64 + k + 1), "-max_len=700", "-len_control=0", "-rss_limit_mb=0",
                           "-malloc_limit_mb=0", "-timeout=120", "-max_total_time=%d" % int(w), "-print_final_stats=1", "-artifact_prefix=" + cd + "/art/", cd]
                    cap = w + 300
                lf = open(out + ".log", "wb")
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=sd, start_new_session=True)
                procs.append(dict(p=p, kind=kind, j=j, k=k, out=out, sd=sd, t=time.time(), cap=cap, cd=None if kind == "run" else cd, shards=sh_n, n=n))
            time.sleep(0.02)
            for q in list(procs):
                rc = q["p"].poll()
                if rc is None:
                    if time.time() - q["t"] > q["cap"]:
                        os.killpg(q["p"].pid, signal.SIGKILL); q["p"].wait(); procs.remove(q)
                        self.notes.append("shard %s/%s/%d stopped at its wall limit" % (q["j"]["sub"], q["j"]["variant"], q["k"]))
                    continue
                procs.remove(q)
                self.collect(q, rc)
            if self.fails:
                for q in procs:
                    try: os.killpg(q["p"].pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    q["p"].wait()
                procs = []
                cands, self.fails = self.fails, []
                for f in cands:
                    v = self.confirm(f)
                    if v: self.fails = [v]; return
                # nothing confirmed: go on with what is left

    def collect(self, q, rc):
        j = q["j"]
        if os.path.exists(q["out"] + ".json"):
            try:
                s = json.load(open(q["out"] + ".json", errors="replace"))
                s.update(sub=j["sub"], variant=j["variant"])
                with open(q["out"] + ".hash", "rb") as f: raw = f.read()
                s["hashes"] = {(j["sub"], x) for x in struct.unpack("<%dQ" % (len(raw) // 8), raw)}
                self.stats.append(s)
            except (OSError, ValueError): pass
        if q["kind"] == "run":
            if rc == 1 and os.path.exists(q["out"] + ".fail"): self.fails.append(dict(case=q["out"] + ".fail", run=q["out"] + ".failrun", variant=j["variant"], j=j, log=q["out"] + ".log"))
            elif rc != 0: raise SystemExit("harness process failed (%d): %s" % (rc, open(q["out"] + ".log", errors="replace").read()[-2000:]))
        else:
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", open(q["out"] + ".log", errors="replace").read())
            for a in sorted(glob.glob(q["cd"] + "/art/*")):
                if os.path.basename(a).startswith("slow-unit"): continue
                out = a + ".fail"
                subprocess.run([self.exe["san"], "fromfuzz", "--prop", self.pid, "--sub", j["sub"], "--artifact", a, "--out", out, "--case-fuel", str(j.get("fuel", 1500000000))] + self.args("san"),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=q["sd"])
                if os.path.exists(out): self.fails.append(dict(case=out, run=None, variant="san", j=j, log=q["out"] + ".log"))
                else: self.notes.append("fuzz artifact %s did not reproduce" % os.path.basename(a))

    def replay(self, variant, path, times, j, quiet=True):
        r = subprocess.run([self.exe[variant], "replay", "--file", path, "--times", str(times), "--case-cpu", str(j.get("cpu", 60)), "--case-fuel", str(j.get("fuel", 1500000000))] +
                           (["--quiet"] if quiet else []) + self.args(variant), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if quiet else None, env=ENV, text=True, errors="replace", cwd=self.scratch)
        return r.returncode, r.stdout.strip()

    def confirm(self, f):
        """Decide whether a failing case is a real violation; returns replay info or None."""
        j, variant = f["j"], f["variant"]
        msg = next((l[4:].strip() for l in open(f["case"], errors="backslashreplace") if l.startswith("msg ")), "")
        if msg.startswith("harness:"):
            self.notes.append("harness problem: " + msg)
            self.harness_problem = msg
            return None
        if msg.startswith("suspect-hang"):
            # only the deterministic work bound of the instrumented build decides
            if variant != "san" and "san" in self.exe: variant = "san"
            rc, out = self.replay(variant, f["case"], 1, dict(j, cpu=300))
            if not (rc == 1 and "suspect-hang" not in out):
                self.notes.append("slow case ignored: " + msg)
                return None
        rc, out = self.replay(variant, f["case"], 3, j)
        final = None
        if rc in (1, 4):
            sp = f["case"] + ".min"
            src = f["case"]
            if rc == 1:
                subprocess.run([self.exe[variant], "shrink", "--file", f["case"], "--out", sp, "--budget", "40", "--case-cpu", str(j.get("cpu", 60)), "--case-fuel", str(j.get("fuel", 1500000000))] + self.args(variant),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=self.scratch)
                if os.path.exists(sp):
                    rc2, out2 = self.replay(variant, sp, 2, j)
                    if rc2 == 1: src, out = sp, out2
            final = (src, out)
        elif f["run"]:
            # needs the history of earlier cases in the same process
            def rerun(path):
                o = os.path.join(self.scratch, "rr"); 
                for e in (".fail", ".failrun"):
                    if os.path.exists(o + e): os.unlink(o + e)
                r = subprocess.run([self.exe[variant], "run", "--runfile", path, "--out", o, "--case-cpu", str(j.get("cpu", 60)), "--case-fuel", str(j.get("fuel", 1500000000))] + self.args(variant),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, cwd=self.scratch)
                return r.returncode == 1 and os.path.exists(o + ".fail")
            best = None
            lines = open(f["run"], errors="backslashreplace").read().splitlines()
            rl = next(i for i, l in enumerate(lines) if l.startswith("run "))
            seed, shard, shards, start, count = map(int, lines[rl].split()[1:])
            for back in (1, 3, 10, 40, 200, 1000, 10**9):
                st = max(0, count - 1 - back * shards)
                lines[rl] = "run %d %d %d %d %d" % (seed, shard, shards, st, count)
                p = os.path.join(self.scratch, "cand.run")
                open(p, "w", errors="backslashreplace").write("\n".join(lines) + "\n")
                if rerun(p) and rerun(p): best = p; break
                if st == 0: break
            if best: final = (best, "FAIL (needs the preceding cases of the run) " + msg)
            else:
                self.notes.append("failure did not reproduce, not reported: " + msg)
                return None
        if not final: 
            self.notes.append("failure did not reproduce, not reported: " + msg)
            return None
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        body = open(final[0], errors="backslashreplace").read()
        dst = os.path.join(rd, "%s-%s.case" % (self.pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
        open(dst, "w", errors="backslashreplace").write(body)
        try: log = open(f["log"], errors="replace").read()[-6000:]
        except OSError: log = ""
        open(dst + ".log", "w", errors="backslashreplace").write(final[1] + "\n\n" + log)
        return dict(replay=dst, msg=final[1], variant=variant)

    def evidence(self, viol, known):
        ev = sum(s["evaluations"] for s in self.stats)
        hs = set()
        for s in self.stats: hs |= s["hashes"]
        labels, samples, per = {}, [], {}
        for s in self.stats:
            for l, n in s["labels"].items(): labels[s["sub"] + ":" + l] = labels.get(s["sub"] + ":" + l, 0) + n
            key = "%s/%s" % (s["sub"], s["variant"])
            per[key] = per.get(key, 0) + s["evaluations"]
            if s["samples"] and sum(1 for x in samples if x.startswith(key)) < 2: samples.append(key + ": " + s["samples"][0])
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.cfg.get("level", "exploration"),
                 coverage=dict(evaluations=ev, distinct_nontrivial=len(hs), rule=self.cfg["rule"], samples=samples[:12],
                               cases_per_job=per, labels=labels, discarded=sum(s.get("discarded", 0) for s in self.stats),
                               subcases=sum(s.get("subcases", 0) for s in self.stats), shards_capped_by_time=sum(1 for s in self.stats if s.get("capped")), notes=self.notes),
                 assumptions=PLAN.ASSUMPTIONS + self.cfg.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=1 if viol else 0)
        d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f: json.dump(e, f, indent=1)
        return e

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(pid, tier, seed):
    r = Run(pid, tier, seed)
    r.harness_problem = None
    try:
        r.build()
        for kf in known_findings():
            if kf.get("property") == pid and kf.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
        r.explore()
        e = r.evidence(bool(r.fails), None)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" % (pid, tier, seed, e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], r.build_s, e["wall_s"]))
        for n in r.notes: print("note: " + n)
        if r.fails:
            f = r.fails[0]
            print("%s [%s build]" % (f["msg"][:1500], f["variant"]))
            print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
            return 1
        if r.harness_problem and not r.stats: return 2
        return 0
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed = abs(seed) % (1 << 48)
    if a[0] == "check": return check(a[1], tier, seed)
    if a[0] == "replay":
        head = dict(l.split(" ", 1) for l in open(a[1], errors="backslashreplace").read().splitlines() if " " in l)
        r = Run(head["prop"], "quick", seed)
        try:
            r.build()
            v = head["variant"]
            if v not in r.exe: v = "san"
            j = next((j for j in r.cfg["jobs"] if j["sub"] == head["sub"]), {})
            if "run" in head:
                q = subprocess.run([r.exe[v], "run", "--runfile", os.path.abspath(a[1]), "--out", os.path.join(r.scratch, "rr")] + r.args(v), env=ENV, cwd=r.scratch)
                bad = q.returncode == 1
                print("FAIL" if bad else "PASS")
            else:
                rc, out = r.replay(v, os.path.abspath(a[1]), 1, j, quiet=False)
                print(out); bad = rc == 1
            if bad: print("VIOLATION property=%s replay=%s" % (head["prop"], os.path.abspath(a[1])))
            return 1 if bad else 0
        finally: shutil.rmtree(r.scratch, ignore_errors=True)
    if a[0] == "setup":
        tree = tree_dir()
        srcs = CORE + sorted({s for c in PLAN.PROPS.values() for s in c["src"]})
        build_harness(srcs)
        for n in VARIANTS: build_lib(tree, n)
        print("ok"); return 0
    if a[0] == "dict-baseline":
        tree = tree_dir(); d = make_dict(tree, build_lib(tree, "rel"))
        with open(os.path.join(HERE, "dict_base.txt"), "w") as f:
            f.write("\n".join(sorted({l.split()[1] for l in open(d)}, key=int)) + "\n")
        return 0
    return 2

if __name__ == "__main__": sys.exit(main())
