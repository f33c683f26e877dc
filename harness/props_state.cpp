// C09 lifecycle histories, C11 I/O faults, C13 statistics, C14 parameters, C20 logging.
#include "spec.h"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <cmath>
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

// ------------------------------------------------------------------ C09
namespace {
struct LSig { rs_signature_t *s = nullptr; int users = 0; bool ready = false, usable = false; int src = -1; bool owner_alive = false; };
struct LJob {
    int kind; rs_job_t *j = nullptr; const Bytes *in = nullptr; const Bytes *ref = nullptr; rs_result refres = RS_DONE; Bytes refslack;
    size_t pos = 0; Bytes ibuf; Bytes out; bool fin = false; rs_result res = RS_DONE; int sig = -1; Basis basis; bool eof = false; bool prefix_only = false; uint64_t calls = 0;
};
// Fixture: contents with reference results, computed alone before the history.
struct Fix {
    Bytes basis, nw; uint32_t magic; size_t bl, sl; Bytes sigb, delta, bad_sig, bad_delta; rs_result bad_sig_res, bad_delta_res; Bytes bad_delta_out;
};
}
static void history(Ctx &c, Src &s, std::vector<Fix> &fx, unsigned nops, bool &leak, std::string &trace, bool &nontriv) {
    std::vector<std::unique_ptr<LJob>> jobs;
    std::vector<std::unique_ptr<LSig>> sigs;
    lib_heap_reset();
    unsigned maxlive = 0, abandoned = 0, shared = 0;
    auto step = [&](LJob &l, size_t ni, size_t no) {
        if (l.fin) return;
        size_t left = l.ibuf.size();
        size_t add = std::min(ni, l.in->size() - l.pos);
        (void)left;
        Bytes nb(l.ibuf); nb.insert(nb.end(), l.in->begin() + l.pos, l.in->begin() + l.pos + add);
        l.ibuf.swap(nb);
        l.pos += add;
        if (l.pos == l.in->size() && (l.eof || s.flip() || add == 0)) l.eof = true;
        Bytes ob(no);
        rs_buffers_t b; memset(&b, 0, sizeof b);
        Bytes ic(l.ibuf);       // private copy for this call
        b.next_in = (char *)ic.data(); b.avail_in = ic.size(); b.eof_in = l.eof;
        b.next_out = (char *)ob.data(); b.avail_out = no;
        rs_result r;
        { LibScope sc; r = rs_job_iter(l.j, &b); }
        l.calls++;
        CHECK(b.avail_in <= ic.size() && b.avail_out <= no, "buffer accounting is wrong");
        size_t used = ic.size() - b.avail_in, made = no - b.avail_out;
        l.ibuf.erase(l.ibuf.begin(), l.ibuf.begin() + used);
        l.out.insert(l.out.end(), ob.begin(), ob.begin() + made);
        if (l.ref) {
            CHECK(l.out.size() <= l.ref->size() && (l.out.empty() || !memcmp(l.out.data(), l.ref->data(), l.out.size())),
                  "%s job advanced among others: output (%zu bytes) is not a prefix of what it outputs alone (%zu bytes)", KINDS[l.kind], l.out.size(), l.ref->size());
        }
        if (r == RS_BLOCKED) return;
        l.fin = true; l.res = r;
        CHECK(r == l.refres, "%s job advanced among others ended with %s, alone with %s", KINDS[l.kind], res_name(r), res_name(l.refres));
        if (r == RS_DONE && l.ref) expect_same(l.out, *l.ref, "output of a job advanced among others");
        if (r == RS_DONE && l.kind == 3) {
            RefDelta rd; Bytes o, none;
            std::string e = ref_parse_delta(l.out, rd);
            CHECK(e.empty(), "signature-less delta: %s", e.c_str());
            e = ref_apply(rd, l.out, none, o);
            CHECK(e.empty(), "%s", e.c_str());
            expect_same(o, *l.in, "content of signature-less delta");
        }
        if (l.kind == 1 && l.sig >= 0) { sigs[l.sig]->usable = r == RS_DONE; }
    };
    auto freejob = [&](size_t i) {
        LJob &l = *jobs[i];
        if (!l.fin) abandoned++;
        rs_result r;
        { LibScope sc; r = rs_job_free(l.j); }
        CHECK(r == RS_DONE, "rs_job_free returned %s", res_name(r));
        if (l.sig >= 0) {
            if (l.kind == 1) { sigs[l.sig]->owner_alive = false; if (!l.fin) sigs[l.sig]->usable = false; }
            else sigs[l.sig]->users--;
        }
        jobs.erase(jobs.begin() + i);
    };
    auto freesig = [&](size_t i) {
        { LibScope sc; rs_free_sumset(sigs[i]->s); }
        sigs[i]->s = nullptr; sigs[i]->usable = false;
    };
    auto in_scope = [&](rs_job_t *j) { CHECK(j, "a job could not be created"); return j; };
    for (unsigned op = 0; op < nops; op++) {
        unsigned k = s.weighted({4, 12, 3, 2});
        if (k == 0 && jobs.size() < 8) {
            std::unique_ptr<LJob> l(new LJob);
            Fix &f = fx[s.draw(0, fx.size() - 1)];
            switch (s.weighted({2, 4, 5, 1, 3, 1})) {
            case 0: l->kind = 0; l->in = &f.basis; l->ref = &f.sigb; { LibScope sc; l->j = rs_sig_begin(f.bl, f.sl, (rs_magic_number)f.magic); } in_scope(l->j); trace += "new-sig "; break;
            case 1: {
                l->kind = 1; bool bad = s.chance(1, 3);
                l->in = bad ? &f.bad_sig : &f.sigb; l->refres = bad ? f.bad_sig_res : RS_DONE;
                std::unique_ptr<LSig> g(new LSig); g->src = (int)(&f - &fx[0]); if (bad) g->src = -1; g->owner_alive = true;
                { LibScope sc; l->j = rs_loadsig_begin(&g->s); } in_scope(l->j);
                l->sig = (int)sigs.size(); sigs.push_back(std::move(g));
                trace += bad ? "new-load(damaged) " : "new-load ";
                break;
            }
            case 2: {             // delta on a loaded signature
                std::vector<int> ok;
                for (size_t i = 0; i < sigs.size(); i++) if (sigs[i]->s && sigs[i]->usable && sigs[i]->src >= 0) ok.push_back((int)i);
                if (ok.empty()) continue;
                int gi = s.pick(ok); LSig &g = *sigs[gi];
                if (!g.ready) { rs_result r; { LibScope sc; r = rs_build_hash_table(g.s); } CHECK(r == RS_DONE, "rs_build_hash_table: %s", res_name(r)); g.ready = true; }
                Fix &gf = fx[g.src];
                l->kind = 2; l->in = &gf.nw; l->ref = &gf.delta; l->sig = gi;
                if (g.users++) shared++;
                { LibScope sc; l->j = rs_delta_begin(g.s); } in_scope(l->j);
                trace += strf("new-delta(sig%d) ", gi);
                break;
            }
            case 3: l->kind = 3; l->in = &f.nw; { LibScope sc; l->j = rs_delta_begin(nullptr); } in_scope(l->j); trace += "new-slack "; break;
            case 4: {
                bool bad = s.chance(1, 3);
                l->kind = 4; l->in = bad ? &f.bad_delta : &f.delta; l->ref = bad ? &f.bad_delta_out : &f.nw; l->refres = bad ? f.bad_delta_res : RS_DONE;
                l->basis.data = &f.basis; l->basis.seed = s.draw(0, 999); if (s.flip()) { l->basis.partial = 6; l->basis.own = 6; }
                { LibScope sc; l->j = rs_patch_begin(basis_cb, &l->basis); } in_scope(l->j);
                trace += bad ? "new-patch(damaged) " : "new-patch ";
                break;
            }
            default: {            // invalid parameters: the job fails when first advanced
                l->kind = 0; l->in = &f.basis; static const Bytes none; l->ref = &none;
                unsigned w = (unsigned)s.draw(0, 2);
                { LibScope sc; l->j = rs_sig_begin(512, w == 0 ? 33 : w == 1 ? 17 : 8, (rs_magic_number)(w == 2 ? 0x12345 : w == 1 ? M_RK_MD4 : M_BLAKE2)); } in_scope(l->j);
                l->refres = w == 2 ? RS_BAD_MAGIC : RS_PARAM_ERROR;
                trace += "new-sig(invalid) ";
            }
            }
            jobs.push_back(std::move(l));
            maxlive = std::max<unsigned>(maxlive, (unsigned)jobs.size());
        } else if (k == 1 && !jobs.empty()) {
            LJob &l = *jobs[s.draw(0, jobs.size() - 1)];
            unsigned reps = (unsigned)s.draw(1, 3);
            for (unsigned q = 0; q < reps; q++) { size_t m = std::max<size_t>(600, l.in->size() / 3); step(l, s.chance(1, 5) ? l.in->size() : s.size(0, m), s.chance(1, 5) ? 100000 : s.size(0, m)); }
            if (trace.size() < 300) trace += "step ";
        } else if (k == 2 && !jobs.empty()) {
            trace += "free-job ";
            freejob(s.draw(0, jobs.size() - 1));
        } else if (k == 3) {
            std::vector<int> ok;
            for (size_t i = 0; i < sigs.size(); i++) if (sigs[i]->s && !sigs[i]->users && !sigs[i]->owner_alive) ok.push_back((int)i);
            if (!ok.empty()) { trace += "free-sig "; freesig(s.pick(ok)); }
        }
    }
    // finish or abandon what is left, then release everything
    while (!jobs.empty()) {
        size_t i = s.draw(0, jobs.size() - 1);
        if (!s.chance(1, 3)) for (unsigned g = 0; !jobs[i]->fin; g++) { step(*jobs[i], 4000, 4000); CHECK(g < 100000, "job does not finish"); }
        freejob(i);
    }
    for (size_t i = 0; i < sigs.size(); i++) if (sigs[i]->s) freesig(i);
    leak = lib_heap_available() && lib_live_blocks() != 0;
    nontriv = maxlive >= 2;
    if (abandoned) c.label("abandoned-jobs");
    if (shared) c.label("shared-signature");
    if (maxlive >= 4) c.label("4+live-jobs");
}
static void c09(Ctx &c, unsigned maxops, size_t maxn) {
    Src &s = c.s;
    std::vector<Fix> fx(s.draw(1, 3));
    Iface w;
    for (auto &f : fx) {
        f.magic = gen_magic(s); f.bl = gen_block_len(s, 300); f.sl = gen_strong_len(s, f.magic, 8);
        gen_pair(s, f.bl, f.magic, maxn, maxn, f.basis, f.nw);
        if (f.basis.empty()) f.basis.resize(1 + f.bl, 9);
        f.sigb = ref_sig(f.basis, f.magic, f.bl, f.sl).encode();
        { SigHolder h; load_ok(f.sigb, h); RunResult d = op_delta(h.s, f.nw, w); CHECK(d.res == RS_DONE, "delta alone failed: %s", res_name(d.res)); f.delta = d.out; }
        f.bad_sig = f.sigb; mutate(s, f.bad_sig, 0);
        if (f.bad_sig.size() >= 8 && get_be(&f.bad_sig[4], 4) > 1000000) f.bad_sig[4] |= 0x80;
        { SigHolder h; f.bad_sig_res = op_load(f.bad_sig, &h.s, w).res; }
        f.bad_delta = f.delta; mutate(s, f.bad_delta, 3);
        { Basis b; b.data = &f.basis; RunResult r = op_patch(b, f.bad_delta, w); f.bad_delta_res = r.res; f.bad_delta_out = r.out; if (r.out.size() > 4 * maxn + 100000) throw Discard(); }
    }
    unsigned nops = (unsigned)s.draw(4, maxops);
    uint64_t seed = 0; (void)seed;
    size_t mark = s.rec.size();
    bool leak = false, nt = false; std::string tr;
    history(c, s, fx, nops, leak, tr, nt);
    if (leak) {                 // run the identical history again: a leak must show again
        size_t n1 = lib_live_blocks(), b1 = lib_live_bytes();
        std::vector<uint64_t> sub(s.rec.begin() + mark, s.rec.end());
        Src again(sub);
        bool leak2 = false, nt2; std::string tr2;
        history(c, again, fx, nops, leak2, tr2, nt2);
        CHECK(!leak2, "%zu library allocations (%zu bytes) are still live after every job and signature was freed: %s", n1, b1, tr.substr(0, 600).c_str());
    }
    c.nontrivial = nt;
    c.cases = nops;
    c.describe("%u operations: %s", nops, tr.substr(0, 300).c_str());
}

// Callbacks of one operation run other operations to completion, up to three deep.
extern bool g_fixed_buflen;
static void c09_nest(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s; const unsigned n = (unsigned)s.draw(2, 4);
    std::vector<JobSpec> j(n); std::vector<SigHolder> sg(n); std::vector<Bytes> probe(n); std::vector<Outcome> ref(n); std::vector<Iface> f(n);
    std::string d;
    for (unsigned i = 0; i < n; i++) {
        gen_spec(s, j[i], sg[i], probe[i], maxn, maxbl);
        ref[i] = run_spec(j[i], Iface(), probe[i]);
        f[i] = gen_iface(s, j[i].in.size(), j[i].in.size());
        if (!i && f[i].kind == 0) f[i].kind = j[i].kind == 4 ? (int)s.draw(0, 1) : 1;
        if (f[i].kind == 2 && (j[i].kind == 3 || (j[i].kind == 4 && j[i].damaged))) f[i].kind = 1;
        d += strf("%s%s", i ? " | " : "", j[i].desc.c_str());
    }
    size_t before = lib_live_blocks();
    Rng r(s.draw(0, 1 << 20)); unsigned every = (unsigned)s.draw(1, 12); int depth = 0; unsigned nested = 0, deep = 0; std::string err;
    struct Reset { ~Reset() { g_cb_hook = nullptr; g_fixed_buflen = false; } } reset;
    g_fixed_buflen = true;
    g_cb_hook = [&] {
        if (depth >= 3 || nested >= 40 || !err.empty() || r.next() % every) return;
        unsigned k = (unsigned)(r.next() % n);
        depth++; nested++; if (depth > 1) deep++;
        try { Outcome o = run_spec(j[k], f[k], probe[k]); compare_spec(j[k], ref[k], o, f[k]); }
        catch (Failure &e) { if (err.empty()) err = strf("while a callback of another operation was running: %s", e.msg.c_str()); }
        catch (Discard &) { }
        depth--;
    };
    Outcome o = run_spec(j[0], f[0], probe[0]);
    g_cb_hook = nullptr;
    CHECK(err.empty(), "%s [%s]", err.c_str(), d.c_str());
    try { compare_spec(j[0], ref[0], o, f[0]); } catch (Failure &e) { fail("with %u operations run inside its callbacks: %s", nested, e.msg.c_str()); }
    if (lib_heap_available()) CHECK(lib_live_blocks() == before, "%zd blocks of memory left after nested operations [%s]", (ssize_t)(lib_live_blocks() - before), d.c_str());
    c.nontrivial = nested > 0;
    if (deep) c.label("deep");
    c.describe("%u operations nested in callbacks (%u deeper) of %s", nested, deep, d.c_str());
}
PROPERTY(C09, nested) { c09_nest(c, 1500, 300); }
PROPERTY(C09, bignested) { c09_nest(c, 100000, 5000); }
PROPERTY(C09, hist) { c09(c, 60, 1500); }
PROPERTY(C09, longhist) { c09(c, 500, 6000); }
PROPERTY(C09, bighist) { c09(c, 30, 300000); }
// whole-file calls and single jobs leave nothing behind, whatever their outcome
static void c09_single(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, maxn, maxbl);
    Iface f = gen_iface(s, j.in.size(), 500);
    if (j.kind >= 2 && j.kind <= 3 && f.kind == 2 && !j.sig) f.kind = 0;
    int64_t cancel = s.chance(1, 3) ? (int64_t)s.size(0, 20) : -1;
    size_t n[2] = {0, 0}, by = 0;
    for (int round = 0; round < 2; round++) {
        lib_heap_reset();
        if (cancel < 0) run_spec(j, f, probe);
        else {
            rs_signature_t *ls = nullptr;
            Basis b; b.data = &j.basis;
            JobHolder h; SigHolder sh;
            {
                LibScope l;
                h.j = j.kind == 0 ? rs_sig_begin(j.sp.block_len, j.sp.strong_len, (rs_magic_number)j.sp.magic) : j.kind == 1 ? rs_loadsig_begin(&ls) : j.kind == 4 ? rs_patch_begin(basis_cb, &b) : rs_delta_begin(j.sig);
            }
            sh.s = ls;
            PushOpts o; o.stop_after_calls = cancel;
            Plan p = f.plan;
            if (f.kind) { p = whole_plan(); p.whole_in = p.whole_out = false; p.in_max = 7; p.out_max = 5; }
            run_push(h.j, j.in, p, o);
            if (s.exhausted()) {}
            h.reset();
        }
        n[round] = lib_live_blocks(); by = lib_live_bytes();
        if (!n[round]) break;
    }
    CHECK(!(n[0] && n[1]), "%s via %s%s: %zu allocations (%zu bytes) still live after everything was freed", j.desc.c_str(), f.str().c_str(), cancel >= 0 ? strf(", abandoned after %lld calls", (long long)cancel).c_str() : "", n[1], by);
    c.nontrivial = true;
    c.label(KINDS[j.kind]); if (cancel >= 0) c.label("abandoned"); if (j.damaged) c.label("damaged"); if (f.kind == 2) c.label("file");
    c.describe("%s via %s%s", j.desc.c_str(), f.str().c_str(), cancel >= 0 ? strf(", abandoned after %lld calls", (long long)cancel).c_str() : "");
}
PROPERTY(C09, single) { c09_single(c, 3000, 300); }
PROPERTY(C09, bigsingle) { c09_single(c, 400000, 100000); }

// ------------------------------------------------------------------ C11
namespace {
struct FOp { int kind; Bytes in, basis, ref; SigP sp; Bytes sigb; std::string desc; std::string refdump; };
struct Fault { int where = 0; /* 0 none 1 in-read 2 out-write 3 basis-read 4 basis-seek */ int64_t at = 0; int times = -1; int err = EIO; };
struct IoCfg { size_t sb_in, sb_out, sb_basis, rmax, wmax; bool seek_in; int inbuf, outbuf; int basis_kind; bool nostats; };
}
static void gen_fop(Src &s, FOp &o, size_t maxn) {
    o.kind = (int)s.weighted({3, 2, 3, 4});
    uint32_t magic = gen_magic(s);
    size_t bl = gen_block_len(s, 200), sl = gen_strong_len(s, magic, 8);
    if (o.kind == 3) {
        DeltaProg g = gen_delta(s, 12, std::max<size_t>(60, maxn / 8), std::max<size_t>(60, maxn / 3), false);
        o.in = g.delta; o.basis = g.basis; o.ref = g.expect; o.desc = strf("patch, %zu commands", g.cmds);
    } else if (o.kind == 2) {
        Bytes basis; gen_pair(s, bl, magic, maxn, maxn, basis, o.in);
        if (basis.empty()) basis.resize(bl, 3);
        o.sigb = ref_sig(basis, magic, bl, sl).encode();
        SigHolder h; load_ok(o.sigb, h); Iface w; RunResult d = op_delta(h.s, o.in, w); CHECK(d.res == RS_DONE, "delta alone failed");
        o.ref = d.out; o.desc = strf("delta of %zu bytes", o.in.size());
    } else {
        Bytes basis = gen_content(s, s.size(0, maxn), bl);
        o.sp.magic = magic; o.sp.block_len = bl; o.sp.strong_len = sl;
        Bytes sg = ref_sig(basis, magic, bl, sl).encode();
        if (o.kind == 0) { o.in = basis; o.ref = sg; o.desc = strf("signature of %zu bytes", o.in.size()); }
        else { o.in = sg; o.desc = strf("load of %zu bytes", sg.size()); SigHolder h; load_ok(sg, h); o.refdump = dump_text(h.s); }
    }
}
static bool c11_run(const FOp &o, const Fault &f, const IoCfg &io, std::string &what) {
    MemFile mi, mo, mb;
    mi.data = o.in; mb.data = o.basis;
    mi.rmax = io.rmax; mb.rmax = io.rmax; mo.wmax = io.wmax; mi.can_seek = io.seek_in;
    mi.err = mo.err = mb.err = f.err;
    if (f.where == 1) { mi.fail_read_at = f.at; mi.fail_read_times = f.times; }
    if (f.where == 2) { mo.fail_write_at = f.at; mo.fail_write_times = f.times; }
    if (f.where == 3) { mb.fail_read_at = f.at; mb.fail_read_times = f.times; }
    if (f.where == 4) { mb.fail_seek_no = f.at; }
    FILE *fi = mem_open(&mi, "r", io.sb_in), *fo = o.kind == 1 ? nullptr : mem_open(&mo, "w", io.sb_out), *fb = o.kind == 3 ? mem_open(&mb, "r", io.sb_basis) : nullptr;
    rs_inbuflen = io.inbuf; rs_outbuflen = io.outbuf;
    rs_result r; rs_stats_t sts, *st = io.nostats ? nullptr : &sts; SigHolder sh;
    errno = 0;
    if (o.kind == 2) { load_ok(o.sigb, sh); }
    {
        LibScope l;
        switch (o.kind) {
        case 0: r = rs_sig_file(fi, fo, o.sp.block_len, o.sp.strong_len, (rs_magic_number)o.sp.magic, st); break;
        case 1: r = rs_loadsig_file(fi, &sh.s, st); break;
        case 2: r = rs_delta_file(sh.s, fi, fo, st); break;
        default: r = rs_patch_file(fb, fi, fo, st); break;
        }
    }
    rs_inbuflen = rs_outbuflen = 0;
    int ce = 0;
    std::string dump;
    if (o.kind == 1 && r == RS_DONE) { LibScope l; rs_result q = rs_build_hash_table(sh.s); if (q != RS_DONE) fail("rs_build_hash_table: %s", res_name(q)); }
    if (o.kind == 1 && r == RS_DONE) dump = dump_text(sh.s);
    fclose(fi);
    if (fo) ce = fclose(fo);
    if (fb) fclose(fb);
    bool hit = mi.read_failed || mo.write_failed || mb.read_failed || (f.where == 4 && mb.seek_failed);
    bool forever = f.times < 0;
    what = strf("%s, fault=%s at %lld%s errno=%d (reached: %s), result %s, close %d, output %zu of %zu; buffers in=%d out=%d stdio=%zd/%zd/%zd short=%zd/%zd", o.desc.c_str(),
                (const char *[]){"none", "input read", "output write", "basis read", "basis seek"}[f.where], (long long)f.at, forever ? "" : " (once)", f.err, hit ? "yes" : "no", res_name(r), ce, mo.data.size(), o.ref.size(),
                io.inbuf, io.outbuf, (ssize_t)io.sb_in, (ssize_t)io.sb_out, (ssize_t)io.sb_basis, (ssize_t)io.rmax, (ssize_t)io.wmax);
    CHECK(r == RS_DONE || r >= 100, "%s", what.c_str());
    bool ok = r == RS_DONE && ce == 0;
    if (ok) {
        if (o.kind == 1) CHECK(dump == o.refdump, "load reported success but the signature is not the one in the file: %s", what.c_str());
        else CHECK(mo.data == o.ref, "success reported but the output is wrong: %s", what.c_str());
    }
    if (!hit) CHECK(ok, "no operation failed but the call did not succeed: %s", what.c_str());
    else if (forever) {
        // a patch that has seen its end command has no need of later input
        bool lenient = o.kind == 3 && f.where == 1;
        if (!lenient) CHECK(!ok, "an I/O failure went unreported: %s", what.c_str());
        if (r != RS_DONE) CHECK(r == RS_IO_ERROR, "a failed read, write or seek was reported as %s: %s", res_name(r), what.c_str());
    }
    return hit;
}
static IoCfg gen_io(Src &s) {
    IoCfg io;
    auto sb = [&]() -> size_t { switch (s.weighted({4, 2, 4})) { case 0: return SIZE_MAX; case 1: return 0; default: return s.size(1, 300); } };
    io.sb_in = sb(); io.sb_out = sb(); io.sb_basis = sb();
    io.rmax = s.flip() ? SIZE_MAX : s.size(1, 200); io.wmax = SIZE_MAX; // glibc treats a short write from a stream cookie as an error
    io.seek_in = s.flip();
    auto bl = [&]() -> int { return s.flip() ? 0 : (int)s.size(1, 300); };
    io.inbuf = bl(); io.outbuf = bl(); io.basis_kind = 0;
    io.nostats = s.chance(1, 4);
    return io;
}
PROPERTY(C11, faults) {
    Src &s = c.s;
    FOp o; gen_fop(s, o, s.chance(1, 6) ? 200000 : 3000);
    IoCfg io = gen_io(s);
    if (o.in.size() > 20000 || o.ref.size() > 20000) { if (io.inbuf) io.inbuf += 300; if (io.outbuf) io.outbuf += 300; }
    Fault f;
    f.where = o.kind == 3 ? (int)s.draw(0, 4) : o.kind == 1 ? (int)s.draw(0, 1) : (int)s.draw(0, 2);
    size_t span = f.where == 1 ? o.in.size() : f.where == 2 ? o.ref.size() : f.where == 3 ? o.basis.size() : 12;
    f.at = (int64_t)(s.flip() ? s.draw(0, span) : s.size(0, span));
    if (s.chance(1, 5)) f.at = (int64_t)span;
    f.times = s.chance(1, 5) ? 1 : -1;
    f.err = s.chance(1, 2) ? EIO : s.pick(std::vector<int>{ENOSPC, EINTR, EAGAIN, EISDIR, EFBIG, EBADF, 0});
    std::string what;
    bool hit = c11_run(o, f, io, what);
    c.nontrivial = hit || f.where == 0;
    c.label((const char *[]){"no-fault", "input-read", "output-write", "basis-read", "basis-seek"}[f.where]);
    c.label((const char *[]){"sig", "load", "delta", "patch"}[o.kind]);
    if (hit) c.label("fault-reached");
    c.describe("%s", what.c_str());
}
// every byte position of every stream, for a small operation
PROPERTY(C11, exhaust) {
    Src &s = c.s;
    FOp o; gen_fop(s, o, 150);
    IoCfg io = gen_io(s);
    std::string what;
    c.cases = 0;
    unsigned hits = 0;
    auto all = [&](int where, size_t span) {
        for (size_t i = 0; i <= span; i++) { Fault f; f.where = where; f.at = (int64_t)i; hits += c11_run(o, f, io, what); c.cases++; }
    };
    { Fault f; c11_run(o, f, io, what); c.cases++; }
    all(1, o.in.size());
    if (o.kind != 1) all(2, o.ref.size());
    if (o.kind == 3) { all(3, o.basis.size()); all(4, 10); }
    c.nontrivial = hits > 0;
    c.label((const char *[]){"sig", "load", "delta", "patch"}[o.kind]);
    c.describe("%s: every fault position (%llu runs, %u faults reached), stdio %zd/%zd/%zd short %zd/%zd bufs %d/%d", o.desc.c_str(), (unsigned long long)c.cases, hits, (ssize_t)io.sb_in, (ssize_t)io.sb_out, (ssize_t)io.sb_basis, (ssize_t)io.rmax, (ssize_t)io.wmax, io.inbuf, io.outbuf);
}

// ------------------------------------------------------------------ C13
static void check_text(const rs_stats_t &st, const std::string &t, const char *what) {
    auto has = [&](const std::string &x) { CHECK(t.find(x) != std::string::npos, "%s does not contain \"%s\": %s", what, x.c_str(), t.c_str()); };
    auto hasnt = [&](const char *x) { CHECK(t.find(x) == std::string::npos, "%s has a %s section although the counts are zero: %s", what, x, t.c_str()); };
    has(strf("%s statistics: ", st.op ? st.op : "noop"));
    if (st.lit_cmds) has(strf("literal[%d cmds, %lld bytes, %lld cmdbytes]", st.lit_cmds, (long long)st.lit_bytes, (long long)st.lit_cmdbytes)); else hasnt("literal[");
    if (st.sig_cmds) has(strf("in-place-signature[%lld cmds, %lld bytes]", (long long)st.sig_cmds, (long long)st.sig_bytes));
    if (st.copy_cmds || st.false_matches) has(strf("copy[%lld cmds, %lld bytes, %lld cmdbytes, %d false]", (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, st.false_matches)); else hasnt("copy[");
    if (st.sig_blocks) has(strf("signature[%lld blocks, %zu bytes per block]", (long long)st.sig_blocks, st.block_len));
    size_t at = t.find("speed[");
    CHECK(at != std::string::npos, "%s has no speed section: %s", what, t.c_str());
    std::string in = strf("speed[%.1f MB (", (double)st.in_bytes / 1e6), out = strf(" in, %.1f MB (", (double)st.out_bytes / 1e6);
    has(in); has(out);
    CHECK(t.find("inf") == std::string::npos && t.find("nan") == std::string::npos, "%s has a meaningless rate: %s", what, t.c_str());
    if (st.end > st.start) {
        double d = (double)(st.end - st.start);
        has(strf("(%.1f MB/s) in,", (double)st.in_bytes / 1e6 / d)); has(strf("(%.1f MB/s) out, %lld sec]", (double)st.out_bytes / 1e6 / d, (long long)(st.end - st.start)));
    }
}
static void c13(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, maxn, maxbl);
    if (j.damaged) { // statistics are claimed for completed jobs
        Iface w; Outcome o = run_spec(j, w, probe);
        if (o.res != RS_DONE) throw Discard();
    }
    Iface f = gen_iface(s, j.in.size(), j.in.size() / 2);
    f.nostats = false;
    if (f.kind == 2 && j.kind == 3 && !j.sig) f.kind = 0;
    RunResult r; SigHolder h;
    memset(&r.stats, 0x5a, sizeof r.stats);
    time_t t0 = time(nullptr);
    switch (j.kind) {
    case 0: r = op_sig(j.in, j.sp, f); break;
    case 1: r = op_load(j.in, &h.s, f); break;
    case 4: { Basis b; b.data = &j.basis; b.partial = j.partial; b.own = j.own; b.seed = j.bseed; r = op_patch(b, j.in, f); break; }
    default: r = op_delta(j.sig, j.in, f);
    }
    time_t t1 = time(nullptr);
    CHECK(r.res == RS_DONE, "%s failed: %s", j.desc.c_str(), res_name(r.res));
    const rs_stats_t &st = r.stats;
    static const char *OPS[] = {"signature", "loadsig", "delta", "delta", "patch"};
    CHECK(st.op && !strcmp(st.op, OPS[j.kind]), "%s: statistics name the operation \"%s\"", j.desc.c_str(), st.op ? st.op : "(null)");
    CHECK(st.start >= t0 && st.end <= t1 && st.start <= st.end, "%s: start/end times %lld..%lld outside the run %lld..%lld", j.desc.c_str(), (long long)st.start, (long long)st.end, (long long)t0, (long long)t1);
    long long lc = 0, lb = 0, lh = 0, cc = 0, cb = 0, ch = 0, sb = 0, bl = 0;
    size_t insize = j.in.size();
    if (j.kind >= 2) {
        RefDelta rd;
        std::string e = ref_parse_delta(j.kind == 4 ? j.in : r.out, rd, true);
        CHECK(e.empty(), "%s: delta does not parse: %s", j.desc.c_str(), e.c_str());
        lc = rd.lit_cmds; lb = rd.lit_bytes; lh = rd.lit_hdr; cc = rd.copy_cmds; cb = rd.copy_bytes; ch = rd.copy_hdr;
        c.nontrivial = lc + cc >= 2;
        if (j.kind == 4 && rd.end_at != j.in.size()) insize = SIZE_MAX;
    } else {
        RefSig rs; std::string e;
        const Bytes &sb_ = j.kind == 0 ? r.out : j.in;
        if (j.damaged) throw Discard();
        CHECK(ref_parse_sig(sb_, rs, e), "%s: %s", j.desc.c_str(), e.c_str());
        sb = (long long)rs.e.size(); bl = rs.block_len;
        c.nontrivial = sb >= 1;
    }
    std::string d = j.desc + " via " + f.str();
    CHECK(st.lit_cmds == lc && st.lit_bytes == lb && st.lit_cmdbytes == lh, "%s: literal statistics are %d cmds, %lld bytes, %lld cmdbytes; true values %lld, %lld, %lld", d.c_str(), st.lit_cmds, (long long)st.lit_bytes, (long long)st.lit_cmdbytes, lc, lb, lh);
    CHECK(st.copy_cmds == cc && st.copy_bytes == cb && st.copy_cmdbytes == ch, "%s: copy statistics are %lld cmds, %lld bytes, %lld cmdbytes; true values %lld, %lld, %lld", d.c_str(), (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, cc, cb, ch);
    if (j.kind < 2) CHECK(st.sig_blocks == sb && (long long)st.block_len == bl, "%s: statistics report %lld blocks of %zu bytes; true values %lld of %lld", d.c_str(), (long long)st.sig_blocks, st.block_len, sb, bl);
    if (f.kind == 2) {
        if (insize != SIZE_MAX) CHECK(st.in_bytes == (rs_long_t)insize, "%s: in_bytes is %lld, the input has %zu", d.c_str(), (long long)st.in_bytes, insize);
        CHECK(st.out_bytes == (rs_long_t)r.out.size(), "%s: out_bytes is %lld, the output has %zu", d.c_str(), (long long)st.out_bytes, r.out.size());
        c.label("file");
    }
    char buf[1200];
    { LibScope l; char *q = rs_format_stats(&st, buf, sizeof buf); CHECK(q == buf, "rs_format_stats did not return its buffer"); }
    check_text(st, buf, "formatted statistics");
    { LogCap cap(RS_LOG_INFO); { LibScope l; rs_log_stats(&st); } CHECK(!cap.ev.empty() && cap.ev[0].first <= RS_LOG_INFO, "statistics were not logged"); check_text(st, cap.text(), "logged statistics"); }
    c.label(KINDS[j.kind]);
    c.describe("%s: %s", d.c_str(), buf);
}
PROPERTY(C13, small) { c13(c, 4000, 600); }
PROPERTY(C13, large) { c13(c, 300000, 100000); }
// The match statistics a signature gathers over the deltas made with it.
PROPERTY(C13, match) {
    Src &s = c.s;
    uint32_t magic = gen_magic(s); size_t bl = gen_block_len(s, 300);
    unsigned n = (unsigned)s.draw(1, 3);
    Bytes basis, nw; RefSig rs; SigHolder h;
    long long want = 0, total = 0, lits = 0, weak = 0;
    auto line = [&](const char *when) {
        LogCap cap(RS_LOG_INFO); { LibScope l; rs_signature_log_stats(h.s); }
        std::string t = cap.text();
        CHECK(cap.ev.size() == 1, "%s: %zu messages instead of one", when, cap.ev.size());
        long long f = -1, m = -1, hc = -1, ec = -1, cc = -1; double mp = -1, hp = -1, ep = -1, cp = -1; int end = -1;
        size_t at = t.find("signature[");
        CHECK(at != std::string::npos && t.find("match statistics") != std::string::npos, "no match statistics in the text: %s", t.c_str());
        int k = sscanf(t.c_str() + at, "signature[%lld searches, %lld (%lf%%) matches, %lld (%lfx) weak sum compares, %lld (%lf%%) strong sum compares, %lld (%lf%%) strong sum calcs]%n", &f, &m, &mp, &hc, &hp, &ec, &ep, &cc, &cp, &end);
        CHECK(k == 9 && end > 0, "match statistics are unreadable: %s", t.c_str());
        CHECK(m == want, "%s: the statistics report %lld matches, the deltas copy %lld blocks: %s", when, m, want, t.c_str());
        CHECK(f >= m && f <= total, "%s: %lld searches for %lld matches in %lld bytes of input: %s", when, f, m, total, t.c_str());
        CHECK(cc >= m && cc <= f && ec >= cc, "%s: inconsistent counts (matches <= strong sums computed <= searches, compares): %s", when, t.c_str());
        CHECK(cc <= weak, "%s: %lld strong sums computed, %lld positions have a block's weak sum: %s", when, cc, weak, t.c_str());
        if (f) {
            auto pct = [&](double g, double w, const char *x) { CHECK(g >= w - 0.00051 && g <= w + 0.00051, "%s: %s shown as %.3f, should be %.3f: %s", when, x, g, w, t.c_str()); };
            pct(mp, 100.0 * (double)m / (double)f, "matches"); pct(hp, (double)hc / (double)f, "weak compares");
            pct(ep, 100.0 * (double)ec / (double)f, "strong compares"); pct(cp, 100.0 * (double)cc / (double)f, "strong calculations");
        }
    };
    for (unsigned i = 0; i < n; i++) {
        Bytes b; gen_pair(s, bl, magic, 3000, 3000, i ? b : basis, nw);
        if (!i) {
            rs = ref_sig(basis, magic, bl, gen_strong_len(s, magic, 8)); load_ok(rs.encode(), h);
        }
        Iface f = gen_iface(s, nw.size(), nw.size() / 2);
        RunResult r = op_delta(h.s, nw, f);
        CHECK(r.res == RS_DONE, "delta failed: %s", res_name(r.res));
        RefDelta rd; std::string e = ref_parse_delta(r.out, rd, true);
        CHECK(e.empty(), "delta does not parse: %s", e.c_str());
        if (basis.empty()) { CHECK(!rd.copy_cmds, "copy from an empty basis"); continue; }
        for (auto &k : rd.c) if (k.k == Cmd::COPY) want += (long long)((k.len + bl - 1) / bl);
        total += (long long)nw.size(); lits += (long long)rd.lit_bytes; weak += (long long)ref_greedy(rs, nw).weak_hits;
        if (total && s.flip()) line("between deltas");
    }
    if (total) line("after the last delta");
    c.nontrivial = want > 0; c.cases = n;
    c.label(n > 1 ? "several-deltas" : "one-delta"); if (lits) c.label("literals");
    c.describe("%u deltas with one signature (%zu blocks of %zu): %lld blocks matched, %lld literal bytes of %lld", n, rs.e.size(), bl, want, lits, total);
}
PROPERTY(C13, text) {          // any numbers appear unchanged in the text
    Src &s = c.s;
    rs_stats_t st; memset(&st, 0, sizeof st);
    auto num = [&]() -> rs_long_t { return s.chance(1, 4) ? 0 : (rs_long_t)s.big(0, INT64_MAX); };
    st.op = (const char *[]){"delta", "patch", "signature", "loadsig", nullptr}[s.draw(0, 4)];
    st.lit_cmds = s.chance(1, 4) ? 0 : (int)s.big(0, 0x7fffffff); st.lit_bytes = num(); st.lit_cmdbytes = num();
    st.copy_cmds = num(); st.copy_bytes = num(); st.copy_cmdbytes = num(); st.sig_cmds = s.flip() ? 0 : num(); st.sig_bytes = num();
    st.false_matches = s.flip() ? 0 : (int)s.big(0, 0x7fffffff); st.sig_blocks = num(); st.block_len = (size_t)num(); st.in_bytes = num(); st.out_bytes = num();
    st.start = s.flip() ? 1000 : (time_t)s.big(0, INT32_MAX); st.end = st.start + (time_t)(s.flip() ? s.size(0, 1000) : s.big(0, INT32_MAX));
    char buf[1500];
    { LibScope l; rs_format_stats(&st, buf, sizeof buf); }
    check_text(st, buf, "formatted statistics");
    { LogCap cap(RS_LOG_INFO); { LibScope l; rs_log_stats(&st); } check_text(st, cap.text(), "logged statistics"); }
    c.nontrivial = st.lit_cmds || st.copy_cmds || st.sig_blocks;
    c.describe("%s", buf);
}

// ------------------------------------------------------------------ C14
static int fl2(uint64_t v) { int n = 0; while (v >>= 1) n++; return n; }
static uint64_t isq(uint64_t v) { uint64_t r = (uint64_t)std::sqrt((long double)v); while (r > v / (r ? r : 1) ) r--; while ((r + 1) <= v / (r + 1)) r++; return r; }
static void gen_args(Src &s, int64_t &fs, uint32_t &magic, size_t &bl, size_t &sl) {
    switch (s.weighted({3, 5, 3, 1, 4})) {
    case 0: fs = -1; break;
    case 1: fs = (int64_t)s.big(0, INT64_MAX); break;
    case 2: { int64_t k = (int64_t)s.size(0, 3000000000ull); fs = k * k + (int64_t)s.draw(0, 2) - 1; break; }
    case 3: fs = -(int64_t)s.big(1, INT64_MAX); break;
    default: fs = (int64_t)s.size(0, 1u << 26);
    }
    magic = s.chance(1, 3) ? 0 : s.chance(1, 6) ? (uint32_t)s.big(1, 0xffffffff) : gen_magic(s);
    if (s.chance(1, 20)) magic = (uint32_t)s.pick(std::vector<uint64_t>{M_DELTA, 0x72730138, 0x72730148, 0x72730135, 0x72730145});
    switch (s.weighted({4, 5, 2, 2})) {
    case 0: bl = 0; break;
    case 1: bl = (size_t)s.size(1, 1u << 20); break;
    case 2: bl = (size_t)s.big(1, 0x7fffffff); break;
    default: bl = (size_t)s.big(1, UINT64_MAX);
    }
    switch (s.weighted({3, 3, 6, 2})) {
    case 0: sl = 0; break;
    case 1: sl = (size_t)-1; break;
    case 2: sl = (size_t)s.draw(1, 36); break;
    default: sl = (size_t)s.big(1, UINT64_MAX);
    }
}
// independent decision: returns true when the set must be accepted
static bool args_ok(uint32_t magic, size_t bl, size_t sl) {
    uint32_t m = magic ? magic : (uint32_t)M_RK_BLAKE2;
    if (!magic_is_sig(m)) return false;
    if (bl > 0x7fffffff) return false;
    if (sl != 0 && sl != (size_t)-1 && sl > (size_t)magic_max_strong(m)) return false;
    return true;
}
PROPERTY(C14, args) {
    Src &s = c.s;
    int64_t fs; uint32_t magic; size_t bl, sl;
    gen_args(s, fs, magic, bl, sl);
    rs_magic_number m = (rs_magic_number)magic; size_t b = bl, l = sl;
    rs_result r;
    { LibScope sc; r = rs_sig_args(fs, &m, &b, &l); }
    std::string d = strf("size=%lld magic=%#x block=%zu strong=%zd -> %s magic=%#x block=%zu strong=%zd", (long long)fs, magic, bl, (ssize_t)sl, res_name(r), (unsigned)m, b, (ssize_t)l);
    bool ok = args_ok(magic, bl, sl);
    CHECK(r == RS_DONE || r >= 100, "%s", d.c_str());
    CHECK((r == RS_DONE) == ok, "%s set: %s", ok ? "valid" : "invalid", d.c_str());
    if (magic) CHECK((uint32_t)m == magic, "an explicit magic was altered: %s", d.c_str());
    if (bl) CHECK(b == bl, "an explicit block length was altered: %s", d.c_str());
    if (sl && sl != (size_t)-1) CHECK(l == sl, "an explicit strong length was altered: %s", d.c_str());
    if (magic && !magic_is_sig(magic)) CHECK(r == RS_BAD_MAGIC, "unknown magic: %s", d.c_str());
    if (r == RS_DONE) {
        CHECK(magic_is_sig((uint32_t)m), "returned magic is not a signature magic: %s", d.c_str());
        if (!magic) CHECK((uint32_t)m == M_RK_BLAKE2, "recommended magic is not RabinKarp with BLAKE2: %s", d.c_str());
        CHECK(b >= 1 && b <= 0x7fffffff, "returned block length does not fit the format: %s", d.c_str());
        size_t mx = (size_t)magic_max_strong((uint32_t)m);
        CHECK(l >= 1 && l <= mx, "returned strong length is not in 1..%zu: %s", mx, d.c_str());
        if (!bl) {
            if (fs < 0) CHECK(b == 2048, "unknown size: %s", d.c_str());
            else {
                uint64_t root = isq((uint64_t)fs);
                CHECK(b >= 256, "recommended block length below 256: %s", d.c_str());
                if (fs <= 65536) CHECK(b == 256, "small file: %s", d.c_str());
                else CHECK(b <= std::max<uint64_t>(root, 256) && b + 128 > std::min<uint64_t>(root, 0x7fffffff), "recommended block length is not about sqrt(size)=%llu: %s", (unsigned long long)root, d.c_str());
                if (fs > 65536) CHECK(b % 128 == 0, "recommended block length is not a multiple of 128: %s", d.c_str());
            }
        }
        if (sl == 0) CHECK(l == mx, "maximum requested: %s", d.c_str());
        if (sl == (size_t)-1) {
            if (fs < 0) CHECK(l == 12, "unknown size: %s", d.c_str());
            else {
                uint64_t nf = (uint64_t)fs + (1u << 24), bn = (uint64_t)fs / b + 1;
                size_t lo = 2 + (size_t)(fl2(std::min<uint64_t>(nf, INT64_MAX)) + fl2(bn) + 7) / 8, hi = 2 + (size_t)(fl2(nf) + 1 + fl2(bn) + 1 + 7) / 8;
                CHECK(l >= std::min(lo, mx), "minimum strong length is below the safe minimum %zu: %s", std::min(lo, mx), d.c_str());
                CHECK(l <= std::min(hi, mx), "minimum strong length is above what the rule gives (%zu): %s", std::min(hi, mx), d.c_str());
            }
        }
    }
    c.nontrivial = !bl || !sl || sl == (size_t)-1 || !ok;
    c.label(ok ? "accepted" : "rejected"); if (fs < 0) c.label("size-unknown"); else if (fs > (1ll << 40)) c.label("size>1T");
    c.describe("%s", d.c_str());
}
PROPERTY(C14, use) {
    Src &s = c.s;
    int64_t fs; uint32_t magic; size_t bl, sl;
    gen_args(s, fs, magic, bl, sl);
    if (bl > (4u << 20) && bl <= 0x7fffffff && !s.chance(1, g_san ? 100 : 10)) bl = 1 + bl % (4u << 20);
    bool ok = args_ok(magic, bl, sl);
    Bytes data = gen_content(s, s.size(0, 3000), 64);
    int way = (int)s.draw(0, 2);
    RunResult r; memset(&r.stats, 0, sizeof r.stats);
    SigP p{magic, bl, sl};
    Iface f;
    if (way == 2) { f.kind = 2; f.filekind = (int)s.draw(0, 3); if (f.filekind == 3) {} } else { f.kind = way; f.plan = gen_plan(s, data.size(), 500); }
    r = op_sig(data, p, f);
    std::string d = strf("magic=%#x block=%zu strong=%zd, %zu bytes via %s -> %s", magic, bl, (ssize_t)sl, data.size(), f.str().c_str(), res_name(r.res));
    CHECK((r.res == RS_DONE) == ok, "%s parameters: %s", ok ? "valid" : "invalid", d.c_str());
    if (!ok) { CHECK(r.res >= 100, "%s", d.c_str()); CHECK(r.out.empty(), "rejected parameters still produced output: %s", d.c_str()); }
    else {
        RefSig rs; std::string e;
        CHECK(ref_parse_sig(r.out, rs, e), "%s: %s", d.c_str(), e.c_str());
        rs_magic_number m = (rs_magic_number)magic; size_t b = bl, l = sl;
        int64_t known = way == 2 && f.filekind == 3 ? (int64_t)data.size() : -1; // only real files have a size
        rs_result q;
        { LibScope sc; q = rs_sig_args(known, &m, &b, &l); }
        CHECK(q == RS_DONE && rs.magic == (uint32_t)m && rs.block_len == b && rs.strong_len == l, "%s: signature has magic=%#x block=%u strong=%u, the helper says %#x %zu %zu (%s)", d.c_str(), rs.magic, rs.block_len, rs.strong_len, (unsigned)m, b, l, res_name(q));
        SigHolder h; load_ok(r.out, h);
    }
    c.nontrivial = true;
    c.label(ok ? "accepted" : "rejected"); c.label(way == 2 ? "file" : way ? "pull" : "push");
    c.describe("%s", d.c_str());
}

// A file's real size decides the parameters of rs_sig_file, however large the
// file is: a file of zeros that takes no space, an output that gives up as soon
// as the header is out.
PROPERTY(C14, sigfile) {
    Src &s = c.s;
    int64_t fs; uint32_t magic; size_t bl, sl;
    gen_args(s, fs, magic, bl, sl);
    switch (s.weighted({3, 3, 2, 2})) {
    case 0: fs = (int64_t)(((uint64_t)1 << s.draw(24, 44)) + s.draw(0, 400) - 200); break;
    case 1: fs = (int64_t)s.big(0, 1ull << 44); break;
    case 2: { int64_t k = (int64_t)s.draw(2, 4u << 20); fs = k * k + (int64_t)s.draw(0, 2) - 1; break; }
    default: fs = (int64_t)s.size(0, 200000);
    }
    if (s.chance(3, 4)) bl = 0;
    if (bl > (1u << 20) && bl <= 0x7fffffff) bl = 1 + bl % (1u << 20);
    if (bl && bl < 64) fs = std::min<int64_t>(fs, 1 << 20);
    rs_magic_number m = (rs_magic_number)magic; size_t b = bl, l = sl;
    rs_result q; { LibScope sc; q = rs_sig_args(fs, &m, &b, &l); }
    int fd = memfd_create("vh", 0);
    if (fd < 0 || ftruncate(fd, (off_t)fs)) { if (fd >= 0) close(fd); throw Discard(); }
    FILE *fi = fdopen(fd, "rb"); MemFile mo; mo.fail_write_at = 12 + (int64_t)s.draw(0, 200);
    FILE *fo = mem_open(&mo, "w", 0);
    int64_t at = s.chance(1, 4) ? (int64_t)s.size(0, (uint64_t)fs) : 0;   // where the stream stands does not change the file's size
    if (at && fseeko(fi, (off_t)at, SEEK_SET)) fail("harness: fseeko");
    rs_result r; { LogCap cap(RS_LOG_ERR); LibScope sc; r = rs_sig_file(fi, fo, bl, sl, (rs_magic_number)magic, nullptr); }
    fclose(fo); fclose(fi);
    std::string d = strf("magic=%#x block=%zu strong=%zd for a file of %lld bytes at %lld -> %s", magic, bl, (ssize_t)sl, (long long)fs, (long long)at, res_name(r));
    if (q != RS_DONE) { CHECK(r == q, "%s, the parameter helper says %s", d.c_str(), res_name(q)); CHECK(mo.data.empty(), "rejected parameters still produced output: %s", d.c_str()); }
    else {
        CHECK(r == RS_DONE || r == RS_IO_ERROR, "%s", d.c_str());
        if (r == RS_DONE) CHECK(!mo.write_failed, "a failed write was not reported: %s", d.c_str());
        CHECK(mo.data.size() >= 12, "%s: no header was written", d.c_str());
        uint32_t hm = (uint32_t)get_be(&mo.data[0], 4), hb = (uint32_t)get_be(&mo.data[4], 4), hs = (uint32_t)get_be(&mo.data[8], 4);
        CHECK(hm == (uint32_t)m && hb == b && hs == l, "%s: signature has magic=%#x block=%u strong=%u, the helper says %#x %zu %zu", d.c_str(), hm, hb, hs, (unsigned)m, b, l);
    }
    c.nontrivial = fs > 65536;
    if (fs > 0xffffffffll) c.label(">4GB"); else if (fs > 0x7fffffffll) c.label(">2GB");
    c.describe("%s", d.c_str());
}

// ------------------------------------------------------------------ C20
static uint32_t mix32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
namespace {
struct Ev { int lvl; std::string m; };
std::vector<Ev> s_a, s_b;
void tr_a(rs_loglevel l, char const *m) { OutScope o; s_a.push_back({(int)l, m ? m : "(null)"}); }
void tr_b(rs_loglevel l, char const *m) { OutScope o; s_b.push_back({(int)l, m ? m : "(null)"}); }
struct TraceReset { ~TraceReset() { lib_reset_trace(); } };
}
static void check_line(const Ev &e, int level) {
    CHECK(e.lvl >= 0 && e.lvl <= 7, "message with invalid severity %d: %s", e.lvl, e.m.c_str());
    CHECK(e.lvl <= level, "message of severity %d delivered at level %d: %s", e.lvl, level, e.m.c_str());
    CHECK(!e.m.empty() && e.m.back() == '\n', "message is not a complete line: \"%s\"", e.m.c_str());
    CHECK(e.m.find('\n') == e.m.size() - 1, "message is more than one line: \"%s\"", e.m.c_str());
    CHECK(e.m.size() < 1100, "message of %zu bytes", e.m.size());
    CHECK(e.m.find("(null)") == std::string::npos, "message refers to nothing: \"%s\"", e.m.c_str());
    CHECK(e.m.compare(0, 10, "librsync: ") == 0, "message does not name its origin: \"%s\"", e.m.c_str());
}
struct C20Run { Outcome o; std::vector<Ev> a, b; };
static C20Run c20_run(const JobSpec &j, const Iface &f, const Bytes &probe, int level, int dest) {
    C20Run r; TraceReset tr;
    s_a.clear(); s_b.clear();
    rs_trace_set_level((rs_loglevel)level);
    rs_trace_to(dest == 0 ? tr_a : dest == 1 ? tr_b : (rs_trace_fn_t *)nullptr);
    RunResult x;
    // as run_spec, but without touching the trace settings
    switch (j.kind) {
    case 0: x = op_sig(j.in, j.sp, f); break;
    case 1: { SigHolder h; x = op_load(j.in, &h.s, f); if (x.res == RS_DONE) { { LibScope l; rs_build_hash_table(h.s); } Iface w; RunResult d = op_delta(h.s, probe, w); x.out = d.out; } break; }
    case 4: { Basis b; b.data = &j.basis; b.seed = j.bseed; b.partial = j.partial; b.own = j.own; x = op_patch(b, j.in, f); break; }
    default: x = op_delta(j.sig, j.in, f);
    }
    r.o.res = x.res; r.o.out = x.out; r.a = s_a; r.b = s_b;
    return r;
}
PROPERTY(C20, levels) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, 1500, 200);
    if ((j.kind == 1 || j.kind == 4) && !j.damaged && s.flip()) { mutate(s, j.in, 2); j.damaged = true; if (j.kind == 1 && j.in.size() >= 8 && get_be(&j.in[4], 4) > 100000) j.in[4] |= 0x80; }
    if (j.kind == 0 && s.chance(1, 6)) { j.sp.strong_len = 40; j.damaged = true; }
    Iface f = gen_iface(s, j.in.size(), 500);
    C20Run full = c20_run(j, f, probe, 7, 0);
    for (auto &e : full.a) check_line(e, 7);
    CHECK(full.b.empty(), "a message reached a callback that is not configured");
    bool failed = full.o.res != RS_DONE;
    if (failed) { bool err = false; for (auto &e : full.a) err |= e.lvl <= RS_LOG_ERR; CHECK(err, "%s failed with %s but no error-level message was logged", j.desc.c_str(), res_name(full.o.res)); }
    else for (auto &e : full.a) CHECK(e.lvl > RS_LOG_ERR, "%s succeeded but logged an error: %s", j.desc.c_str(), e.m.c_str());
    bool debug = false; for (auto &e : full.a) debug |= e.lvl == RS_LOG_DEBUG;
    if (debug || !failed) CHECK(debug == !!rs_supports_trace(), "%s: %s debug-level messages, but rs_supports_trace() is %d", j.desc.c_str(), debug ? "there are" : "there are no", rs_supports_trace());
    unsigned n = (unsigned)s.draw(1, 4);
    for (unsigned i = 0; i < n; i++) {
        int level = (int)s.draw(0, 7), dest = (int)s.draw(0, 2);
        C20Run r = c20_run(j, f, probe, level, dest);
        std::string d = strf("%s at level %d to %s", j.desc.c_str(), level, dest == 2 ? "nowhere" : dest ? "callback B" : "callback A");
        CHECK(r.o.res == full.o.res, "%s: result %s, at level 7 %s", d.c_str(), res_name(r.o.res), res_name(full.o.res));
        expect_same(r.o.out, full.o.out, strf("%s: output vs level 7", d.c_str()).c_str());
        const std::vector<Ev> &got = dest == 1 ? r.b : r.a, &other = dest == 1 ? r.a : r.b;
        CHECK(other.empty(), "%s: a message reached the other callback: %s", d.c_str(), other[0].m.c_str());
        if (dest == 2) { CHECK(got.empty(), "%s: a message was delivered: %s", d.c_str(), got[0].m.c_str()); continue; }
        for (auto &e : got) check_line(e, level);
        size_t k = 0;
        for (auto &e : full.a) if (e.lvl <= level) {
            CHECK(k < got.size() && got[k].lvl == e.lvl, "%s: message %zu of severity %d is missing: %s", d.c_str(), k, e.lvl, e.m.c_str());
            k++;
        }
        CHECK(k == got.size(), "%s: %zu messages, expected the %zu at or above the level", d.c_str(), got.size(), k);
    }
    c.cases = n + 1;
    c.nontrivial = !full.a.empty();
    c.label(KINDS[j.kind]); if (failed) c.label("failing-job"); if (full.a.size() > 5) c.label("traced");
    c.describe("%s via %s -> %s, %zu messages at level 7, first: %s", j.desc.c_str(), f.str().c_str(), res_name(full.o.res), full.a.size(), full.a.empty() ? "-" : full.a[0].m.c_str());
}
PROPERTY(C20, dump) {
    Src &s = c.s;
    RefSig g;
    g.magic = gen_magic(s); g.block_len = (uint32_t)s.size(1, 100000); g.strong_len = (uint32_t)gen_strong_len(s, g.magic, 1);
    size_t n = s.chance(1, 5) ? s.size(0, 3000) : s.size(0, 40); Rng r(s.draw(0, 0xffff));
    for (size_t i = 0; i < n; i++) { SigEntry e; e.weak = r.next() % 8 ? (uint32_t)r.next() : (uint32_t)(r.next() % 3); for (auto &x : e.strong) x = (uint8_t)(r.next() % 4 ? r.next() : 0); g.e.push_back(e); }
    SigHolder h;
    Iface f = gen_iface(s, g.encode().size(), 1);
    RunResult l = op_load(g.encode(), &h.s, f);
    CHECK(l.res == RS_DONE, "load failed: %s", res_name(l.res));
    if (s.flip()) { LibScope sc; rs_build_hash_table(h.s); }
    int level = s.chance(1, 5) ? (int)s.draw(0, 7) : RS_LOG_INFO;
    std::vector<Ev> ev;
    { TraceReset t; s_a.clear(); rs_trace_to(tr_a); rs_trace_set_level((rs_loglevel)level); { LibScope sc; rs_sumset_dump(h.s); } ev = s_a; }
    if (level < RS_LOG_INFO) { CHECK(ev.empty(), "dump logged %zu messages at level %d", ev.size(), level); c.label("filtered"); c.describe("dump of %zu blocks filtered at level %d", n, level); return; }
    for (auto &e : ev) { check_line(e, level); }
    if (level == RS_LOG_INFO) CHECK(ev.size() == n + 1, "dump of %zu blocks logged %zu lines", n, ev.size());
    const std::string &h0 = ev.at(0).m;
    CHECK(h0.find(strf("magic=%#x", g.magic)) != std::string::npos && h0.find(strf("block_len=%u,", g.block_len)) != std::string::npos && h0.find(strf("block_num=%zu\n", n)) != std::string::npos,
          "dump header \"%s\" does not show magic=%#x, block_len=%u, block_num=%zu", h0.c_str(), g.magic, g.block_len, n);
    for (size_t i = 0; i < n; i++) {
        const std::string &m = ev.at(i + 1).m;
        std::string hx; for (unsigned k = 0; k < g.strong_len; k++) hx += strf("%02x", g.e[i].strong[k]);
        int idx = -1; unsigned weak = 0; char st[200] = "";
        CHECK(sscanf(m.c_str(), "librsync: sum %d: weak=%x, strong=%150s", &idx, &weak, st) == 3, "dump line %zu is unreadable: %s", i, m.c_str());
        CHECK(idx == (int)i, "dump line %zu is for block %d", i, idx);
        CHECK(hx == st, "dump of block %zu shows strong sum %s, stored %s", i, st, hx.c_str());
        CHECK(weak == g.e[i].weak || (!magic_is_rk(g.magic) && weak == mix32(g.e[i].weak)), "dump of block %zu shows weak sum %08x, stored %08x", i, weak, g.e[i].weak);
    }
    c.nontrivial = n > 0;
    c.describe("dump of %zu blocks, magic=%#x bl=%u sl=%u: %s", n, g.magic, g.block_len, g.strong_len, ev.back().m.c_str());
}
// switching callback and level in the middle of jobs; default destination is standard error
PROPERTY(C20, route) {
    Src &s = c.s;
    unsigned n = (unsigned)s.draw(2, 12);
    TraceReset t;
    std::string script;
    int level = 6; int dest = 0;
    rs_trace_set_level((rs_loglevel)level); rs_trace_to(tr_a);
    std::string path = scratch_path("err");
    bool any = false;
    for (unsigned i = 0; i < n; i++) {
        if (s.flip()) { level = (int)s.draw(0, 7); rs_trace_set_level((rs_loglevel)level); script += strf("level%d ", level); }
        if (s.flip()) { dest = (int)s.draw(0, 3); rs_trace_to(dest == 0 ? tr_a : dest == 1 ? tr_b : dest == 2 ? (rs_trace_fn_t *)nullptr : rs_trace_stderr); script += (const char *[]){"toA ", "toB ", "none ", "stderr "}[dest]; }
        s_a.clear(); s_b.clear();
        int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) fail("harness: open");
        fflush(stderr); int saved = dup(2); dup2(fd, 2);
        unsigned k = (unsigned)s.draw(0, 3); int want = -1;
        { LibScope l;
            if (k == 0) { rs_magic_number m = (rs_magic_number)0x999; size_t b = 0, q = 0; rs_sig_args(-1, &m, &b, &q); want = RS_LOG_ERR; }
            else if (k == 1) { rs_magic_number m = (rs_magic_number)0; size_t b = 0, q = 1; rs_sig_args(1 << 20, &m, &b, &q); want = RS_LOG_WARNING; }
            else if (k == 2) { rs_stats_t st; memset(&st, 0, sizeof st); st.op = "delta"; rs_log_stats(&st); want = RS_LOG_INFO; }
            else { Basis b; Bytes none; b.data = &none; rs_job_t *j = rs_patch_begin(basis_cb, &b); rs_buffers_t bu; memset(&bu, 0, sizeof bu); char in[5] = "bad!"; bu.next_in = in; bu.avail_in = 4; bu.eof_in = 1; char ob[8]; bu.next_out = ob; bu.avail_out = 8; rs_job_iter(j, &bu); rs_job_free(j); want = RS_LOG_ERR; } }
        std::string errtext;
        fflush(stderr); dup2(saved, 2); close(saved);
        { char b[8192]; ssize_t r = pread(fd, b, sizeof b, 0); if (r > 0) errtext.assign(b, (size_t)r); close(fd); unlink(path.c_str()); }
        script += (const char *[]){"bad-magic ", "warn ", "stats ", "bad-delta "}[k];
        std::vector<Ev> got = dest == 1 ? s_b : s_a;
        CHECK((dest == 0 || s_a.empty()) && (dest == 1 || s_b.empty()), "a message reached a callback that is not the configured one: %s", script.c_str());
        if (dest != 3) CHECK(errtext.empty(), "text on standard error although messages go %s: %s (%s)", dest == 2 ? "nowhere" : "to a callback", errtext.c_str(), script.c_str());
        for (auto &e : got) check_line(e, level);
        bool expect = want <= level;
        if (dest <= 1) { CHECK(expect ? !got.empty() : true, "no message at severity %d reached the configured callback at level %d: %s", want, level, script.c_str()); any |= expect; }
        if (dest <= 1 && want > level) for (auto &e : got) CHECK(e.lvl <= level, "filtered message delivered: %s", e.m.c_str());
        if (dest == 3 && level < 7) CHECK(expect == !errtext.empty() , "standard error %s although severity %d at level %d: %s", errtext.empty() ? "stayed empty" : "got text", want, level, script.c_str());
        if (dest == 3 && !errtext.empty()) { CHECK(errtext.back() == '\n' && !errtext.compare(0, 10, "librsync: "), "unexpected text on standard error: %s", errtext.c_str()); any = true; }
    }
    c.nontrivial = any;
    c.cases = n;
    c.describe("%s", script.c_str());
}
