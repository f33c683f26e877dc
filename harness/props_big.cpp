// C19: positions, lengths, buffers and totals beyond 2 GB and 4 GB, using
// virtual streams (content is a function of position), synthesized signatures,
// sparse files and repeated memory mappings.
#include "lib.h"
#include "delta_gen.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
typedef unsigned long long ull;

namespace {
inline uint64_t vword(uint64_t seed, uint64_t i) { uint64_t w = (i + seed * 0x632BE59BD9B4E019ull) * 0x9E3779B97F4A7C15ull; return w ^ (w >> 29); }
void vfill(uint8_t *d, uint64_t seed, uint64_t pos, size_t n) {
    while (n && (pos & 7)) { *d++ = (uint8_t)(vword(seed, pos >> 3) >> (8 * (pos & 7))); pos++; n--; }
    uint64_t i = pos >> 3;
    for (; n >= 8; n -= 8, d += 8, i++) { uint64_t w = vword(seed, i); memcpy(d, &w, 8); }
    pos = i << 3;
    while (n) { *d++ = (uint8_t)(vword(seed, pos >> 3) >> (8 * (pos & 7))); pos++; n--; }
}
// a stream made of literal bytes and virtual ranges
struct VStream {
    struct Seg { uint64_t at, len; bool lit; Bytes b; uint64_t seed, pos; };
    std::vector<Seg> s; uint64_t n = 0;
    void lit(const Bytes &b) { if (b.empty()) return; s.push_back({n, b.size(), true, b, 0, 0}); n += b.size(); }
    void virt(uint64_t seed, uint64_t pos, uint64_t len) { if (!len) return; s.push_back({n, len, false, {}, seed, pos}); n += len; }
    size_t read(uint64_t off, uint8_t *d, size_t k) const {
        if (off >= n) return 0;
        k = (size_t)std::min<uint64_t>(k, n - off);
        size_t done = 0;
        for (auto &g : s) {
            if (off + done >= g.at + g.len || off + done < g.at) continue;
            while (done < k && off + done < g.at + g.len) {
                uint64_t o = off + done - g.at; size_t m = (size_t)std::min<uint64_t>(k - done, g.len - o);
                if (g.lit) memcpy(d + done, g.b.data() + o, m); else vfill(d + done, g.seed, g.pos + o, m);
                done += m;
            }
            if (done == k) break;
        }
        return done;
    }
};
struct Verify {                 // compares produced data with a stream
    const VStream &v; uint64_t at = 0; Bytes tmp; const char *what;
    Verify(const VStream &x, const char *w) : v(x), what(w) {}
    void operator()(const uint8_t *p, size_t n) {
        while (n) {
            size_t k = std::min<size_t>(n, 1 << 20); tmp.resize(k);
            CHECK(at + k <= v.n, "%s is longer than the expected %llu bytes", what, (ull)v.n);
            v.read(at, tmp.data(), k);
            if (memcmp(p, tmp.data(), k)) { size_t i = 0; while (p[i] == tmp[i]) i++; fail("%s differs from the expected data at byte %llu of %llu", what, (ull)(at + i), (ull)v.n); }
            p += k; n -= k; at += k;
        }
    }
    void done() { CHECK(at == v.n, "%s has %llu bytes, expected %llu", what, (ull)at, (ull)v.n); }
};
// feed a virtual stream to a job in pieces of `chunk` bytes
rs_result drive(rs_job_t *job, const VStream &in, size_t chunk, size_t outsz, const std::function<void(const uint8_t *, size_t)> &sink) {
    Bytes ib(chunk), ob(outsz);
    rs_buffers_t b; memset(&b, 0, sizeof b);
    uint64_t at = 0; unsigned idle = 0;
    b.next_in = (char *)ib.data();
    for (;;) {
        if (b.avail_in < chunk / 2 + 1 && at < in.n) {
            memmove(ib.data(), b.next_in, b.avail_in); b.next_in = (char *)ib.data();
            size_t k = in.read(at, ib.data() + b.avail_in, chunk - b.avail_in);
            b.avail_in += k; at += k;
        }
        b.eof_in = at == in.n;
        b.next_out = (char *)ob.data(); b.avail_out = outsz;
        size_t ai = b.avail_in;
        rs_result r = rs_job_iter(job, &b);
        size_t made = outsz - b.avail_out;
        CHECK(b.avail_in <= ai && b.avail_out <= outsz, "buffer accounting went backwards");
        if (made) sink(ob.data(), made);
        if (r == RS_DONE || r != RS_BLOCKED) return r;
        idle = made || ai != b.avail_in ? 0 : idle + 1;
        CHECK(idle < 50, "the job makes no progress");
    }
}
struct VBasis { uint64_t seed, size; uint64_t calls = 0, budget = UINT64_MAX; std::string err; uint64_t want_pos = 0, want_left = 0; };
rs_result vbasis_cb(void *o, rs_long_t pos, size_t *len, void **buf) {
    VBasis *v = (VBasis *)o; v->calls++;
    if (pos < 0) { v->err = strf("negative position %lld requested", (long long)pos); return RS_IO_ERROR; }
    if ((uint64_t)pos >= v->size || !v->budget) return RS_INPUT_ENDED;
    size_t k = (size_t)std::min<uint64_t>(std::min<uint64_t>(*len, v->size - (uint64_t)pos), v->budget);
    vfill((uint8_t *)*buf, v->seed, (uint64_t)pos, k); *len = k; v->budget -= k;
    return RS_DONE;
}
// stdio stream over a virtual stream
struct VFile { const VStream *v; uint64_t pos = 0; };
ssize_t vf_read(void *c, char *b, size_t n) { VFile *f = (VFile *)c; size_t k = f->v->read(f->pos, (uint8_t *)b, n); f->pos += k; return (ssize_t)k; }
int vf_seek(void *c, off64_t *o, int wh) { VFile *f = (VFile *)c; int64_t p = (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->v->n) + *o; if (p < 0) { errno = EINVAL; return -1; } f->pos = (uint64_t)p; *o = p; return 0; }
int vf_close(void *) { return 0; }
FILE *vf_open(VFile *f) { cookie_io_functions_t io = {vf_read, nullptr, vf_seek, vf_close}; FILE *fp = fopencookie(f, "r", io); if (!fp) fail("harness: fopencookie"); setvbuf(fp, nullptr, _IOFBF, 1 << 20); return fp; }
struct SinkFile { std::function<void(const uint8_t *, size_t)> fn; std::string err; };
ssize_t sf_write(void *c, const char *b, size_t n) { SinkFile *f = (SinkFile *)c; if (f->err.empty()) try { f->fn((const uint8_t *)b, n); } catch (Failure &e) { f->err = e.msg; } return (ssize_t)n; }
FILE *sf_open(SinkFile *f) { cookie_io_functions_t io = {nullptr, sf_write, nullptr, vf_close}; FILE *fp = fopencookie(f, "w", io); if (!fp) fail("harness: fopencookie"); setvbuf(fp, nullptr, _IOFBF, 1 << 20); return fp; }
struct BufLens { BufLens(int i, int o) { rs_inbuflen = i; rs_outbuflen = o; } ~BufLens() { rs_inbuflen = rs_outbuflen = 0; } };
struct FCl { FILE *f; ~FCl() { if (f) fclose(f); } };
// repeating pattern mapped over and over
struct BigMap {
    uint8_t *p = nullptr; size_t n = 0, unit; int fd = -1;
    BigMap(size_t bytes, uint64_t seed, size_t u = 16u << 20) : unit(u) {
        n = (bytes + unit - 1) / unit * unit;
        fd = memfd_create("vh", 0);
        if (fd < 0 || ftruncate(fd, (off_t)unit)) fail("harness: memfd");
        p = (uint8_t *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { p = nullptr; fail("harness: mmap"); }
        for (size_t o = 0; o < n; o += unit) if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail("harness: mmap unit");
        vfill(p, seed, 0, unit);
    }
    ~BigMap() { if (p) munmap(p, n); if (fd >= 0) close(fd); }
};
uint64_t edge(Src &s) {         // a size near a 32-bit boundary
    static const uint64_t E[] = {1ull << 32, 1ull << 31, (1ull << 32) + (1ull << 31), 1ull << 33};
    uint64_t e = E[s.weighted({6, 2, 1, 1})];
    if (s.chance(1, 4)) return e;
    return s.flip() ? e + s.draw(0, 300) - 100 : e + s.draw(0, 3u << 20);
}
}

// Copy positions and lengths over the whole 63-bit range; the basis gives out
// after a while, so that huge lengths cost little.
PROPERTY(C19, positions) {
    Src &s = c.s;
    VBasis vb; vb.seed = s.draw(1, 0xffff); vb.size = INT64_MAX; 
    Bytes d; put_be(d, M_DELTA, 4);
    VStream want; size_t cmds = s.draw(1, 8); uint64_t room = 200000, lits = 0, litb = 0, copies = 0, copyb = 0, lith = 0, copyh = 0; bool cut = false; uint64_t hugest = 0;
    for (size_t i = 0; i < cmds; i++) {
        if (s.chance(1, 4)) {
            Bytes l(s.size(1, 300)); fill_random(l.data(), l.size(), s.draw(0, 0xffff));
            int w = s.flip() ? 8 : 4; put_lit(d, l.data(), l.size(), w); want.lit(l); lits++; litb += l.size(); lith += 1 + w;
            continue;
        }
        uint64_t pos = s.chance(1, 3) ? (1ull << s.draw(30, 62)) + s.draw(0, 400) - 200 : s.big(0, INT64_MAX - 1);
        bool huge = s.chance(1, 8);
        uint64_t len = huge ? s.big(1, INT64_MAX) : s.size(1, 3000);
        if (len > INT64_MAX - pos) len = INT64_MAX - pos;
        if (!len) len = 1, pos--;
        if (huge && len > room) { cut = true; vb.budget = want.n; }
        int w1 = std::max(min_width(pos), 1 << (int)s.draw(0, 3)), w2 = std::max(min_width(len), 1 << (int)s.draw(0, 3));
        put_copy(d, pos, len, w1, w2);
        hugest = std::max(hugest, pos);
        uint64_t give = cut ? room : len;
        want.virt(vb.seed, pos, give); copies++; copyb += len; copyh += 1 + w1 + w2;
        if (cut) break;
    }
    if (cut) { uint64_t lit = 0; for (auto &g : want.s) if (g.lit) lit += g.len; vb.budget = want.n - lit; }
    d.push_back(0);
    Verify ver(want, "patch output");
    JobHolder j; { LibScope l; j.j = rs_patch_begin(vbasis_cb, &vb); }
    Plan p = gen_plan(s, d.size(), want.n);
    if (!p.whole_out && want.n > 20000) { p.out_max = std::max<size_t>(p.out_max, 200); p.out_mode = 0; }
    PushOpts o; o.sink = [&](const uint8_t *q, size_t n) { ver(q, n); };
    LogCap lc(RS_LOG_ERR);
    RunResult r = run_push(j.j, d, p, o);
    CHECK(vb.err.empty(), "%s", vb.err.c_str());
    if (cut) CHECK(r.res == RS_INPUT_ENDED, "basis ended inside a copy of a huge range: %s", res_name(r.res));
    else CHECK(r.res == RS_DONE, "patch failed: %s", res_name(r.res));
    ver.done();
    rs_stats_t st = *rs_job_statistics(j.j);
    CHECK(st.copy_cmds == (rs_long_t)copies && st.copy_bytes == (rs_long_t)copyb && st.copy_cmdbytes == (rs_long_t)copyh, "patch statistics: %lld copies, %lld bytes, %lld command bytes; the delta has %llu, %llu, %llu",
          (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, (ull)copies, (ull)copyb, (ull)copyh);
    CHECK(st.lit_cmds == (int)lits && st.lit_bytes == (rs_long_t)litb && st.lit_cmdbytes == (rs_long_t)lith, "patch statistics: %d literals, %lld bytes; the delta has %llu, %llu", st.lit_cmds, (long long)st.lit_bytes, (ull)lits, (ull)litb);
    c.nontrivial = hugest > 0xffffffffull;
    if (cut) c.label("huge-length");
    c.describe("%zu commands, positions up to %llu, %s", cmds, (ull)hugest, p.str().c_str());
}
// Matches at basis offsets beyond 2 GB and 4 GB, by synthesized signatures.
PROPERTY(C19, offsets) {
    Src &s = c.s;
    RefSig sig; sig.magic = gen_magic(s);
    static const uint32_t BL[] = {4096, 65536, 65537, 1u << 20, 100003, 8192, 16384, 30000};
    sig.block_len = s.chance(1, 3) ? (uint32_t)s.draw(2000, 300000) : BL[s.draw(0, 7)];
    sig.strong_len = (uint32_t)s.draw(8, magic_max_strong(sig.magic));
    uint64_t bl = sig.block_len;
    uint64_t far = s.chance(1, 4) ? (1ull << s.draw(31, 38)) : s.flip() ? 1ull << 32 : 1ull << 31;
    uint64_t count = std::min<uint64_t>(far / bl + s.draw(2, 400), c.thorough ? 6000000 : 1500000);
    uint64_t eseed = s.draw(1, 0xffffff);
    Rng r(eseed);
    sig.e.resize(count);
    for (auto &e : sig.e) { e.weak = (uint32_t)r.next(); for (int i = 0; i < 32; i += 8) { uint64_t w = r.next(); memcpy(e.strong + i, &w, 8); } }
    // some blocks of a virtual basis really are there
    uint64_t seed = s.draw(1, 0xffff);
    std::vector<std::pair<uint64_t, uint64_t>> runs; // first block, blocks
    size_t nr = s.draw(1, 4);
    VStream nw; struct Exp { bool copy; uint64_t pos, len; }; std::vector<Exp> ex;
    auto addlit = [&](size_t n) { if (!n) return; Bytes b(n); fill_random(b.data(), n, s.draw(0, 0xffff)); nw.lit(b); if (!ex.empty() && !ex.back().copy) ex.back().len += n; else ex.push_back({false, 0, n}); };
    Bytes tmp(bl); uint64_t top = 0;
    for (size_t i = 0; i < nr && nw.n < (4u << 20); i++) {
        if (s.flip()) addlit(s.size(1, 3000));
        uint64_t first;
        switch (s.draw(0, 3)) {
        case 0: first = std::min(count - 1, far / bl + s.draw(0, 2)); break;
        case 1: first = count - 1 - s.draw(0, std::min<uint64_t>(3, count - 1)); break;
        case 2: first = std::min<uint64_t>(count - 1, (1ull << 31) / bl + s.draw(0, 1)); break;
        default: first = s.draw(0, count - 1);
        }
        uint64_t k = std::min<uint64_t>(s.draw(1, bl > 50000 ? 3 : 12), count - first);
        for (uint64_t b = first; b < first + k; b++) {
            vfill(tmp.data(), seed, b * bl, bl);
            sig.e[b].weak = ref_weak(sig.magic, tmp.data(), bl); ref_strong(sig.magic, tmp.data(), bl, sig.e[b].strong);
        }
        nw.virt(seed, first * bl, k * bl);
        if (!ex.empty() && ex.back().copy && ex.back().pos + ex.back().len == first * bl) ex.back().len += k * bl; else ex.push_back({true, first * bl, k * bl});
        top = std::max(top, first * bl);
    }
    if (s.flip()) addlit(s.size(1, 500));
    SigHolder h; Bytes sb = sig.encode(); load_ok(sb, h);
    Bytes nb(nw.n); nw.read(0, nb.data(), nw.n);
    Iface f; f.plan = gen_plan(s, nb.size(), nb.size() / 4 + 100); if (!f.plan.whole_in) f.plan.in_max = std::max<size_t>(f.plan.in_max, nb.size() / 2000 + 1); if (!f.plan.whole_out) f.plan.out_max = std::max<size_t>(f.plan.out_max, 30);
    RunResult d = op_delta(h.s, nb, f);
    CHECK(d.res == RS_DONE, "delta failed: %s (new file %zu bytes, block length %llu, %llu blocks, %s)", res_name(d.res), nb.size(), (ull)bl, (ull)count, f.str().c_str());
    RefDelta rd; std::string e = ref_parse_delta(d.out, rd);
    CHECK(e.empty(), "delta not well formed: %s", e.c_str());
    std::vector<Exp> got;
    for (auto &k : rd.c) {
        if (k.k == Cmd::END) continue;
        bool cp = k.k == Cmd::COPY;
        if (!got.empty() && got.back().copy == cp && (!cp || got.back().pos + got.back().len == k.pos)) got.back().len += k.len; else got.push_back({cp, cp ? k.pos : 0, k.len});
    }
    CHECK(got.size() == ex.size(), "the delta has %zu stretches, expected %zu (block length %llu, %llu blocks)", got.size(), ex.size(), (ull)bl, (ull)count);
    for (size_t i = 0; i < ex.size(); i++)
        CHECK(got[i].copy == ex[i].copy && got[i].len == ex[i].len && got[i].pos == ex[i].pos, "stretch %zu is %s %llu bytes from %llu, expected %s %llu bytes from %llu", i, got[i].copy ? "copy" : "literal", (ull)got[i].len, (ull)got[i].pos,
              ex[i].copy ? "copy" : "literal", (ull)ex[i].len, (ull)ex[i].pos);
    // the delta, applied to the virtual basis, gives the new file
    VBasis vb; vb.seed = seed; vb.size = count * bl;
    JobHolder j; j.j = rs_patch_begin(vbasis_cb, &vb);
    Verify ver(nw, "patch output");
    VStream ds; ds.lit(d.out);
    rs_result pr = drive(j.j, ds, std::max<size_t>(d.out.size(), 64), 60000, [&](const uint8_t *q, size_t n) { ver(q, n); });
    CHECK(pr == RS_DONE, "patch failed: %s", res_name(pr)); ver.done();
    c.nontrivial = top >= 0x80000000ull;
    if (top >= 1ull << 32) c.label(">4GB"); else if (top >= 1ull << 31) c.label(">2GB");
    c.describe("magic %#x, %llu blocks of %llu (basis %llu bytes), %zu stretches, copies up to %llu", sig.magic, (ull)count, (ull)bl, (ull)(count * bl), ex.size(), (ull)top);
}
// Literals and copies longer than 4 GB, executed completely.
PROPERTY(C19, long) {
    Src &s = c.s;
    uint64_t n = edge(s), seed = s.draw(1, 0xffff);
    bool lit = s.flip(); unsigned viafile = (unsigned)s.draw(0, 1);
    VBasis vb; vb.seed = seed + 1; vb.size = 1ull << 40;
    VStream d, want; Bytes h;
    put_be(h, M_DELTA, 4);
    uint64_t lb = 0, cb = 0, lh = 0, ch = 0;
    size_t pre = s.size(0, 200); if (pre) { Bytes b(pre); fill_random(b.data(), pre, 4); put_lit(h, b.data(), pre, pre <= 64 ? 0 : 4); want.lit(b); lb += pre; lh += pre <= 64 ? 1 : 5; }
    unsigned nl = pre ? 1 : 0, nc = 0;
    if (lit) { h.push_back(n > 0xffffffffull || s.flip() ? 0x44 : 0x43); int w = h.back() == 0x44 ? 8 : 4; put_be(h, n, w); d.lit(h); d.virt(seed, 0, n); want.virt(seed, 0, n); h.clear(); lb += n; lh += 1 + w; nl++; }
    else { uint64_t pos = s.big(0, 1ull << 39); int w1 = min_width(pos), w2 = min_width(n); put_copy(h, pos, n, w1, w2); want.virt(vb.seed, pos, n); cb += n; ch += 1 + w1 + w2; nc++; }
    { uint64_t pos = s.big(0, 1ull << 39), k = s.size(1, 70000); int w1 = min_width(pos), w2 = min_width(k); put_copy(h, pos, k, w1, w2); want.virt(vb.seed, pos, k); cb += k; ch += 1 + w1 + w2; nc++; }
    h.push_back(0); d.lit(h);
    Verify ver(want, "patch output"); rs_stats_t st;
    if (viafile) {
        VStream bs; bs.virt(vb.seed, 0, vb.size);
        VFile vd{&d}, vbs{&bs}; SinkFile sf{[&](const uint8_t *q, size_t k) { ver(q, k); }, ""};
        FCl fd{vf_open(&vd)}, fb{vf_open(&vbs)}, fo{sf_open(&sf)};
        BufLens bl(1 << 20, 1 << 20);
        rs_result r = rs_patch_file(fb.f, fd.f, fo.f, &st); fclose(fo.f); fo.f = nullptr;
        CHECK(sf.err.empty(), "%s", sf.err.c_str());
        CHECK(r == RS_DONE, "rs_patch_file failed: %s", res_name(r));
        CHECK(st.in_bytes == (rs_long_t)d.n && st.out_bytes == (rs_long_t)want.n, "statistics: %lld bytes in, %lld out; really %llu and %llu", (long long)st.in_bytes, (long long)st.out_bytes, (ull)d.n, (ull)want.n);
    } else {
        JobHolder j; j.j = rs_patch_begin(vbasis_cb, &vb);
        rs_result r = drive(j.j, d, 1 << 20, 1 << 20, [&](const uint8_t *q, size_t k) { ver(q, k); });
        CHECK(r == RS_DONE, "patch failed: %s", res_name(r));
        st = *rs_job_statistics(j.j);
    }
    ver.done();
    CHECK(st.lit_bytes == (rs_long_t)lb && st.lit_cmdbytes == (rs_long_t)lh && st.copy_bytes == (rs_long_t)cb && st.copy_cmdbytes == (rs_long_t)ch && st.lit_cmds == (int)nl && st.copy_cmds == nc,
          "statistics: literal %d/%lld/%lld copy %lld/%lld/%lld, really %u/%llu/%llu and %u/%llu/%llu", st.lit_cmds, (long long)st.lit_bytes, (long long)st.lit_cmdbytes, (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, nl, (ull)lb, (ull)lh, nc, (ull)cb, (ull)ch);
    c.nontrivial = n > 0x7fffffffull;
    c.describe("%s of %llu bytes via %s", lit ? "literal" : "copy", (ull)n, viafile ? "rs_patch_file" : "rs_job_iter");
}
// A whole signature, delta, patch cycle over a virtual file of more than 4 GB.
PROPERTY(C19, cycle) {
    Src &s = c.s;
    uint32_t magic = gen_magic(s); size_t sl = s.draw(8, magic_max_strong(magic));
    static const size_t BL[] = {1u << 20, 65536, 1000003, 1u << 18, 300000, 2u << 20};
    size_t bl = BL[s.draw(0, 5)];
    uint64_t n = (1ull << 32) + s.size(1, 40u << 20), seed = s.draw(1, 0xffff);
    bool files = s.flip(); size_t chunk = bl * 2 + s.size(1, 4u << 20);
    VStream basis; basis.virt(seed, 0, n);
    Bytes sig;
    rs_stats_t st;
    if (files) {
        VFile v{&basis}; SinkFile sf{[&](const uint8_t *q, size_t k) { sig.insert(sig.end(), q, q + k); }, ""};
        FCl fi{vf_open(&v)}, fo{sf_open(&sf)};
        rs_result r = rs_sig_file(fi.f, fo.f, bl, sl, (rs_magic_number)magic, &st); fclose(fo.f); fo.f = nullptr;
        CHECK(r == RS_DONE, "rs_sig_file failed: %s", res_name(r));
        CHECK(st.in_bytes == (rs_long_t)n && st.out_bytes == (rs_long_t)sig.size(), "signature statistics: %lld bytes in, %lld out; really %llu, %zu", (long long)st.in_bytes, (long long)st.out_bytes, (ull)n, sig.size());
    } else {
        JobHolder j; j.j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
        rs_result r = drive(j.j, basis, chunk, 1 << 20, [&](const uint8_t *q, size_t k) { sig.insert(sig.end(), q, q + k); });
        CHECK(r == RS_DONE, "signature failed: %s", res_name(r));
        st = *rs_job_statistics(j.j);
    }
    uint64_t blocks = (n + bl - 1) / bl;
    CHECK(sig.size() == 12 + blocks * (4 + sl), "signature of %llu bytes has %zu bytes, expected %llu", (ull)n, sig.size(), (ull)(12 + blocks * (4 + sl)));
    CHECK(st.sig_blocks == (rs_long_t)blocks && st.block_len == bl, "statistics: %lld blocks of %zu, really %llu of %zu", (long long)st.sig_blocks, st.block_len, (ull)blocks, bl);
    Bytes tmp(bl); Rng rr(seed);
    for (int i = 0; i < 40; i++) {
        uint64_t k = i == 0 ? blocks - 1 : i == 1 ? (1ull << 32) / bl : i == 2 ? (1ull << 31) / bl : i == 3 ? 0 : rr.next() % blocks; if (k >= blocks) k = blocks - 1;
        size_t len = (size_t)std::min<uint64_t>(bl, n - k * bl); basis.read(k * bl, tmp.data(), len);
        uint8_t stg[32]; ref_strong(magic, tmp.data(), len, stg); const uint8_t *e = &sig[12 + k * (4 + sl)];
        CHECK(get_be(e, 4) == ref_weak(magic, tmp.data(), len) && !memcmp(e + 4, stg, sl), "signature entry %llu of %llu does not describe that block", (ull)k, (ull)blocks);
    }
    // the new file: inserted data, then a long stretch of the basis
    VStream nw; Bytes ins(s.size(0, 5000)); fill_random(ins.data(), ins.size(), 11); nw.lit(ins);
    uint64_t a = s.flip() ? 0 : s.draw(0, 5) * bl; nw.virt(seed, a, n - a);
    Bytes tail(s.size(0, 3000)); fill_random(tail.data(), tail.size(), 12);
    uint64_t lit = ins.size(); if (!tail.empty()) { lit += tail.size() + n % bl; } nw.lit(tail);
    SigHolder h; load_ok(sig, h);
    Bytes delta;
    if (files) {
        VFile v{&nw}; SinkFile sf{[&](const uint8_t *q, size_t k) { delta.insert(delta.end(), q, q + k); }, ""};
        FCl fi{vf_open(&v)}, fo{sf_open(&sf)};
        rs_result r = rs_delta_file(h.s, fi.f, fo.f, &st); fclose(fo.f); fo.f = nullptr;
        CHECK(r == RS_DONE, "rs_delta_file failed: %s", res_name(r));
        CHECK(st.in_bytes == (rs_long_t)nw.n && st.out_bytes == (rs_long_t)delta.size(), "delta statistics: %lld bytes in, %lld out; really %llu, %zu", (long long)st.in_bytes, (long long)st.out_bytes, (ull)nw.n, delta.size());
    } else {
        JobHolder j; j.j = rs_delta_begin(h.s);
        rs_result r = drive(j.j, nw, chunk, 1 << 20, [&](const uint8_t *q, size_t k) { CHECK(delta.size() < (200u << 20), "the delta degenerated to literals"); delta.insert(delta.end(), q, q + k); });
        CHECK(r == RS_DONE, "delta failed: %s", res_name(r));
        st = *rs_job_statistics(j.j);
    }
    RefDelta rd; std::string e = ref_parse_delta(delta, rd);
    CHECK(e.empty(), "delta not well formed: %s", e.c_str());
    CHECK(rd.lit_bytes == lit && rd.copy_bytes == nw.n - lit, "the delta has %llu literal and %llu copied bytes, expected %llu and %llu", (ull)rd.lit_bytes, (ull)rd.copy_bytes, (ull)lit, (ull)(nw.n - lit));
    CHECK(st.copy_bytes == (rs_long_t)rd.copy_bytes && st.lit_bytes == (rs_long_t)rd.lit_bytes && st.copy_cmds == (rs_long_t)rd.copy_cmds && st.copy_cmdbytes == (rs_long_t)rd.copy_hdr, "delta statistics: %lld copies, %lld bytes, %lld command bytes; really %llu, %llu, %llu",
          (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.copy_cmdbytes, (ull)rd.copy_cmds, (ull)rd.copy_bytes, (ull)rd.copy_hdr);
    CHECK(rd.copy_cmds <= 2, "%llu copy commands for one contiguous range", (ull)rd.copy_cmds);
    VBasis vb; vb.seed = seed; vb.size = n; Verify ver(nw, "patch output"); VStream ds; ds.lit(delta);
    JobHolder j; j.j = rs_patch_begin(vbasis_cb, &vb);
    rs_result pr = drive(j.j, ds, 1 << 16, 1 << 20, [&](const uint8_t *q, size_t k) { ver(q, k); });
    CHECK(pr == RS_DONE, "patch failed: %s", res_name(pr)); ver.done();
    c.nontrivial = true;
    c.describe("magic %#x block %zu basis %llu new %llu via %s: %llu copies of %llu bytes", magic, bl, (ull)n, (ull)nw.n, files ? "files" : "buffers", (ull)rd.copy_cmds, (ull)rd.copy_bytes);
}
// One input buffer of more than 4 GB (or 2 GB), for each kind of job.
namespace {
struct StreamDelta {            // incremental decoder for huge deltas
    int st = 0; Bytes h; size_t need = 4; uint64_t left = 0, lits = 0, litb = 0; bool ended = false; std::function<void(const uint8_t *, size_t)> lit;
    void feed(const uint8_t *p, size_t n) {
        while (n) {
            CHECK(!ended, "data after the end command");
            if (st == 2) { size_t k = (size_t)std::min<uint64_t>(n, left); lit(p, k); p += k; n -= k; left -= k; litb += k; if (!left) { st = 1; h.clear(); need = 1; } continue; }
            h.push_back(*p++); n--;
            if (h.size() < need) continue;
            if (st == 0) { CHECK(get_be(h.data(), 4) == M_DELTA, "bad delta magic"); st = 1; h.clear(); need = 1; continue; }
            uint8_t op = h[0];
            if (op == 0) { ended = true; continue; }
            CHECK(op <= 0x44, "command %#x in a delta without signature", op);
            if (op <= 64) { left = op; lits++; st = 2; continue; }
            int w = 1 << (op - 0x41);
            if (need == 1) { need = 1 + w; continue; }
            left = get_be(&h[1], w); CHECK(left > 0 && left <= INT64_MAX, "literal of length %lld", (long long)left); lits++; st = 2;
        }
    }
};
}
static void one_buffer(Ctx &c, bool scoop) {
    Src &s = c.s;
    unsigned kind = scoop ? 2 : (unsigned)s.draw(0, 2);    // signature-less delta, signature, delta
    uint64_t n = scoop ? (1ull << 32) + (4u << 20) + s.size(1, 20u << 20) : kind == 0 ? edge(s) : (s.flip() ? (1ull << 32) : (1ull << 31)) + (s.chance(1, 4) ? 0 : s.size(1, 20u << 20)), seed = s.draw(1, 0xffff);
    size_t unit = 16u << 20, bl = kind ? (size_t)1 << s.draw(16, 22) : 0;
    BigMap m(n, seed, unit);
    uint32_t magic = gen_magic(s); size_t sl = s.draw(8, magic_max_strong(magic));
    size_t outsz = s.size(2000, 4u << 20); Bytes ob(outsz);
    SigHolder h; JobHolder j; Bytes out; StreamDelta sd; uint64_t lat = 0;
    sd.lit = [&](const uint8_t *p, size_t k) { CHECK(lat + k <= n, "the delta describes more than the %llu bytes given", (ull)n); if (memcmp(p, m.p + lat, k)) fail("literal data differs from the new file near byte %llu", (ull)lat); lat += k; };
    Bytes ub(m.p, m.p + unit); RefSig us;
    if (kind) us = ref_sig(ub, magic, bl, sl);
    if (kind == 0) { bool empty = s.flip(); if (empty) { RefSig e; e.magic = magic; e.block_len = 1000; e.strong_len = (uint32_t)sl; load_ok(e.encode(), h); } j.j = rs_delta_begin(h.s); }
    else if (kind == 1) j.j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    else { load_ok(us.encode(), h); j.j = rs_delta_begin(h.s); }
    rs_buffers_t b; memset(&b, 0, sizeof b);
    uint64_t split = scoop ? s.size(1, bl / 2) : s.chance(1, 3) ? s.size(1, 1 << 20) : 0;   // a small first buffer leaves data inside the job
    b.next_in = (char *)m.p; b.avail_in = split ? split : n; b.eof_in = !split;
    rs_result r; unsigned idle = 0;
    for (;;) {
        b.next_out = (char *)ob.data(); b.avail_out = outsz; size_t ai = b.avail_in; char *ni = b.next_in;
        r = rs_job_iter(j.j, &b);
        size_t made = outsz - b.avail_out;
        CHECK((size_t)(b.next_in - ni) == ai - b.avail_in && b.avail_in <= ai, "input accounting: next_in moved %td, avail_in fell %lld", b.next_in - ni, (long long)(ai - b.avail_in));
        if (kind == 0) sd.feed(ob.data(), made); else { out.insert(out.end(), ob.data(), ob.data() + made); CHECK(out.size() < (100u << 20), "output far too large"); }
        if (r != RS_BLOCKED) break;
        idle = made || ai != b.avail_in ? 0 : idle + 1;
        if (!b.eof_in && !b.avail_in) { b.avail_in = n - split; b.eof_in = 1; }
        CHECK(idle < 20, "no progress on a buffer of %llu bytes", (ull)n);
    }
    CHECK(r == RS_DONE, "%s over a buffer of %llu bytes failed: %s", kind == 0 ? "delta without signature" : kind == 1 ? "signature" : "delta", (ull)n, res_name(r));
    rs_stats_t st = *rs_job_statistics(j.j);
    if (kind == 0) {
        CHECK(sd.ended && lat == n, "the delta describes %llu of %llu bytes", (ull)lat, (ull)n);
        CHECK(st.lit_bytes == (rs_long_t)n && st.lit_cmds == (int)sd.lits, "statistics: %d literals, %lld bytes; really %llu, %llu", st.lit_cmds, (long long)st.lit_bytes, (ull)sd.lits, (ull)n);
    } else if (kind == 1) {
        uint64_t blocks = (n + bl - 1) / bl, per = unit / bl; Bytes es;
        for (auto &e : us.e) { put_be(es, e.weak, 4); es.insert(es.end(), e.strong, e.strong + sl); }
        CHECK(out.size() == 12 + blocks * (4 + sl), "signature has %zu bytes, expected %llu", out.size(), (ull)(12 + blocks * (4 + sl)));
        uint64_t full = n / bl; size_t w = 4 + sl;
        for (uint64_t k = 0; k < full; k++) CHECK(!memcmp(&out[12 + k * w], &es[(k % per) * w], w), "entry %llu of %llu is wrong", (ull)k, (ull)blocks);
        if (full < blocks) { size_t len = n - full * bl; uint8_t stg[32]; ref_strong(magic, m.p + full * bl, len, stg); CHECK(get_be(&out[12 + full * w], 4) == ref_weak(magic, m.p + full * bl, len) && !memcmp(&out[16 + full * w], stg, sl), "the entry of the short last block is wrong"); }
        CHECK(st.sig_blocks == (rs_long_t)blocks, "statistics: %lld blocks, really %llu", (long long)st.sig_blocks, (ull)blocks);
    } else {
        RefDelta rd; std::string e = ref_parse_delta(out, rd); CHECK(e.empty(), "delta not well formed: %s", e.c_str());
        uint64_t at = 0;
        for (auto &k : rd.c) { if (k.k == Cmd::END) break; CHECK(at + k.len <= n, "delta too long");
            if (k.k == Cmd::LIT) CHECK(!memcmp(&out[k.data], m.p + at, k.len), "wrong literal at %llu", (ull)at); else CHECK(k.pos % unit == at % unit && k.pos + k.len <= unit, "copy of %llu bytes from %llu at new offset %llu", (ull)k.len, (ull)k.pos, (ull)at);
            at += k.len; }
        CHECK(at == n && rd.lit_bytes == n % bl, "delta describes %llu of %llu bytes, %llu literal (expected %llu)", (ull)at, (ull)n, (ull)rd.lit_bytes, (ull)(n % bl));
        CHECK(st.copy_bytes == (rs_long_t)rd.copy_bytes, "statistics: %lld bytes copied, really %llu", (long long)st.copy_bytes, (ull)rd.copy_bytes);
    }
    c.nontrivial = true; c.label(kind == 0 ? "no-signature" : kind == 1 ? "signature" : "delta");
    c.describe("%s over one buffer of %llu bytes%s", kind == 0 ? "delta without signature" : kind == 1 ? "signature" : "delta", (ull)n, split ? " after a small one" : "");
}
PROPERTY(C19, onebuf) { one_buffer(c, false); }
PROPERTY(C19, onescoop) { one_buffer(c, true); }    // all of it is taken into the job
// Patching from a sparse basis file through the stdio callback.
PROPERTY(C19, sparse) {
    Src &s = c.s;
    std::string path = scratch_path("big");
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) fail("harness: create");
    unlink(path.c_str());
    uint64_t size = (1ull << 31) + s.big(0, 1ull << 41), seed = s.draw(1, 0xffff);
    if (ftruncate(fd, (off_t)size)) { size = std::min<uint64_t>(size, 1ull << 34); if (ftruncate(fd, (off_t)size)) { close(fd); throw Discard(); } }
    FCl fb{fdopen(fd, "r+b")};
    Bytes d; put_be(d, M_DELTA, 4); VStream want; uint64_t cb = 0; size_t cmds = s.draw(1, 8); Bytes tmp; uint64_t top = 0;
    for (size_t i = 0; i < cmds; i++) {
        uint64_t pos = s.chance(1, 3) ? size - s.draw(1, 5000) : s.chance(1, 2) ? std::min<uint64_t>(size - 1, (s.flip() ? 1ull << 32 : 1ull << 31) - s.draw(0, 1000)) : s.big(0, size - 1);
        uint64_t len = std::min<uint64_t>(s.size(1, 20000), size - pos);
        tmp.resize(len); vfill(tmp.data(), seed, pos, len);
        if (pwrite(fd, tmp.data(), len, (off_t)pos) != (ssize_t)len) fail("harness: pwrite");
        put_copy(d, pos, len, min_width(pos), min_width(len)); want.virt(seed, pos, len); cb += len; top = std::max(top, pos);
    }
    d.push_back(0);
    MemFile md, mo; md.data = d; FCl fd2{mem_open(&md, "r", SIZE_MAX)}, fo{mem_open(&mo, "w", SIZE_MAX)};
    rs_stats_t st; rs_result r;
    BufLens bl(s.flip() ? 0 : (int)s.size(1, 5000), s.flip() ? 0 : (int)s.size(20, 5000));
    { LibScope l; r = rs_patch_file(fb.f, fd2.f, fo.f, &st); }
    fclose(fo.f); fo.f = nullptr;
    CHECK(r == RS_DONE, "rs_patch_file from a %llu-byte basis failed: %s", (ull)size, res_name(r));
    Verify v(want, "patch output"); v(mo.data.data(), mo.data.size()); v.done();
    CHECK(st.copy_bytes == (rs_long_t)cb && st.copy_cmds == (rs_long_t)cmds && st.out_bytes == (rs_long_t)cb, "statistics: %lld copies, %lld bytes, %lld out; really %zu, %llu", (long long)st.copy_cmds, (long long)st.copy_bytes, (long long)st.out_bytes, cmds, (ull)cb);
    c.nontrivial = top > 0xffffffffull;
    c.describe("%zu copies from a sparse basis of %llu bytes, up to %llu", cmds, (ull)size, (ull)top);
}

// One output buffer of more than 2 GB or 4 GB. The buffer is one stretch of
// memory mapped again and again, the basis repeats with the same period.
PROPERTY(C19, outbuf) {
    Src &s = c.s;
    size_t unit = 16u << 20; uint64_t seed = s.draw(1, 0xffff);
    uint64_t n = edge(s); bool tight = s.flip();
    Bytes pat(unit); vfill(pat.data(), seed, 0, unit);
    BigMap m(n + unit, seed + 1, unit);
    Bytes d; put_be(d, M_DELTA, 4);
    uint64_t at = 0, cb = 0, lb = 0; unsigned nc = 0, nl = 0;
    struct Copy { uint64_t pos, len; }; std::vector<Copy> copies;
    unsigned parts = (unsigned)s.draw(1, 4);
    for (unsigned i = 0; i < parts; i++) {
        if (s.flip()) { size_t k = s.size(1, 5000); Bytes l(k); for (size_t x = 0; x < k; x++) l[x] = pat[(at + x) % unit]; put_lit(d, l.data(), k, 4); at += k; lb += k; nl++; }
        uint64_t left = n > at ? n - at : 1, len = i + 1 == parts ? left : std::max<uint64_t>(1, s.flip() ? left / 2 : s.size(1, 100000)), pos = at % unit + unit * s.draw(0, 1000);
        put_copy(d, pos, len, 8, 8); copies.push_back({pos, len}); at += len; cb += len; nc++;
    }
    d.push_back(0);
    uint64_t total = at, room = tight ? total : total + s.size(1, 1 << 20);
    if (room > m.n) room = m.n;
    if (total > m.n) throw Discard();
    struct St { Bytes *pat; uint8_t *base; uint64_t room; std::vector<Copy> *c; size_t i = 0; uint64_t off = 0; rs_buffers_t *b; unsigned own, shorts; Rng r{1}; std::string err; BigMap *bm; uint64_t biggest = 0; } st;
    BigMap own(room, seed, unit);     // the callback's own copy of the (periodic) basis
    st.pat = &pat; st.base = m.p; st.room = room; st.c = &copies; st.own = (unsigned)s.draw(0, 2); st.shorts = (unsigned)s.draw(0, 2); st.r = Rng(seed); st.bm = &own;
    rs_buffers_t b; memset(&b, 0, sizeof b); st.b = &b;
    JobHolder j;
    j.j = rs_patch_begin([](void *o, rs_long_t pos, size_t *len, void **buf) -> rs_result {
        St &t = *(St *)o;
        auto bad = [&](std::string e) { if (t.err.empty()) t.err = e; return RS_IO_ERROR; };
        if (t.i >= t.c->size()) return bad("more requests than the copies need");
        Copy &k = (*t.c)[t.i];
        if ((uint64_t)pos != k.pos + t.off) return bad(strf("request at %lld, expected %llu", (long long)pos, (ull)(k.pos + t.off)));
        if (*len > k.len - t.off) return bad(strf("request for %zu bytes, only %llu of the copy are left", *len, (ull)(k.len - t.off)));
        if (*len > t.b->avail_out) return bad(strf("request for %zu bytes, only %zu bytes of output space are left", *len, t.b->avail_out));
        if (*buf != (void *)t.b->next_out) return bad("the request does not point at the free output space");
        if (!*len) return bad("request for no bytes");
        t.biggest = std::max<uint64_t>(t.biggest, *len);
        uint64_t n = *len; if (t.shorts == 1 && n > 1) n = 1 + t.r.next() % n; else if (t.shorts == 2 && n > (1u << 30)) n -= t.r.next() % 5;
        size_t ph = (size_t)(pos % (rs_long_t)t.pat->size());
        if (t.own == 1 || (t.own == 2 && t.r.next() & 1)) { if (ph + n > t.bm->n) n = t.bm->n - ph; *buf = t.bm->p + ph; }
        else for (uint64_t x = 0; x < n;) { size_t q = std::min<uint64_t>(n - x, t.pat->size() - (ph + x) % t.pat->size()); memcpy((uint8_t *)*buf + x, t.pat->data() + (ph + x) % t.pat->size(), q); x += q; }
        *len = (size_t)n; t.off += n; if (t.off == k.len) { t.off = 0; t.i++; }
        return RS_DONE;
    }, &st);
    b.next_in = (char *)d.data(); b.avail_in = d.size(); b.eof_in = 1; b.next_out = (char *)m.p; b.avail_out = room;
    rs_result r = RS_BLOCKED; unsigned calls = 0;
    for (; calls < 20; calls++) {
        size_t ao = b.avail_out; char *no = b.next_out;
        r = rs_job_iter(j.j, &b);
        CHECK(st.err.empty(), "%s", st.err.c_str());
        CHECK(b.avail_out <= ao && (size_t)(b.next_out - no) == ao - b.avail_out, "output accounting: next_out moved %td, avail_out fell %lld", b.next_out - no, (long long)(ao - b.avail_out));
        if (r != RS_BLOCKED) break;
    }
    CHECK(r == RS_DONE, "patch into one buffer of %llu bytes for %llu bytes of output: %s", (ull)room, (ull)total, res_name(r));
    CHECK((uint64_t)(b.next_out - (char *)m.p) == total, "patch produced %td bytes, expected %llu", b.next_out - (char *)m.p, (ull)total);
    CHECK(total < unit || !memcmp(m.p, pat.data(), unit), "the output data are wrong");
    rs_stats_t q = *rs_job_statistics(j.j);
    CHECK(q.copy_bytes == (rs_long_t)cb && q.copy_cmds == nc && q.lit_bytes == (rs_long_t)lb && q.lit_cmds == (int)nl, "statistics: %lld/%lld copies, %d/%lld literals; really %u/%llu, %u/%llu", (long long)q.copy_cmds, (long long)q.copy_bytes, q.lit_cmds, (long long)q.lit_bytes, nc, (ull)cb, nl, (ull)lb);
    c.nontrivial = st.biggest > 0x7fffffffull || room > 0x7fffffffull;
    c.describe("patch of %u commands into one buffer of %llu bytes, largest request %llu", nc + nl, (ull)room, (ull)st.biggest);
}
// A signature of so many blocks that sizes of the tables built for it pass
// 2^31 in places; nearly all entries are equal, the others must still be found.
PROPERTY(C19, manyblocks) {
    Src &s = c.s;
    uint64_t count = s.flip() ? 214748365 + s.draw(0, 400) - 30 : s.draw(150000000, c.thorough ? 300000000 : 240000000);
    uint32_t magic = gen_magic(s); size_t bl = s.draw(16, 300), sl = s.draw(1, 4);
    size_t nb = s.draw(2, 8); uint64_t seed = s.draw(1, 0xffff);
    Bytes blocks(nb * bl); fill_random(blocks.data(), blocks.size(), seed);
    std::vector<uint64_t> idx; for (size_t i = 0; i < nb; i++) { uint64_t k = s.flip() ? count - 1 - s.draw(0, 50) : s.draw(0, count - 1); idx.push_back(k); }
    std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end()); nb = idx.size();
    size_t w = 4 + sl; Bytes fillr(w); fill_random(fillr.data(), w, seed + 7);
    std::vector<Bytes> ent;
    for (size_t i = 0; i < nb; i++) { Bytes e; uint8_t st[32]; put_be(e, ref_weak(magic, &blocks[i * bl], bl), 4); ref_strong(magic, &blocks[i * bl], bl, st); e.insert(e.end(), st, st + sl); ent.push_back(e); }
    // feed the load job from one piece of repeated filler, patched where the real entries are
    rs_signature_t *sg = nullptr; JobHolder j; SigHolder h;
    j.j = rs_loadsig_begin(&sg); h.s = sg;
    const size_t CH = 200000; Bytes piece(CH * w); for (size_t i = 0; i < CH; i++) memcpy(&piece[i * w], fillr.data(), w);
    Bytes hd; put_be(hd, magic, 4); put_be(hd, bl, 4); put_be(hd, sl, 4);
    rs_buffers_t b; memset(&b, 0, sizeof b);
    b.next_in = (char *)hd.data(); b.avail_in = hd.size();
    rs_result r = rs_job_iter(j.j, &b);
    CHECK(r == RS_BLOCKED && !b.avail_in, "loading the header: %s", res_name(r));
    size_t q = 0;
    for (uint64_t at = 0; at < count; at += CH) {
        uint64_t n = std::min<uint64_t>(CH, count - at); size_t q0 = q;
        while (q < nb && idx[q] < at + n) { memcpy(&piece[(idx[q] - at) * w], ent[q].data(), w); q++; }
        b.next_in = (char *)piece.data(); b.avail_in = n * w; b.eof_in = at + n == count;
        r = rs_job_iter(j.j, &b);
        CHECK(r == (b.eof_in ? RS_DONE : RS_BLOCKED) && !b.avail_in, "loading blocks %llu.. of %llu: %s", (ull)at, (ull)count, res_name(r));
        for (; q0 < q; q0++) memcpy(&piece[(idx[q0] - at) * w], fillr.data(), w);
    }
    CHECK(rs_job_statistics(j.j)->sig_blocks == (rs_long_t)count, "%lld blocks counted, really %llu", (long long)rs_job_statistics(j.j)->sig_blocks, (ull)count);
    j.reset();
    r = rs_build_hash_table(h.s);
    if (r == RS_MEM_ERROR) throw Discard();
    CHECK(r == RS_DONE, "rs_build_hash_table for %llu blocks: %s", (ull)count, res_name(r));
    // every real block, separated by data that cannot match
    Bytes nw; std::vector<size_t> order; for (size_t i = 0; i < nb; i++) order.push_back(i);
    for (size_t i : order) nw.insert(nw.end(), blocks.begin() + i * bl, blocks.begin() + (i + 1) * bl);
    Iface f; f.plan = whole_plan();
    RunResult d = op_delta(h.s, nw, f);
    CHECK(d.res == RS_DONE, "delta failed: %s", res_name(d.res));
    RefDelta rd; std::string e = ref_parse_delta(d.out, rd); CHECK(e.empty(), "delta not well formed: %s", e.c_str());
    uint64_t at = 0;
    for (auto &k : rd.c) {
        if (k.k == Cmd::END) break;
        if (k.k == Cmd::LIT) fail("%llu bytes of block %llu of %llu were sent as a literal although its sums are in the signature", (ull)k.len, (ull)idx[std::min<size_t>(nb - 1, at / bl)], (ull)count);
        for (uint64_t o = 0; o < k.len; o += bl) { const Bytes &en = ent[(at + o) / bl]; uint64_t bi = (k.pos + o) / bl; auto it = std::lower_bound(idx.begin(), idx.end(), bi); CHECK((k.pos + o) % bl == 0 && ((it != idx.end() && *it == bi && ent[it - idx.begin()] == en) || fillr == en), "block %llu was copied from basis block %llu", (ull)idx[(at + o) / bl], (ull)bi); }
        at += k.len;
    }
    CHECK(at == nw.size(), "the delta describes %llu of %zu bytes", (ull)at, nw.size());
    c.nontrivial = count > 0x7fffffffull / 10;
    c.describe("%llu blocks, %zu of them distinct, strong sums of %zu", (ull)count, nb + 1, sl);
}
