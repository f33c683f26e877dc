// C24: memory use of the operations does not grow with the streams.
// C25: whole-file operations and the positions and state of their streams.
#include "lib.h"
#include "delta_gen.h"
#include "spec.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
typedef unsigned long long ull;

// ------------------------------------------------------------------ C24
namespace {
// Feeds `in` in offers of at most K bytes, with at most M bytes of output space.
struct Feed {
    const Bytes &in; size_t K, M; Rng rng; size_t pos = 0; uint64_t out = 0, calls = 0; Bytes obuf; unsigned starve;
    Feed(const Bytes &i, size_t k, size_t m, uint64_t seed, unsigned st) : in(i), K(k), M(m), rng(seed), obuf(m), starve(st) {}
    rs_result run(rs_job_t *j) {
        for (;;) {
            rs_buffers_t b; memset(&b, 0, sizeof b);
            size_t k = std::min<size_t>(in.size() - pos, 1 + rng.next() % K);
            size_t m = rng.next() % 16 < starve ? 1 : 1 + rng.next() % M;
            b.next_in = (char *)in.data() + pos; b.avail_in = k; b.eof_in = pos + k == in.size();
            b.next_out = (char *)obuf.data(); b.avail_out = m;
            rs_result r; { LibScope l; r = rs_job_iter(j, &b); }
            calls++;
            CHECK(b.avail_in <= k && b.avail_out <= m, "buffer accounting");
            pos += k - b.avail_in; out += m - b.avail_out;
            if (r != RS_BLOCKED) return r;
        }
    }
    // pull interface
    static rs_result in_cb(rs_job_t *, rs_buffers_t *b, void *o) {
        OutScope os; Feed *f = (Feed *)o;
        if (b->avail_in || b->eof_in) return RS_DONE;
        size_t k = std::min<size_t>(f->in.size() - f->pos, 1 + f->rng.next() % f->K);
        if (!k) { b->eof_in = 1; return RS_DONE; }
        b->next_in = (char *)f->in.data() + f->pos; b->avail_in = k; f->pos += k;
        return RS_DONE;
    }
    static rs_result out_cb(rs_job_t *, rs_buffers_t *b, void *o) {
        OutScope os; Feed *f = (Feed *)o;
        f->calls++;
        if (b->next_out) f->out += (size_t)((uint8_t *)b->next_out - f->obuf.data());
        b->next_out = (char *)f->obuf.data(); b->avail_out = f->M;
        return RS_DONE;
    }
    rs_result drive(rs_job_t *j) {
        rs_buffers_t b; memset(&b, 0, sizeof b);
        LibScope l; return rs_job_drive(j, &b, in_cb, this, out_cb, this);
    }
};
// a long new file: misses, matches, repeated blocks, near misses
Bytes long_new(Src &s, const Bytes &basis, size_t bl, size_t n, std::string &d) {
    Bytes nw(n); size_t at = 0; int style = (int)s.weighted({3, 2, 2, 2, 2}); Rng r(s.draw(0, 1 << 20));
    d = (const char *[]){"misses", "matches", "repeats", "near-misses", "mixture"}[style];
    while (at < n) {
        int w = style < 4 ? style : (int)(r.next() % 4);
        size_t k = std::min<size_t>(n - at, 1 + r.next() % (style < 4 ? n : 1u << (r.next() % 21)));
        if (basis.size() < bl) w = 0;
        switch (w) {
        case 0: fill_random(nw.data() + at, k, r.next()); break;
        case 1: { size_t o = r.next() % basis.size(); k = std::min(k, basis.size() - o); memcpy(nw.data() + at, basis.data() + o, k); break; }
        case 2: { size_t o = (r.next() % (basis.size() / bl)) * bl; for (size_t i = 0; i < k; i += bl) memcpy(nw.data() + at + i, basis.data() + o, std::min(bl, k - i)); break; }
        default: { size_t o = r.next() % basis.size(); k = std::min(k, basis.size() - o); memcpy(nw.data() + at, basis.data() + o, k); for (size_t i = r.next() % bl; i < k; i += bl) nw[at + i] ^= 1; break; }
        }
        at += k;
    }
    return nw;
}
}
static void check_peak(uint64_t peak, uint64_t bound, const std::string &desc) {
    CHECK(peak <= bound, "%s: the library held %llu bytes of memory at once, more than %llu", desc.c_str(), (ull)peak, (ull)bound);
}
static void c24_stream(Ctx &c, bool whole) {
    Src &s = c.s;
    if (!lib_heap_available()) throw Discard();
    int kind = (int)s.weighted({2, 4, 1, 3});     // sig, delta, slack delta, patch
    uint32_t magic = gen_magic(s);
    size_t bl = gen_block_len(s, s.flip() ? 3000 : 100000), sl = gen_strong_len(s, magic, 4);
    size_t K = s.size(64, s.chance(1, 4) ? 200000 : 20000), M = s.size(64, s.chance(1, 4) ? 200000 : 20000);
    uint64_t fseed = s.draw(0, 1 << 20); unsigned starve = s.chance(1, 3) ? (unsigned)s.draw(1, 12) : 0;
    bool pull = !whole && s.chance(1, 3);
    int inb = 0, outb = 0;
    if (whole && s.flip()) { inb = (int)K; outb = (int)M; }
    // The memory an operation may use: some blocks, some commands and some
    // offered buffers, and nothing that depends on how long the streams are.
    uint64_t base = kind == 0 ? 128 << 10 : kind == 3 ? 128 << 10 : 1 << 20, perbl = kind == 3 ? 0 : 16;
    uint64_t bound = base + perbl * bl + 8 * (uint64_t)K;
    if (whole) bound += (inb ? (uint64_t)inb : kind == 3 ? 256 << 10 : (1 << 20)) + (outb ? (uint64_t)outb : 1 << 20) + (64 << 10);
    size_t n = (size_t)std::min<uint64_t>(bound * (2 + s.draw(0, 2)), 16 << 20);
    if (s.chance(1, 6)) n = std::max(n, (size_t)(8 << 20)); // slow growth shows on longer streams
    Bytes in; std::string d; SigHolder h; Basis bs; Bytes bdata; uint64_t expect_out = 0; bool ok = true;
    if (kind == 0) { if ((n / bl) * 400 > (64u << 20)) n = bl * 160000; in.resize(n); fill_random(in.data(), n, fseed, s.flip() ? 256 : 2); d = strf("signature of %zu bytes, block length %zu", n, bl); expect_out = 12 + (uint64_t)((n + bl - 1) / bl) * (4 + sl); }
    else if (kind == 1 || kind == 2) {
        if (bl < 16) bl = 16 + bl;
        Bytes basis(kind == 1 ? std::min<size_t>(bl * s.draw(1, 60) + s.draw(0, 3), 4 << 20) : 0);
        fill_random(basis.data(), basis.size(), s.draw(0, 1 << 20));
        if (kind == 1) load_ok(ref_sig(basis, magic, bl, sl).encode(), h);
        std::string st; in = long_new(s, basis, bl, n, st);
        d = strf("%s of %zu bytes (%s), block length %zu", kind == 1 ? "delta" : "signature-less delta", n, st.c_str(), bl);
    } else {
        bdata.resize(1 << 16); fill_random(bdata.data(), bdata.size(), 7); bs.data = &bdata; bs.seed = s.draw(0, 1 << 20); bs.partial = s.flip() ? 4 : 0; bs.own = s.flip() ? 4 : 0;
        in = {0x72, 0x73, 0x02, 0x36}; Rng r(s.draw(0, 1 << 20));
        int style = (int)s.draw(0, 3);      // 0 one huge literal, 1 long literals and copies, 2 many small commands, 3 declared but absent
        if (style == 0) { Bytes b(n); fill_random(b.data(), n, r.next()); put_lit(in, b.data(), n, 4); expect_out = n; }
        else if (style == 3) {
            uint64_t big = s.big(1ull << 20, INT64_MAX / 2); Bytes t;
            if (s.flip()) { in.push_back(0x44); for (int i = 7; i >= 0; i--) in.push_back((uint8_t)(big >> (8 * i))); for (size_t i = 0; i < n / 4; i++) in.push_back((uint8_t)r.next()); }
            else put_copy(in, s.draw(0, 1 << 15), big, 8, 8);
            ok = false;
        } else while (expect_out < n) {
            size_t mx = style == 1 ? 1 << 19 : 200;
            if (r.next() & 1) { Bytes b(1 + r.next() % mx); fill_random(b.data(), b.size(), r.next()); put_lit(in, b.data(), b.size(), b.size() <= 64 ? 0 : 4); expect_out += b.size(); }
            else { uint64_t o = r.next() % (1 << 16), k = 1 + r.next() % std::min<uint64_t>(mx, (1 << 16) - o); put_copy(in, o, k, 4, 4); expect_out += k; }
        }
        if (ok) in.push_back(0);
        d = strf("patch (%s) of %zu delta bytes", (const char *[]){"one literal", "long commands", "short commands", "declared size only"}[style], in.size());
    }
    rs_result r; uint64_t outn = 0;
    if (whole) {
        MemFile mi, mo, mb; mi.data = in; mb.data = bdata;
        d += inb ? strf(", whole-file, buffers %d/%d", inb, outb) : ", whole-file";
        FILE *fi = mem_open(&mi, "r", SIZE_MAX), *fo = mem_open(&mo, "w", SIZE_MAX), *fb = mem_open(&mb, "r", SIZE_MAX);
        rs_inbuflen = inb; rs_outbuflen = outb;
        if (kind == 2) { fclose(fi); fclose(fo); fclose(fb); rs_inbuflen = rs_outbuflen = 0; throw Discard(); }
        lib_heap_reset();
        { LibScope l; r = kind == 0 ? rs_sig_file(fi, fo, bl, sl, (rs_magic_number)magic, nullptr) : kind == 1 ? rs_delta_file(h.s, fi, fo, nullptr) : rs_patch_file(fb, fi, fo, nullptr); }
        rs_inbuflen = rs_outbuflen = 0;
        check_peak(lib_peak_bytes(), bound, d);
        fclose(fi); fclose(fo); fclose(fb); outn = mo.data.size();
    } else {
        lib_heap_reset();
        JobHolder j; { LibScope l; j.j = kind == 0 ? rs_sig_begin(bl, sl, (rs_magic_number)magic) : kind == 3 ? rs_patch_begin(basis_cb, &bs) : rs_delta_begin(h.s); }
        CHECK(j.j, "job could not be created");
        Feed f(in, K, M, fseed, starve);
        d += strf(", %s offers of up to %zu bytes, output up to %zu", pull ? "pulled" : "pushed", K, M);
        r = pull ? f.drive(j.j) : f.run(j.j);
        check_peak(lib_peak_bytes(), bound, d);
        j.reset(); outn = f.out;
        if (pull && r == RS_DONE) expect_out = 0; // what the last drain left is not counted
    }
    if (ok) CHECK(r == RS_DONE, "%s: %s", d.c_str(), res_name(r)); else CHECK(r != RS_DONE, "%s: accepted", d.c_str());
    if (ok && expect_out) CHECK(outn == expect_out, "%s: %llu bytes of output, expected %llu", d.c_str(), (ull)outn, (ull)expect_out);
    c.nontrivial = std::max<uint64_t>(in.size(), expect_out) >= 2 * bound || !ok;
    c.label((const char *[]){"sig", "delta", "slack", "patch"}[kind]); c.label(whole ? "file" : pull ? "pull" : "push"); if (starve) c.label("starved-output");
    c.describe("%s; limit %llu", d.c_str(), (ull)bound);
}
PROPERTY(C24, stream) { c24_stream(c, false); }
PROPERTY(C24, file) { c24_stream(c, true); }
// rs_inbuflen and rs_outbuflen replace the buffers that whole-file calls choose themselves.
PROPERTY(C24, configured) {
    Src &s = c.s;
    if (!lib_heap_available()) throw Discard();
    int kind = (int)s.draw(0, 2);     // sig, delta, patch
    uint32_t magic = gen_magic(s); size_t bl = 16 + s.size(0, 2000), sl = gen_strong_len(s, magic, 8);
    size_t inb = s.size(1, 1 << 20), outb = s.size(1, 1 << 20);
    size_t n = std::min<size_t>(s.size(1, 400000), 1000 + 3000 * std::min(inb, outb));
    MemFile mi, mo, mb; SigHolder h;
    uint64_t bound = (16 << 10) + inb + outb + 8 * bl;
    if (kind == 2) {
        mb.data.resize(n); fill_random(mb.data.data(), n, 3); mi.data = {0x72, 0x73, 0x02, 0x36}; Rng r(s.draw(0, 1 << 20));
        for (size_t out = 0; out < n;) { size_t k = 1 + r.next() % (n - out); if (r.next() & 1) put_lit(mi.data, mb.data.data(), k, 4); else put_copy(mi.data, r.next() % (n - k + 1), k, 4, 4); out += k; }
        mi.data.push_back(0);
    } else {
        if (kind == 1) { Bytes basis(std::min<size_t>(n, 40 * bl)); fill_random(basis.data(), basis.size(), 5); load_ok(ref_sig(basis, magic, bl, sl).encode(), h); std::string st; mi.data = long_new(s, basis, bl, n, st); bound += 4 * (65536 + bl) + 2 * inb; }
        else { mi.data.resize(n); fill_random(mi.data.data(), n, 7); }
    }
    FILE *fi = mem_open(&mi, "r", 0), *fo = mem_open(&mo, "w", 0), *fb = mem_open(&mb, "r", 0);
    rs_result r;
    rs_inbuflen = (int)inb; rs_outbuflen = (int)outb;
    lib_heap_reset();
    { LibScope l; r = kind == 0 ? rs_sig_file(fi, fo, bl, sl, (rs_magic_number)magic, nullptr) : kind == 1 ? rs_delta_file(h.s, fi, fo, nullptr) : rs_patch_file(fb, fi, fo, nullptr); }
    rs_inbuflen = rs_outbuflen = 0;
    uint64_t peak = lib_peak_bytes();
    fclose(fi); fclose(fo); fclose(fb);
    std::string d = strf("%s of %zu bytes, block length %zu, with buffers of %zu and %zu bytes configured", (const char *[]){"signature", "delta", "patch"}[kind], mi.data.size(), bl, inb, outb);
    CHECK(r == RS_DONE, "%s: %s", d.c_str(), res_name(r));
    check_peak(peak, bound, d);
    c.nontrivial = mi.data.size() > inb || mo.data.size() > outb;
    c.label((const char *[]){"sig", "delta", "patch"}[kind]);
    c.describe("%s: peak %llu of %llu", d.c_str(), (ull)peak, (ull)bound);
}
PROPERTY(C24, load) {
    Src &s = c.s;
    if (!lib_heap_available()) throw Discard();
    uint32_t magic = gen_magic(s); size_t sl = gen_strong_len(s, magic, 1);
    uint32_t bl = (uint32_t)s.big(1, INT32_MAX);
    size_t n = s.flip() ? s.size(0, 2000) : s.size(0, 60000);
    Bytes in; auto u32 = [&](uint32_t v) { for (int i = 3; i >= 0; i--) in.push_back((uint8_t)(v >> (8 * i))); };
    u32(magic); u32(bl); u32((uint32_t)sl);
    Rng r(s.draw(0, 1 << 20)); bool same = s.chance(1, 4);
    for (size_t i = 0; i < n; i++) { u32(same ? 5 : (uint32_t)r.next()); for (size_t k = 0; k < sl; k++) in.push_back(same ? 1 : (uint8_t)r.next()); }
    size_t K = s.size(64, 50000); int way = (int)s.draw(0, 3);
    uint64_t bound = (64 << 10) + 8 * (uint64_t)K + (way >= 2 ? 64 << 10 : 0) + n * (uint64_t)(150 + 8 * sl);
    SigHolder h; rs_result q; std::string d = strf("load of a signature of %zu %sblocks, declared block length %u, strong length %zu, %s", n, same ? "equal " : "", bl, sl, way >= 2 ? "whole-file" : way ? "pulled" : "pushed");
    FILE *rf = nullptr; if (way == 3) { std::string path; int fd = scratch_file(in, path); unlink(path.c_str()); rf = fdopen(fd, "rb"); if (!rf) fail("harness: fdopen"); }
    lib_heap_reset();
    if (way == 3) { { LibScope l; q = rs_loadsig_file(rf, &h.s, nullptr); } fclose(rf); }
    else if (way == 2) { MemFile m; m.data = in; m.can_seek = s.flip(); FILE *f = mem_open(&m, "r", SIZE_MAX); { LibScope l; q = rs_loadsig_file(f, &h.s, nullptr); } fclose(f); }
    else { JobHolder j; { LibScope l; j.j = rs_loadsig_begin(&h.s); } Feed f(in, K, 1, r.next(), 0); if (way) { rs_buffers_t b; memset(&b, 0, sizeof b); LibScope l; q = rs_job_drive(j.j, &b, Feed::in_cb, &f, nullptr, nullptr); } else q = f.run(j.j); }
    CHECK(q == RS_DONE, "%s: %s", d.c_str(), res_name(q));
    check_peak(lib_peak_bytes(), bound, d);
    { LibScope l; q = rs_build_hash_table(h.s); }
    CHECK(q == RS_DONE, "%s: rs_build_hash_table: %s", d.c_str(), res_name(q));
    check_peak(lib_peak_bytes(), bound, d + ", indexed");
    c.nontrivial = n > 0; if (same) c.label("equal-blocks"); c.label(way == 3 ? "real-file" : way == 2 ? "file" : way ? "pull" : "push"); if (bl > (1 << 24)) c.label("huge-block-length");
    c.describe("%s; limit %llu", d.c_str(), (ull)bound);
}

// ------------------------------------------------------------------ C25
namespace {
// A stream of the caller's: memory or real file, with a model of its content.
struct Stm {
    MemFile m; FILE *f = nullptr; std::string path; bool real = false;
    ~Stm() { if (f) fclose(f); if (!path.empty()) unlink(path.c_str()); }
    void open(Src &s, const Bytes &content, const char *mode) {
        real = s.flip();
        size_t sb = s.pick(std::vector<size_t>{SIZE_MAX, SIZE_MAX, 0, 1, 7, 512, 100000});
        if (real) { int fd = scratch_file(content, path); ::close(fd); f = fopen(path.c_str(), mode); if (!f) fail("harness: fopen %s", path.c_str()); if (sb == 0) setvbuf(f, nullptr, _IONBF, 0); else if (sb != SIZE_MAX) setvbuf(f, nullptr, _IOFBF, sb); }
        else { m.data = content; f = mem_open(&m, mode, sb); }
    }
    Bytes content() { // everything in the stream, as another reader would see it
        if (fflush(f)) fail("the stream can no longer be flushed: %s", strerror(errno));
        if (!real) return m.data;
        FILE *g = fopen(path.c_str(), "rb"); if (!g) fail("harness: reopen");
        Bytes b; int ch; while ((ch = getc(g)) != EOF) b.push_back((uint8_t)ch); fclose(g); return b;
    }
    void usable(const char *what) {
        CHECK(real || !m.closed, "the %s stream was closed", what);
        if (real) { struct stat st; int fd = fileno(f); CHECK(fd >= 0 && fstat(fd, &st) == 0, "the %s stream was closed", what); }
        CHECK(ftello(f) >= 0, "the %s stream cannot tell its position any more", what);
    }
    // whole content, read again through the same stream
    void reread(const char *what, const Bytes &want) {
        CHECK(fseeko(f, 0, SEEK_SET) == 0, "the %s stream cannot be repositioned any more", what);
        Bytes got(want.size() + 1); size_t k = fread(got.data(), 1, got.size(), f); got.resize(k);
        CHECK(!ferror(f), "the %s stream cannot be read any more", what);
        expect_same(got, want, strf("the %s read again through its stream", what).c_str());
    }
    // move to `at` the way a caller might
    void go(Src &s, size_t at, size_t total, bool seekonly = false) {
        int w = seekonly ? (int)s.draw(0, 1) : (int)s.draw(0, 4); Bytes t(at);
        switch (w) {
        case 0: if (fseeko(f, (off_t)at, SEEK_SET)) fail("harness: seek"); break;
        case 1: if (fseeko(f, (off_t)at - (off_t)total, SEEK_END)) fail("harness: seek"); break;
        case 2: if (at && fread(t.data(), 1, at, f) != at) fail("harness: read"); break;
        case 3: for (size_t i = 0; i < at; i++) if (getc(f) == EOF) fail("harness: getc"); break;
        default: { while (getc(f) != EOF) {} if (fseeko(f, (off_t)at, SEEK_SET)) fail("harness: seek"); break; } // read to the end and come back
        }
    }
};
Bytes cat(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
Bytes gen_pad(Src &s) { Bytes b(s.chance(1, 4) ? 0 : s.size(0, 9000)); fill_random(b.data(), b.size(), s.draw(0, 1 << 16)); return b; }
}
static void c25_single(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, maxn, maxbl);
    if (j.kind == 3) throw Discard();       // needs a signature
    Iface w; Outcome ref = run_spec(j, w, probe);
    Stm in, out, bs; Bytes pin = gen_pad(s), pout = gen_pad(s), old = s.flip() ? gen_pad(s) : Bytes(), trailer = gen_pad(s);
    Bytes whole_in = cat(pin, j.in);
    in.open(s, whole_in, s.flip() ? "rb" : "r+b"); in.go(s, pin.size(), whole_in.size());
    int omode = (int)s.draw(0, 3);          // 0 fresh, written by the caller first; 1 overwrite in the middle; 2 append; 3 fresh, updating
    bool has_out = j.kind != 1, has_basis = j.kind == 4;
    if (has_out) {
        if (omode == 0 || omode == 3) { out.open(s, Bytes(), omode ? "w+b" : "wb"); old.clear(); if (pout.size() && fwrite(pout.data(), 1, pout.size(), out.f) != pout.size()) fail("harness: write"); if (s.flip()) fflush(out.f); }
        else if (omode == 1) { out.open(s, cat(pout, old), "r+b"); out.go(s, pout.size(), pout.size() + old.size(), s.flip()); if (fseeko(out.f, 0, SEEK_CUR)) fail("harness: seek"); }
        else { old.clear(); out.open(s, pout, "ab"); if (!out.real && fseeko(out.f, 0, SEEK_END)) fail("harness: seek"); if (out.real) fseeko(out.f, 0, SEEK_END); }
    }
    size_t bpos = 0;
    if (has_basis) { bs.open(s, j.basis, s.flip() ? "rb" : "r+b"); bpos = s.draw(0, j.basis.size()); bs.go(s, bpos, j.basis.size()); }
    rs_stats_t st; memset(&st, 0, sizeof st); bool stats = s.flip();
    if (s.chance(1, 3)) { rs_inbuflen = (int)s.size(1 + j.in.size() / 3000, 70000); rs_outbuflen = (int)s.size(1 + ref.out.size() / 3000, 70000); }
    SigHolder sh; rs_result r;
    {
        LibScope l;
        switch (j.kind) {
        case 0: r = rs_sig_file(in.f, out.f, j.sp.block_len, j.sp.strong_len, (rs_magic_number)j.sp.magic, stats ? &st : nullptr); break;
        case 1: r = rs_loadsig_file(in.f, &sh.s, stats ? &st : nullptr); break;
        case 2: r = rs_delta_file(j.sig, in.f, out.f, stats ? &st : nullptr); break;
        default: r = rs_patch_file(bs.f, in.f, out.f, stats ? &st : nullptr); break;
        }
    }
    rs_inbuflen = rs_outbuflen = 0;
    std::string d = strf("%s, input after %zu bytes of other data, output after %zu%s", j.desc.c_str(), pin.size(), pout.size(), (const char *[]){" just written", " of an existing file", " appended", " just written, update mode"}[omode]);
    CHECK(r == ref.res || (has_basis && r != RS_DONE && ref.res != RS_DONE), "%s: %s, but %s for the same data alone", d.c_str(), res_name(r), res_name(ref.res));
    in.usable("input"); if (has_out) out.usable("output"); if (has_basis) bs.usable("basis");
    if (r == RS_DONE && j.kind == 1) {
        { LibScope l; rs_build_hash_table(sh.s); }
        std::string x = dump_text(sh.s);
        Iface w2; RunResult dd = op_delta(sh.s, probe, w2); x.append((char *)dd.out.data(), dd.out.size());
        CHECK(x == ref.extra, "%s: the loaded signature differs", d.c_str());
    }
    if (has_out) {
        if (r == RS_DONE) {
            off_t at = ftello(out.f);
            CHECK(at == (off_t)(pout.size() + ref.out.size()), "%s: output stream at position %lld, expected %zu", d.c_str(), (long long)at, pout.size() + ref.out.size());
            Bytes want = cat(pout, ref.out);
            if (s.flip()) { if (trailer.size()) CHECK(fwrite(trailer.data(), 1, trailer.size(), out.f) == trailer.size(), "%s: the output stream cannot be written any more", d.c_str()); want = cat(want, trailer); }
            if (want.size() < pout.size() + old.size()) want.insert(want.end(), old.begin() + (want.size() - pout.size()), old.end());
            expect_same(out.content(), want, strf("%s: content of the output file", d.c_str()).c_str());
        } else {
            Bytes got = out.content();
            CHECK(got.size() >= pout.size() && !memcmp(got.data(), pout.data(), pout.size()), "%s: failed, and what preceded the output was changed", d.c_str());
        }
    }
    in.reread("input", whole_in);
    if (has_basis) bs.reread("basis", j.basis);
    if (stats && r == RS_DONE && !j.damaged) CHECK((uint64_t)st.in_bytes == j.in.size(), "%s: in_bytes %lld, expected %zu", d.c_str(), (long long)st.in_bytes, j.in.size());
    c.nontrivial = (pin.size() || (has_out && pout.size()) || bpos) && !j.in.empty();
    c.label(KINDS[j.kind]); if (has_out) c.label((const char *[]){"out-fresh", "out-middle", "out-append", "out-update"}[omode]); if (j.damaged) c.label("damaged"); if (in.real) c.label("real-input"); if (has_out && out.real) c.label("real-output");
    c.describe("%s: %s", d.c_str(), res_name(r));
}
PROPERTY(C25, small) { c25_single(c, 3000, 300); }
PROPERTY(C25, large) { c25_single(c, 400000, 20000); }
// A round trip in which every product is written and read back through the
// same streams, several times over, without closing anything.
PROPERTY(C25, chain) {
    Src &s = c.s;
    uint32_t magic = gen_magic(s); size_t bl = gen_block_len(s, 300), sl = gen_strong_len(s, magic, 8);
    if (bl < 4) bl += 4;
    Bytes b0, n0; gen_pair(s, bl, magic, 4000, 4000, b0, n0);
    Stm bf, sf, df, nf; Bytes junk;
    bf.open(s, b0, "r+b"); sf.open(s, junk, "w+b"); df.open(s, junk, "w+b"); nf.open(s, junk, "w+b");
    Bytes smodel, dmodel, nmodel; unsigned rounds = (unsigned)s.draw(1, 5); std::string d;
    auto pad = [&](Stm &f, Bytes &model) { Bytes p = gen_pad(s); CHECK(fseeko(f.f, 0, SEEK_END) == 0, "a stream cannot be repositioned any more"); if (p.size()) CHECK(fwrite(p.data(), 1, p.size(), f.f) == p.size(), "a stream cannot be written any more"); model = cat(model, p); return model.size(); };
    auto rs_ok = [&](rs_result r, const char *what) { CHECK(r == RS_DONE, "%s in round %s: %s", what, d.c_str(), res_name(r)); };
    for (unsigned k = 0; k < rounds; k++) {
        d = strf("%u of %u (magic %x, block length %zu, strong length %zu, basis %zu)", k + 1, rounds, magic, bl, sl, b0.size());
        Bytes nw; Bytes bb; if (k == 0) nw = n0; else { nw = n0; for (unsigned i = 0; i < 3 && !nw.empty(); i++) nw[s.draw(0, nw.size() - 1)] ^= 1; if (s.flip()) nw = cat(nw, gen_pad(s)); }
        size_t sp = pad(sf, smodel), dp = pad(df, dmodel), np = pad(nf, nmodel);
        CHECK(fseeko(bf.f, 0, SEEK_SET) == 0, "the basis cannot be repositioned any more");
        rs_result r; { LibScope l; r = rs_sig_file(bf.f, sf.f, bl, sl, (rs_magic_number)magic, nullptr); } rs_ok(r, "signature");
        Bytes ss = ref_sig(b0, magic, bl, sl).encode(); smodel = cat(smodel, ss);
        expect_same(sf.content(), smodel, strf("signature file after round %s", d.c_str()).c_str());
        if (fseeko(sf.f, (off_t)sp, SEEK_SET)) fail("the signature stream cannot be repositioned any more");
        SigHolder h; { LibScope l; r = rs_loadsig_file(sf.f, &h.s, nullptr); } rs_ok(r, "load"); { LibScope l; r = rs_build_hash_table(h.s); } rs_ok(r, "index");
        Stm ns; Bytes pre = gen_pad(s), both = cat(pre, nw); ns.open(s, both, "rb"); ns.go(s, pre.size(), both.size());
        { LibScope l; r = rs_delta_file(h.s, ns.f, df.f, nullptr); } rs_ok(r, "delta");
        Bytes dd = df.content(); CHECK(dd.size() > dp && !memcmp(dd.data(), dmodel.data(), dp), "round %s: the delta did not go after what was already in its file", d.c_str()); dmodel = dd;
        if (fseeko(df.f, (off_t)dp, SEEK_SET)) fail("the delta stream cannot be repositioned any more");
        if (s.flip()) bf.go(s, s.draw(0, b0.size()), b0.size(), true);
        { LibScope l; r = rs_patch_file(bf.f, df.f, nf.f, nullptr); } rs_ok(r, "patch");
        nmodel = cat(nmodel, nw);
        expect_same(nf.content(), nmodel, strf("new file after round %s", d.c_str()).c_str());
        (void)np;
    }
    bf.reread("basis", b0); sf.reread("signatures", smodel); df.reread("deltas", dmodel); nf.reread("new files", nmodel);
    c.nontrivial = !b0.empty() && !n0.empty() && rounds > 1;
    c.describe("round %s, new file %zu bytes, files of %zu, %zu, %zu bytes", d.c_str(), n0.size(), smodel.size(), dmodel.size(), nmodel.size());
}

// ------------------------------------------------------------------ C26
static void check_work(uint64_t w, uint64_t bound, const std::string &desc) {
    CHECK(w <= bound, "%s: the library did %llu units of work, more than %llu", desc.c_str(), (ull)w, (ull)bound);
}
static size_t c26_slice(Src &s, size_t n) { size_t lo = 1 + n / 40000; return s.flip() ? s.size(lo, lo + 64) : s.size(lo, 300000); }
PROPERTY(C26, stream) {
    Src &s = c.s;
    if (!lib_work_available()) throw Discard();
    int kind = (int)s.weighted({2, 5, 1, 3});     // sig, delta, slack delta, patch
    uint32_t magic = gen_magic(s); size_t sl = gen_strong_len(s, magic, 8);
    size_t n = s.flip() ? s.size(0, 100000) : s.size(0, 1500000);
    size_t bl = s.flip() ? (size_t)1 << s.draw(4, 17) : 16 + gen_block_len(s, 100000);
    if (n / bl > 60000) n = 60000 * bl;
    Bytes in; std::string d; SigHolder h; Basis bs; Bytes bdata; uint64_t out_bytes = 0, extra = 0;
    if (kind == 0) {
        if (s.chance(1, 4)) bl = 1 + s.draw(0, 15);
        if (n / bl > 60000) n = 60000 * bl;
        in.resize(n); fill_random(in.data(), n, s.draw(0, 1 << 20), s.flip() ? 256 : 2); d = strf("signature of %zu bytes, block length %zu", n, bl); out_bytes = 12 + (n / bl + 1) * (4 + sl);
    } else if (kind == 1 || kind == 2) {
        Bytes basis(kind == 1 ? std::min<size_t>(bl * s.draw(1, s.flip() ? 60 : 4000) + s.draw(0, 3), 1 << 20) : 0);
        fill_random(basis.data(), basis.size(), s.draw(0, 1 << 20));
        std::string st; in = long_new(s, basis, bl, n, st);
        if (kind == 1) {
            RefSig rs = ref_sig(basis, magic, bl, sl); load_ok(rs.encode(), h);
            Greedy g = ref_greedy(rs, in); extra = g.false_weak * (uint64_t)bl;   // candidates to be told apart by their strong sums
            if (g.false_weak > 2000) throw Discard();
        }
        out_bytes = n + 3 * (n / bl + 1) * 4;
        d = strf("%s of %zu bytes (%s), block length %zu, basis %zu", kind == 1 ? "delta" : "signature-less delta", n, st.c_str(), bl, basis.size());
    } else {
        bdata.resize(1 << 16); fill_random(bdata.data(), bdata.size(), 7); bs.data = &bdata; bs.seed = 1;
        in = {0x72, 0x73, 0x02, 0x36}; Rng r(s.draw(0, 1 << 20)); size_t mx = s.size(1, 1 << 18), cmds = 0;
        while (out_bytes < n && cmds < 40000) {
            cmds++;
            if (r.next() & 1) { Bytes b(1 + r.next() % mx); fill_random(b.data(), b.size(), r.next()); put_lit(in, b.data(), b.size(), b.size() <= 64 ? 0 : 4); out_bytes += b.size(); }
            else { uint64_t o = r.next() % (1 << 16), k = 1 + r.next() % std::min<uint64_t>(mx, (1 << 16) - o); put_copy(in, o, k, 4, 4); out_bytes += k; }
        }
        in.push_back(0);
        d = strf("patch of %zu commands, %zu delta bytes", cmds, in.size());
    }
    size_t K = c26_slice(s, in.size()), M = c26_slice(s, out_bytes);
    uint64_t seed = s.draw(0, 1 << 20); int way = (int)s.draw(0, 2); if (kind == 2 && way == 2) way = 0;
    uint64_t calls = 0, w; rs_result r;
    if (way == 2) {
        MemFile mi, mo, mb; mi.data = in; mb.data = bdata;
        bool set = s.flip(); if (set) { rs_inbuflen = (int)K; rs_outbuflen = (int)M; }
        d += set ? strf(", whole-file, buffers %zu/%zu", K, M) : ", whole-file";
        calls = set ? in.size() / K + out_bytes / M : in.size() / 1000 + out_bytes / 1000;
        FILE *fi = mem_open(&mi, "r", SIZE_MAX), *fo = mem_open(&mo, "w", SIZE_MAX), *fb = mem_open(&mb, "r", SIZE_MAX);
        uint64_t w0 = lib_work();
        { LibScope l; r = kind == 0 ? rs_sig_file(fi, fo, bl, sl, (rs_magic_number)magic, nullptr) : kind == 1 ? rs_delta_file(h.s, fi, fo, nullptr) : rs_patch_file(fb, fi, fo, nullptr); }
        w = lib_work() - w0; rs_inbuflen = rs_outbuflen = 0;
        fclose(fi); fclose(fo); fclose(fb);
    } else {
        Feed f(in, K, M, seed, 0);
        uint64_t w0 = lib_work();
        JobHolder j; { LibScope l; j.j = kind == 0 ? rs_sig_begin(bl, sl, (rs_magic_number)magic) : kind == 3 ? rs_patch_begin(basis_cb, &bs) : rs_delta_begin(h.s); }
        CHECK(j.j, "job could not be created");
        r = way ? f.drive(j.j) : f.run(j.j);
        w = lib_work() - w0; calls = f.calls + in.size() / K;
        d += strf(", %s offers of up to %zu bytes, output up to %zu", way ? "pulled" : "pushed", K, M);
        j.reset();
    }
    CHECK(r == RS_DONE, "%s: %s", d.c_str(), res_name(r));
    uint64_t bound = 20000 + 60 * (uint64_t)(in.size() + out_bytes + extra) + 100 * calls;
    check_work(w, bound, d);
    c.nontrivial = in.size() >= 10000; c.label((const char *[]){"sig", "delta", "slack", "patch"}[kind]); c.label(way == 2 ? "file" : way ? "pull" : "push");
    c.describe("%s; %llu units of work, limit %llu", d.c_str(), (ull)w, (ull)bound);
}
PROPERTY(C26, load) {
    Src &s = c.s;
    if (!lib_work_available()) throw Discard();
    uint32_t magic = gen_magic(s); size_t sl = gen_strong_len(s, magic, 8);
    size_t n = s.flip() ? s.size(0, 3000) : s.size(0, 40000), bl = 16;
    int style = (int)s.draw(0, magic == M_RK_MD4 || magic == M_RK_BLAKE2 ? 1 : 5); Rng r(s.draw(0, 1 << 20)); unsigned sh = (unsigned)s.draw(0, 12); uint32_t start = (uint32_t)r.next(), step = (uint32_t)(r.next() | 1);
    RefSig g; g.magic = magic; g.block_len = (uint32_t)bl; g.strong_len = (uint32_t)sl;
    for (size_t i = 0; i < n; i++) {
        SigEntry e;
        e.weak = style == 0 ? (uint32_t)i * 2654435761u : style == 1 ? 5 : style == 2 ? start + (uint32_t)i : style == 3 ? (uint32_t)i << sh : style == 4 ? start + (uint32_t)i * step : (uint32_t)(i % 256) << 16 | (uint32_t)(i / 256);
        for (auto &x : e.strong) x = style == 1 ? 1 : (uint8_t)r.next();
        g.e.push_back(e);
    }
    Bytes in = g.encode(); size_t K = c26_slice(s, in.size());
    std::string d = strf("load of %zu blocks (%s), strong length %zu, offers of up to %zu", n, (const char *[]){"spread", "equal", "consecutive", "shifted", "arithmetic", "two-part"}[style], sl, K);
    uint64_t w0 = lib_work(), a0 = lib_total_bytes(); SigHolder h; rs_result q; uint64_t calls;
    { JobHolder j; { LibScope l; j.j = rs_loadsig_begin(&h.s); } Feed f(in, K, 1, r.next(), 0); q = f.run(j.j); calls = f.calls; }
    CHECK(q == RS_DONE, "%s: %s", d.c_str(), res_name(q));
    uint64_t w1 = lib_work();
    check_work(w1 - w0, 20000 + 30 * (uint64_t)in.size() + 100 * calls, d);
    { LibScope l; q = rs_build_hash_table(h.s); } CHECK(q == RS_DONE, "%s: %s", d.c_str(), res_name(q));
    uint64_t w2 = lib_work();
    check_work(w2 - w1, 20000 + 120 * (uint64_t)n, d + ", indexed");
    uint64_t a = lib_total_bytes() - a0, amax = (256 << 10) + 8 * (uint64_t)K + n * (uint64_t)(600 + 16 * sl);
    CHECK(!lib_heap_available() || a <= amax, "%s: the library allocated %llu bytes in all, more than %llu", d.c_str(), (ull)a, (ull)amax);
    // look up every position of unrelated data
    Bytes nw(n ? 100000 : 0); fill_random(nw.data(), nw.size(), r.next());
    uint64_t w3 = lib_work(); Iface w; RunResult dd = op_delta(h.s, nw, w); CHECK(dd.res == RS_DONE, "delta");
    check_work(lib_work() - w3, 20000 + 100 * (uint64_t)nw.size(), d + ", searched");
    c.nontrivial = n >= 100; c.label((const char *[]){"spread", "equal", "consecutive", "shifted", "arithmetic", "two-part"}[style]);
    c.describe("%s", d.c_str());
}

// ------------------------------------------------------------------ C29
// Jobs pass on what they can: whatever the input accepted so far determines is
// in the output as soon as there is room for it.
namespace {
struct Due { uint64_t in, out; bool part; };    // by `in` bytes of input, `out` bytes of output are due (part: byte by byte since the previous point)
struct DueList {
    std::vector<Due> v; size_t i = 0;           // queried with growing n
    uint64_t at(uint64_t n) {
        while (i + 1 < v.size() && v[i + 1].in <= n) i++;
        uint64_t o = v[i].out;
        if (i + 1 < v.size() && v[i + 1].part) o += n - v[i].in;
        return o;
    }
};
}
static void c29(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    int kind = (int)s.weighted({3, 3, 2, 5});     // sig, delta, slack delta, patch
    uint32_t magic = gen_magic(s); size_t bl = gen_block_len(s, maxbl), sl = gen_strong_len(s, magic, 8);
    Bytes in, want; std::string d; SigHolder h; DueList due; Bytes basis; uint64_t endat = UINT64_MAX; bool exact = true;
    Iface whole; JobHolder j; Basis bs; size_t garbage = 0;
    if (kind == 0) {
        in = gen_content(s, s.chance(1, 3) ? s.draw(0, 8) * bl % (maxn + 1) : s.size(0, maxn), bl);
        want = ref_sig(in, magic, bl, sl).encode();
        for (uint64_t b = 0; b <= in.size() / bl; b++) due.v.push_back({b * bl, 12 + b * (4 + sl), false});
        d = strf("signature of %zu bytes, block length %zu", in.size(), bl);
        LibScope l; j.j = rs_sig_begin(bl, sl, (rs_magic_number)magic);
    } else if (kind == 1 || kind == 2) {
        const uint64_t L = 2 * (bl + 65536); exact = false;
        if (kind == 1) {
            std::string st; size_t n = (size_t)(L * s.draw(0, 4) + s.size(0, maxn));
            if (bl < 16) bl += 16;
            basis.resize(std::min<size_t>(bl * s.draw(1, 60) + s.draw(0, 3), 4 << 20)); fill_random(basis.data(), basis.size(), s.draw(0, 1 << 20));
            load_ok(ref_sig(basis, magic, bl, sl).encode(), h);
            in = long_new(s, basis, bl, n, st);
            d = strf("delta of %zu bytes (%s), block length %zu", n, st.c_str(), bl);
        } else { in = gen_content(s, s.size(0, maxn), 64); if (s.flip()) load_ok(ref_sig(Bytes(), magic, 512, 8).encode(), h); d = strf("signature-less delta of %zu bytes", in.size()); }
        if (kind == 1) {
            RunResult r = op_delta(h.s, in, whole); CHECK(r.res == RS_DONE, "%s: %s", d.c_str(), res_name(r.res));
            want = r.out; RefDelta rd; std::string e = ref_parse_delta(want, rd); CHECK(e.empty(), "%s: %s", d.c_str(), e.c_str());
            uint64_t pos = 0; due.v.push_back({0, 0, false});
            for (auto &k : rd.c) { if (k.k == Cmd::END) break; pos += k.len; due.v.push_back({pos + L, k.k == Cmd::LIT ? k.data + k.len : k.at + 1 + k.w1 + k.w2, false}); }
        }
        LibScope l; j.j = rs_delta_begin(h.s);
    } else {
        DeltaProg g = gen_delta(s, maxn > 20000 ? 60 : 30, std::max<size_t>(100, maxn / 10), std::max<size_t>(100, maxn / 4), false);
        basis = g.basis; in = g.delta; want = g.expect; endat = in.size();
        RefDelta rd; std::string e = ref_parse_delta(in, rd); CHECK(e.empty(), "harness: %s", e.c_str());
        uint64_t o = 0; due.v.push_back({0, 0, false});
        for (auto &k : rd.c) {
            if (k.k == Cmd::END) break;
            uint64_t hd = k.at + 1 + k.w1 + k.w2;
            if (k.k == Cmd::LIT) { due.v.push_back({hd, o, false}); o += k.len; due.v.push_back({hd + k.len, o, true}); }
            else { o += k.len; due.v.push_back({hd, o, false}); }
        }
        bs.data = &basis; bs.seed = s.draw(0, 999); if (s.chance(1, 3)) { bs.partial = (unsigned)s.draw(0, 12); bs.own = (unsigned)s.draw(0, 12); bs.block = (unsigned)s.draw(0, 8); }
        if (s.chance(1, 3)) { garbage = s.draw(1, 40); Bytes x(garbage); fill_random(x.data(), garbage, s.draw(0, 999)); in.insert(in.end(), x.begin(), x.end()); }
        d = strf("patch of %zu delta bytes (%zu commands), then %zu other bytes", g.delta.size(), g.cmds, garbage);
        LibScope l; j.j = rs_patch_begin(basis_cb, &bs);
    }
    CHECK(j.j, "job could not be created");
    size_t K = s.size(1, std::max<size_t>(1, in.size())), M = s.chance(2, 3) ? in.size() * 2 + want.size() + 4096 : s.size(1, 70000);
    K = std::max(K, in.size() / 4000 + 1); M = std::max(M, (in.size() + want.size()) / 4000 + 1);
    unsigned none = s.chance(1, 3) ? (unsigned)s.draw(1, 8) : 0; bool fixed = s.flip(), lateeof = s.flip(), noeof = kind == 3 && s.flip(); Rng rng(s.draw(0, 1 << 20));
    d += strf(", offers of up to %zu bytes", K);
    Bytes out, ob; size_t pos = 0; uint64_t calls = 0, checked = 0; rs_result r = RS_BLOCKED; size_t carry = 0;
    for (;;) {
        if (++calls > 200000) fail("%s: does not end", d.c_str());
        rs_buffers_t b; memset(&b, 0, sizeof b);
        size_t k = std::min<size_t>(in.size() - pos, std::max(carry, fixed ? K : (size_t)(1 + rng.next() % K))); if (none && rng.next() % 16 < none) k = carry;
        size_t m = fixed ? M : 1 + rng.next() % M; if (none && rng.next() % 16 < none) m = 0;
        bool eof = pos + k == in.size() && !noeof && (!lateeof || k == 0);
        Bytes ib(in.begin() + pos, in.begin() + pos + k); ob.resize(m);
        b.next_in = (char *)ib.data(); b.avail_in = k; b.eof_in = eof; b.next_out = (char *)ob.data(); b.avail_out = m;
        uint64_t bb = bs.blocked;
        { LibScope l; r = rs_job_iter(j.j, &b); }
        pos += k - b.avail_in; out.insert(out.end(), ob.begin(), ob.begin() + (m - b.avail_out)); carry = b.avail_in;
        if (bs.blocked != bb && r == RS_BLOCKED) continue;
        if (r != RS_BLOCKED) break;
        if (!b.avail_out) continue;
        checked++;
        // (a delta job may leave less than it needs for a decision in the caller's buffer)
        CHECK(!b.avail_in || (kind == 1 && b.avail_in <= 2 * (bl + 65536)), "%s: after %zu bytes the job waits with %zu more bytes of input and %zu bytes of output space on offer", d.c_str(), pos, (size_t)b.avail_in, (size_t)b.avail_out);
        CHECK(!eof, "%s: waits although the input has ended and %zu bytes of output space are left", d.c_str(), (size_t)b.avail_out);
        if (kind == 2) {
            uint64_t q = 4, cov = 0;             // literals only
            CHECK(out.size() >= 4, "%s: no header in %zu bytes of output", d.c_str(), out.size());
            while (q < out.size()) {
                uint8_t op = out[q]; int w = op <= 64 ? 0 : 1 << (op - 65); CHECK(op && op <= 68, "%s: command %#x", d.c_str(), op);
                if (q + 1 + w > out.size()) break;
                uint64_t len = w ? get_be(&out[q + 1], w) : op; uint64_t have = std::min<uint64_t>(len, out.size() - q - 1 - w);
                cov += have; q += 1 + w + len;
            }
            CHECK(cov == pos, "%s: %zu bytes were taken and output space was left, but only %llu are in the delta", d.c_str(), pos, (ull)cov);
        } else {
            uint64_t o = due.at(pos + b.avail_in);
            CHECK(out.size() >= o, "%s: %zu bytes of input were taken and %zu bytes of output space left, but only %zu bytes of output were given although %llu are determined", d.c_str(), pos, (size_t)b.avail_out, out.size(), (ull)o);
            if (exact) CHECK(out.size() == o, "%s: %zu bytes of output after %zu bytes of input, which determine only %llu", d.c_str(), out.size(), pos, (ull)o);
        }
        CHECK(pos < in.size() || !noeof || garbage, "%s: the end command was taken but the job waits for more input", d.c_str());
    }
    CHECK(r == RS_DONE, "%s: %s", d.c_str(), res_name(r));
    if (kind != 2) expect_same(out, want, d.c_str());
    if (kind == 3) CHECK(pos == endat, "%s: %zu bytes of input were taken, but the delta ends after %llu", d.c_str(), pos, (ull)endat);
    c.nontrivial = checked >= 2;
    c.label(kind == 0 ? "sig" : kind == 1 ? "delta" : kind == 2 ? "slack" : "patch");
    if (kind == 1 && due.v.size() > 1 && due.v[1].in < in.size()) c.label("delta-due");
    c.describe("%s, %llu calls, %llu waits checked", d.c_str(), (ull)calls, (ull)checked);
}
PROPERTY(C29, small) { c29(c, 3000, 300); }
PROPERTY(C29, large) { c29(c, 300000, 30000); }
