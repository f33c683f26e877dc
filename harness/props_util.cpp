// C15 MD4 digests, C16 text helpers, C23 file helpers.
#include "lib.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>

// ------------------------------------------------------------------ C15
namespace {
struct alignas(64) MdBuf { unsigned char b[2048]; rs_mdfour_t *p() { return (rs_mdfour_t *)b; } };
}
// lengths near the places where hashing code changes behaviour
static size_t md_len(Src &s, size_t max) {
    switch (s.weighted({4, 3, 2})) {
    case 0: { size_t k = s.draw(0, std::min<size_t>(12, max / 64)) * 64 + s.draw(0, 20); k = k > 10 ? k - 10 : 0; return std::min(k, max); }
    case 1: return s.size(0, max);
    default: return s.draw(0, std::min<size_t>(200, max));
    }
}
static void md_fill(Src &s, Bytes &b) {
    if (b.empty()) return;
    if (s.chance(1, 5)) memset(b.data(), (int)s.draw(0, 255), b.size()); else fill_random(b.data(), b.size(), s.draw(0, 0xffffff));
}
PROPERTY(C15, oneshot) {
    Src &s = c.s;
    Bytes m(md_len(s, s.chance(1, 20) ? 300000 : 4000)); md_fill(s, m);
    size_t off = s.draw(0, 7), ooff = s.draw(0, 7);
    uint8_t *raw = (uint8_t *)malloc(m.size() + off + 1);      // exact end: overreads are visible to the memory checker
    uint8_t *in = (uint8_t *)realloc(raw, m.size() + off ? m.size() + off : 1) + off;
    memcpy(in, m.data(), m.size());
    uint8_t out[64], want[16];
    memset(out, 0xA5, sizeof out);
    { LibScope l; rs_mdfour(out + 8 + ooff, in, m.size()); }
    bool kept = !memcmp(in, m.data(), m.size());
    free(in - off);
    ref_md4(m.data(), m.size(), want);
    CHECK(kept, "rs_mdfour modified its %zu-byte input", m.size());
    CHECK(!memcmp(out + 8 + ooff, want, 16), "MD4 of %zu bytes (offset %zu): got %s, RFC 1320 gives %s", m.size(), off, hexs(out + 8 + ooff, 16).c_str(), hexs(want, 16).c_str());
    for (size_t i = 0; i < sizeof out; i++) if (i < 8 + ooff || i >= 24 + ooff) CHECK(out[i] == 0xA5, "rs_mdfour wrote outside its 16-byte result");
    c.nontrivial = m.size() > 0;
    c.describe("one-shot MD4 of %zu bytes at misalignment %zu: %s", m.size(), off, hexs(want, 16).c_str());
}
// several digests in progress at once, each fed in generated pieces
PROPERTY(C15, chunks) {
    Src &s = c.s;
    size_t n = s.draw(1, 4);
    std::vector<MdBuf> md(n); std::vector<Bytes> msg(n); std::vector<size_t> at(n); std::vector<int> st(n);
    std::vector<unsigned> style(n);
    for (size_t i = 0; i < n; i++) { memset(md[i].b, (int)s.draw(0, 255), sizeof md[i].b); msg[i].resize(md_len(s, s.chance(1, 20) ? 60000 : 1500)); md_fill(s, msg[i]); style[i] = (unsigned)s.draw(0, 4); }
    size_t updates = 0, empties = 0, left = n;
    uint64_t rs = s.draw(0, 0xffffff);
    Rng r(rs);
    auto rnd = [&](uint64_t lo, uint64_t hi) { return updates < 60 ? s.draw(lo, hi) : lo + r.next() % (hi - lo + 1); };
    while (left) {
        size_t i = n == 1 ? 0 : rnd(0, n - 1);
        if (st[i] == 2) { for (i = 0; st[i] == 2; i++); }
        if (st[i] == 0) { LibScope l; rs_mdfour_begin(md[i].p()); st[i] = 1; continue; }
        size_t rem = msg[i].size() - at[i];
        if (rem == 0 && (rnd(0, 3) != 0)) {
            uint8_t out[48], want[16];
            memset(out, 0x5A, sizeof out);
            { LibScope l; rs_mdfour_result(md[i].p(), out + 16); }
            ref_md4(msg[i].data(), msg[i].size(), want);
            CHECK(!memcmp(out + 16, want, 16), "incremental MD4 of %zu bytes (digest %zu of %zu): got %s, RFC 1320 gives %s", msg[i].size(), i + 1, n, hexs(out + 16, 16).c_str(), hexs(want, 16).c_str());
            for (size_t k = 0; k < sizeof out; k++) if (k < 16 || k >= 32) CHECK(out[k] == 0x5A, "rs_mdfour_result wrote outside its result");
            // a finished context can be started again
            if (rnd(0, 5) == 0) { at[i] = 0; st[i] = 0; msg[i].resize(rnd(0, 130)); continue; }
            st[i] = 2; left--; continue;
        }
        size_t k = 0;
        switch (style[i]) {
        case 0: k = rnd(0, 3); break;
        case 1: k = rnd(0, 70); break;
        case 2: k = rnd(0, 1) ? 64 : rnd(60, 68); break;
        case 3: k = rnd(0, 400); break;
        default: k = rnd(0, rem);
        }
        if (updates > 3000) k = rem;
        k = std::min(k, rem);
        uint8_t *p = (uint8_t *)malloc(k ? k : 1);
        memcpy(p, msg[i].data() + at[i], k);
        { LibScope l; rs_mdfour_update(md[i].p(), p, k); }
        memset(p, 0xEE, k ? k : 1); free(p);
        at[i] += k; updates++; empties += k == 0;
    }
    c.nontrivial = updates > 1;
    if (empties) c.label("empty-update");
    if (n > 1) c.label("interleaved");
    c.describe("%zu digests, %zu updates (%zu empty), first message %zu bytes", n, updates, empties, msg[0].size());
}
// A repeating pattern mapped over and over: huge contiguous data for little memory.
namespace {
struct BigMap {
    uint8_t *p = nullptr; size_t n = 0, unit; int fd = -1;
    BigMap(size_t bytes, uint64_t seed, size_t u = 16u << 20) : unit(u) {
        n = (bytes + unit - 1) / unit * unit;
        fd = memfd_create("vh", 0);
        if (fd < 0 || ftruncate(fd, (off_t)unit)) fail("harness: memfd");
        p = (uint8_t *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { p = nullptr; fail("harness: mmap"); }
        for (size_t o = 0; o < n; o += unit) if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail("harness: mmap unit");
        fill_random(p, unit, seed);
    }
    ~BigMap() { if (p) munmap(p, n); if (fd >= 0) close(fd); }
};
}
PROPERTY(C15, huge) {
    Src &s = c.s;
    static const uint64_t B[] = {1ull << 29, 1ull << 32, 1ull << 31, (1ull << 32) + (1ull << 29)};
    uint64_t base = B[s.weighted({4, 3, 1, 1})];
    uint64_t n = s.chance(1, 4) ? base + s.draw(0, 1u << 20) : base + s.draw(0, 200) - 100;
    unsigned mode = (unsigned)s.draw(0, 2);
    BigMap bm(n, s.draw(0, 0xffff));
    uint8_t out[16], want[16];
    std::string how;
    if (mode == 0) { rs_mdfour(out, bm.p, n); how = "one call"; }
    else {
        MdBuf m; rs_mdfour_begin(m.p());
        Rng r(s.draw(0, 0xffff));
        uint64_t at = 0; unsigned u = 0;
        while (at < n) {
            uint64_t k = mode == 1 ? 1 + r.next() % (200u << 20) : (r.next() % 4 ? (uint64_t)(1 + r.next() % 100000) : (uint64_t)(r.next() % (n + 1)));
            if (u > 2000) k = n;
            k = std::min(k, n - at);
            rs_mdfour_update(m.p(), bm.p + at, k); at += k; u++;
        }
        rs_mdfour_result(m.p(), out); how = strf("%u updates", u);
    }
    ref_md4(bm.p, n, want);
    CHECK(!memcmp(out, want, 16), "MD4 of %llu bytes in %s: got %s, RFC 1320 gives %s", (unsigned long long)n, how.c_str(), hexs(out, 16).c_str(), hexs(want, 16).c_str());
    c.nontrivial = true;
    c.describe("MD4 of %llu bytes in %s", (unsigned long long)n, how.c_str());
}

// ------------------------------------------------------------------ C16
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_b64(const Bytes &b) {
    std::string o;
    uint32_t acc = 0; int nb = 0;
    for (uint8_t x : b) { acc = acc << 8 | x; nb += 8; while (nb >= 6) { o += B64[acc >> (nb - 6) & 63]; nb -= 6; } }
    if (nb) o += B64[acc << (6 - nb) & 63];
    return o;
}
static Bytes ref_unb64(const std::string &s, size_t *used) {
    Bytes o; uint32_t acc = 0; int nb = 0; size_t i = 0;
    for (; i < s.size(); i++) {
        const char *q = s[i] ? strchr(B64, s[i]) : nullptr;
        if (!q) break;
        acc = acc << 6 | (uint32_t)(q - B64); nb += 6;
        if (nb >= 8) { o.push_back((uint8_t)(acc >> (nb - 8))); nb -= 8; }
    }
    if (used) *used = i;
    return o;
}
// a text buffer with guard bytes before and after the usable part
namespace {
struct Guarded {
    std::vector<char> v; size_t n; enum { G = 64 };
    explicit Guarded(size_t k) : v(k + 2 * G, (char)0xC7), n(k) {}
    char *p() { return v.data() + G; }
    bool ok() const { for (size_t i = 0; i < G; i++) if (v[i] != (char)0xC7 || v[v.size() - 1 - i] != (char)0xC7) return false; return true; }
};
}
static Bytes gen_bytes(Src &s, size_t max) {
    Bytes b(s.size(0, max));
    if (b.size() < 24) { for (auto &x : b) x = (uint8_t)s.draw(0, 255); }
    else fill_random(b.data(), b.size(), s.draw(0, 0xffffff));
    return b;
}
PROPERTY(C16, encode) {
    Src &s = c.s;
    Bytes b = gen_bytes(s, 3000), keep;
    uint8_t *in = (uint8_t *)malloc(b.size() ? b.size() : 1);
    if (b.size()) memcpy(in, b.data(), b.size());
    Guarded h(2 * b.size() + 1);
    { LibScope l; rs_hexify(h.p(), in, (int)b.size()); }
    std::string want;
    for (uint8_t x : b) want += strf("%02x", x);
    CHECK(h.ok(), "rs_hexify of %zu bytes wrote outside the 2n+1 byte buffer", b.size());
    CHECK(memchr(h.p(), 0, h.n) == h.p() + 2 * b.size() && want == h.p(), "rs_hexify of %s gave '%.100s'", hexs(b).c_str(), h.p());
    std::string e = ref_b64(b);
    Guarded g(e.size() + 1);
    { LibScope l; rs_base64(in, (int)b.size(), g.p()); }
    CHECK(g.ok(), "rs_base64 of %zu bytes wrote outside the %zu byte buffer", b.size(), g.n);
    CHECK(memchr(g.p(), 0, g.n) == g.p() + e.size() && e == g.p(), "rs_base64 of %s gave '%.100s', standard unpadded encoding is '%.100s'", hexs(b).c_str(), g.p(), e.c_str());
    bool same = !b.size() || !memcmp(in, b.data(), b.size());
    free(in);
    CHECK(same, "an encoder modified its input");
    size_t n; { LibScope l; n = rs_unbase64(g.p()); }
    CHECK(g.ok(), "rs_unbase64 wrote outside its buffer");
    CHECK(n == b.size(), "decoding the base64 of %zu bytes returned length %zu", b.size(), n);
    CHECK(!n || !memcmp(g.p(), b.data(), n), "decoding the base64 of %s returned %s", hexs(b).c_str(), hexs((uint8_t *)g.p(), n).c_str());
    c.nontrivial = b.size() > 0;
    c.describe("%zu bytes -> '%.60s'", b.size(), e.c_str());
}
PROPERTY(C16, decode) {
    Src &s = c.s;
    size_t n = s.size(0, 600);
    std::string t;
    unsigned noise = (unsigned)s.draw(0, 3);
    uint64_t seed = s.draw(0, 0xffffff);
    Rng r(seed);
    for (size_t i = 0; i < n; i++) {
        uint64_t k = i < 24 ? s.draw(0, 255) : r.next() % 256;
        bool odd = noise && (i < 24 ? s.draw(0, 15) : r.next() % 16) < noise;
        char ch = odd ? (char)k : B64[k % 64];
        if (!ch) ch = '=';
        t += ch;
    }
    size_t used; Bytes want = ref_unb64(t, &used);
    Guarded g(t.size() + 1);
    memcpy(g.p(), t.c_str(), t.size() + 1);
    char *ex = (char *)malloc(t.size() + 1); memcpy(ex, t.c_str(), t.size() + 1);
    size_t k, k2; { LibScope l; k = rs_unbase64(g.p()); k2 = rs_unbase64(ex); }
    bool same2 = k2 == k && (!k || !memcmp(ex, g.p(), k));
    free(ex);
    CHECK(same2, "rs_unbase64 of the same text gave two results");
    CHECK(g.ok(), "rs_unbase64 wrote outside its buffer");
    CHECK(k == want.size(), "rs_unbase64 of '%.80s' (%zu alphabet characters) returned length %zu, expected %zu", t.c_str(), used, k, want.size());
    CHECK(!k || !memcmp(g.p(), want.data(), k), "rs_unbase64 of '%.80s' returned %s, expected %s", t.c_str(), hexs((uint8_t *)g.p(), k).c_str(), hexs(want).c_str());
    for (size_t i = used + 1; i < t.size(); i++) CHECK(g.p()[i] == t[i], "rs_unbase64 changed text after the first character outside the alphabet");
    c.nontrivial = used > 0;
    if (used < t.size()) c.label("stops-early");
    c.describe("'%.60s' (%zu of %zu characters) -> %zu bytes", t.c_str(), used, t.size(), k);
}
PROPERTY(C16, stats) {
    Src &s = c.s;
    rs_stats_t st; memset(&st, 0, sizeof st);
    static const char *OPS[] = {"delta", "patch", "signature", "loadsig", "", "x"};
    std::string op = s.chance(1, 6) ? std::string(s.size(1, 300), 'q') : OPS[s.draw(0, 5)];
    st.op = s.chance(1, 8) ? nullptr : op.c_str();
    auto v = [&]() -> rs_long_t { return s.flip() ? (rs_long_t)s.size(0, 100000) : (rs_long_t)s.big(0, INT64_MAX); };
    auto iv = [&]() -> int { return s.flip() ? (int)s.size(0, 1000) : (int)s.big(0, INT32_MAX); };
    if (s.flip()) { st.lit_cmds = iv(); st.lit_bytes = v(); st.lit_cmdbytes = v(); }
    if (s.flip()) { st.copy_cmds = v(); st.copy_bytes = v(); st.copy_cmdbytes = v(); }
    if (s.chance(1, 4)) st.false_matches = iv();
    if (s.chance(1, 4)) { st.sig_cmds = v(); st.sig_bytes = v(); }
    if (s.flip()) { st.sig_blocks = v(); st.block_len = (size_t)v(); }
    st.in_bytes = v(); st.out_bytes = v();
    st.start = (time_t)s.draw(0, 2000000000); st.end = st.start + (time_t)(s.flip() ? s.size(0, 100000) : s.big(0, INT32_MAX));
    Guarded full(4096);
    char *rp; { LibScope l; rp = rs_format_stats(&st, full.p(), full.n); }
    CHECK(rp == full.p(), "rs_format_stats did not return its buffer");
    CHECK(full.ok() && memchr(full.p(), 0, full.n), "rs_format_stats overran a 4096-byte buffer or left it unterminated");
    std::string text = full.p();
    CHECK(text.find(st.op ? st.op : "") != std::string::npos && text.size() > 10, "formatted statistics '%s' do not name the operation", text.c_str());
    size_t tries = s.draw(1, 6);
    for (size_t i = 0; i < tries; i++) {
        size_t size = s.flip() ? s.draw(0, text.size() + 3) : s.size(0, 500);
        Guarded g(size);
        { LibScope l; rp = rs_format_stats(&st, g.p(), size); }
        CHECK(g.ok(), "rs_format_stats wrote outside a %zu-byte buffer (text of %zu)", size, text.size());
        CHECK(rp == g.p(), "rs_format_stats did not return its buffer (size %zu)", size);
        if (!size) continue;
        size_t want = std::min(size - 1, text.size());
        const char *z = (const char *)memchr(g.p(), 0, size);
        CHECK(z, "rs_format_stats left a %zu-byte buffer without terminator", size);
        CHECK((size_t)(z - g.p()) == want && !memcmp(g.p(), text.data(), want), "rs_format_stats into %zu bytes gave '%.200s', the full text is '%.300s'", size, g.p(), text.c_str());
        c.cases++;
    }
    c.nontrivial = true;
    c.describe("%zu buffer sizes for '%.150s'", tries, text.c_str());
}
PROPERTY(C16, strerror) {
    Src &s = c.s;
    static const int DOC[] = {0, 1, 2, 100, 101, 102, 103, 104, 105, 106, 107, 108};
    int a = DOC[s.draw(0, 11)], b = DOC[s.draw(0, 11)];
    int x = s.flip() ? (int)s.draw(0, 300) - 100 : (int)(uint32_t)s.big(0, 0xffffffff);
    const char *sa, *sb, *sx; { LibScope l; sa = rs_strerror((rs_result)a); sb = rs_strerror((rs_result)b); sx = rs_strerror((rs_result)x); }
    CHECK(sa && sb && sx, "rs_strerror returned a null pointer for one of %d, %d, %d", a, b, x);
    CHECK(*sa && *sb && *sx, "rs_strerror returned an empty text for one of %d, %d, %d", a, b, x);
    CHECK(strlen(sa) < 500 && strlen(sx) < 500, "rs_strerror text not terminated");
    CHECK((a == b) == !strcmp(sa, sb), "codes %d and %d are both described as '%s'", a, b, sa);
    if (a == 0) for (int d : DOC) if (d) CHECK(strcmp(sa, rs_strerror((rs_result)d)), "code %d reads like success: '%s'", d, sa);
    c.nontrivial = a != b;
    c.describe("%d '%s', %d '%s', %d '%s'", a, sa, b, sb, x, sx);
}

// ------------------------------------------------------------------ C23
PROPERTY(C23, copy) {
    Src &s = c.s;
    Bytes b(s.size(0, s.chance(1, 10) ? 300000 : 5000));
    fill_random(b.data(), b.size(), s.draw(0, 0xffff));
    unsigned kind = (unsigned)s.weighted({4, 3, 2});     // real file, memory stream, memory stream with faults
    MemFile m; FILE *f; std::string path;
    if (kind == 0) {
        int fd = scratch_file(b, path); unlink(path.c_str());
        f = fdopen(fd, s.flip() ? "rb" : "r+b");
        if (s.chance(1, 3)) setvbuf(f, nullptr, s.flip() ? _IONBF : _IOFBF, s.size(1, 300));
    } else {
        m.data = b; if (s.flip()) m.rmax = s.size(1, 300);
        f = mem_open(&m, "r", s.flip() ? SIZE_MAX : s.draw(0, 200));
    }
    if (kind == 2) { if (s.flip()) { m.fail_read_at = (int64_t)s.size(0, b.size()); static const int E[] = {EIO, EINTR, EAGAIN, ENOSPC, EBADF, EISDIR, ENOMEM, ESPIPE, 0}; m.err = E[s.draw(0, 8)]; } else m.fail_seek_no = (int64_t)s.draw(0, 20); if (s.chance(1, 6)) m.can_seek = false; }
    size_t n = s.draw(1, 25);
    size_t past = 0, faults = 0, big = 0;
    struct FC { FILE *f; ~FC() { fclose(f); } } fc{f};
    for (size_t i = 0; i < n; i++) {
        uint64_t pos = s.chance(1, 8) ? b.size() + s.size(0, 1000) : s.draw(0, b.size());
        if (s.chance(1, 20)) { pos = s.big(0, INT64_MAX); if (kind) pos = std::min<uint64_t>(pos, 1ull << 40); big++; }
        size_t len = s.chance(1, 10) ? b.size() + s.draw(1, 100) : s.size(1, b.size() + 2);
        std::vector<uint8_t> dst(len + 32, 0x3C);
        void *bp = dst.data() + 16; size_t got = len;
        rs_result r;
        m.read_failed = m.seek_failed = false;
        { LogCap lc(RS_LOG_DEBUG); LibScope l; r = rs_file_copy_cb(f, (rs_long_t)pos, &got, &bp); }
        bool fault = m.read_failed || m.seek_failed;
        std::string at = strf("request %zu: %zu bytes at %llu of a %zu-byte %s: %s, %zu bytes", i, len, (unsigned long long)pos, b.size(), kind == 0 ? "file" : "stream", res_name(r), got);
        for (int k = 0; k < 16; k++) CHECK(dst[k] == 0x3C && dst[len + 16 + k] == 0x3C, "bytes outside the request written (%s)", at.c_str());
        uint64_t have = pos < b.size() ? std::min<uint64_t>(len, b.size() - pos) : 0;
        if (r == RS_DONE) {
            CHECK(got > 0 && got <= len, "success with an impossible count (%s)", at.c_str());
            CHECK(got <= have && !memcmp(bp, b.data() + pos, got), "wrong bytes delivered (%s)", at.c_str());
            if (!fault) CHECK(got == have, "short count before the end of the file, %llu available (%s)", (unsigned long long)have, at.c_str());
        } else if (!fault) {
            CHECK(have == 0, "failed though %llu bytes were there (%s)", (unsigned long long)have, at.c_str());
            // an unrepresentable position may also be refused by the seek itself
            CHECK(r == RS_INPUT_ENDED || (r == RS_IO_ERROR && (pos > (1ull << 42) || faults)), "reading at or past the end (%s)", at.c_str());
            past++;
        } else {
            CHECK(r == RS_IO_ERROR, "a failed read or seek was not reported as an I/O error (%s)", at.c_str());
        }
        if (fault) { faults++; if (have && r == RS_DONE) CHECK(got < have || !m.seek_failed, "success after a failed seek (%s)", at.c_str()); }
    }
    c.nontrivial = n > 1 && b.size() > 0;
    if (past) c.label("past-end");
    if (faults) c.label("fault");
    if (big) c.label("64-bit-position");
    c.describe("%zu requests on a %zu-byte %s, %zu past the end, %zu faults", n, b.size(), kind == 0 ? "file" : kind == 1 ? "stream" : "faulty stream", past, faults);
}
// Several basis files: opened, read, closed, reopened and used by the
// application itself in any order.
PROPERTY(C23, files) {
    Src &s = c.s;
    struct F { FILE *f = nullptr; std::string path; Bytes b; ~F() { if (f) fclose(f); if (!path.empty()) unlink(path.c_str()); } };
    size_t nf = s.draw(1, 3); std::vector<F> fs(nf);
    for (auto &x : fs) { x.b.resize(s.size(1, 3000)); fill_random(x.b.data(), x.b.size(), s.draw(0, 0xffff)); int fd = scratch_file(x.b, x.path); close(fd); }
    size_t n = s.draw(1, 30), reads = 0, reopens = 0; uint64_t last = 0; size_t prev = 0;
    for (size_t i = 0; i < n; i++) {
        size_t k = s.flip() ? prev : s.draw(0, nf - 1); F &x = fs[k]; prev = k;
        if (!x.f) { LibScope l; x.f = rs_file_open(x.path.c_str(), "rb", 0); }
        switch (s.weighted({6, 2, 1, 1})) {
        case 1: { LibScope l; rs_file_close(x.f); x.f = nullptr; reopens++; continue; }
        case 2: fseek(x.f, (long)s.draw(0, x.b.size()), SEEK_SET); continue;
        case 3: { char t[64]; size_t q = fread(t, 1, s.draw(1, 64), x.f); (void)q; continue; }
        default: break;
        }
        uint64_t pos = s.flip() ? std::min<uint64_t>(last, x.b.size() - 1) : s.draw(0, x.b.size() - 1);
        size_t len = s.size(1, x.b.size()), got = len; Bytes dst(len); void *bp = dst.data(); rs_result r;
        { LogCap lc(RS_LOG_DEBUG); LibScope l; r = rs_file_copy_cb(x.f, (rs_long_t)pos, &got, &bp); }
        size_t have = std::min<size_t>(len, x.b.size() - pos);
        CHECK(r == RS_DONE && got == have, "request %zu for %zu bytes at %llu of file %zu (%zu bytes): %s, %zu bytes", i, len, (unsigned long long)pos, k, x.b.size(), res_name(r), got);
        CHECK(!memcmp(bp, &x.b[pos], got), "request %zu for %zu bytes at %llu of file %zu (%zu bytes): wrong bytes delivered", i, len, (unsigned long long)pos, k, x.b.size());
        last = pos + got; reads++;
    }
    c.nontrivial = reads > 1;
    if (reopens) c.label("reopened");
    c.describe("%zu files, %zu operations, %zu requests, %zu times closed", nf, n, reads, reopens);
}
PROPERTY(C23, sparse) {
    Src &s = c.s;
    std::string path = scratch_path("sp");
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) fail("harness: cannot create %s", path.c_str());
    unlink(path.c_str());
    uint64_t size = s.big(0, 1ull << 42);
    if (ftruncate(fd, (off_t)size)) { size = std::min<uint64_t>(size, (1ull << 34)); if (ftruncate(fd, (off_t)size)) { close(fd); throw Discard(); } }
    FILE *f = fdopen(fd, "r+b");
    struct FC { FILE *f; ~FC() { fclose(f); } } fc{f};
    size_t n = s.draw(1, 6);
    std::vector<std::pair<uint64_t, Bytes>> w;
    for (size_t i = 0; i < n && size > 300; i++) {
        uint64_t pos = s.chance(1, 4) ? size - s.draw(1, 300) : s.big(0, size - 1);
        Bytes d(std::min<uint64_t>(s.size(1, 200), size - pos)); fill_random(d.data(), d.size(), s.draw(0, 0xffff));
        bool clash = false;
        for (auto &x : w) if (pos < x.first + x.second.size() && x.first < pos + d.size()) clash = true;
        if (clash) continue;
        if (pwrite(fd, d.data(), d.size(), (off_t)pos) != (ssize_t)d.size()) fail("harness: pwrite");
        w.push_back({pos, d});
    }
    rs_long_t z; { LibScope l; z = rs_file_size(f); }
    CHECK(z == (rs_long_t)size, "rs_file_size of a %llu-byte file is %lld", (unsigned long long)size, (long long)z);
    auto ref = [&](uint64_t p) -> uint8_t { for (auto &x : w) if (p >= x.first && p < x.first + x.second.size()) return x.second[p - x.first]; return 0; };
    size_t q = s.draw(1, 8);
    for (size_t i = 0; i < q; i++) {
        uint64_t pos = !w.empty() && s.chance(3, 4) ? w[s.draw(0, w.size() - 1)].first + s.draw(0, 60) : s.big(0, size);
        if (s.chance(1, 6)) pos = pos > 30 ? pos - 30 : 0;
        size_t len = s.size(1, 600);
        std::vector<uint8_t> dst(len); void *bp = dst.data(); size_t got = len; rs_result r;
        { LogCap lc(RS_LOG_DEBUG); LibScope l; r = rs_file_copy_cb(f, (rs_long_t)pos, &got, &bp); }
        uint64_t have = pos < size ? std::min<uint64_t>(len, size - pos) : 0;
        if (!have) { CHECK(r == RS_INPUT_ENDED, "request at %llu past the end of %llu bytes: %s", (unsigned long long)pos, (unsigned long long)size, res_name(r)); continue; }
        CHECK(r == RS_DONE && got == have, "%zu bytes at %llu of %llu: %s, %zu bytes", len, (unsigned long long)pos, (unsigned long long)size, res_name(r), got);
        for (size_t k = 0; k < got; k++) CHECK(((uint8_t *)bp)[k] == ref(pos + k), "wrong byte at position %llu of a %llu-byte file", (unsigned long long)(pos + k), (unsigned long long)size);
    }
    c.nontrivial = size > 0xffffffffull;
    if (size > 0xffffffffull) c.label(">4GB");
    c.describe("sparse file of %llu bytes, %zu patches, %zu requests", (unsigned long long)size, w.size(), q);
}
PROPERTY(C23, size) {
    Src &s = c.s;
    unsigned kind = (unsigned)s.draw(0, 8);
    FILE *f = nullptr; rs_long_t want = -1; std::string path; int other = -1; const char *name = "";
    std::string rm;
    MemFile m;
    switch (kind) {
    case 0: case 1: case 2: case 3: {
        Bytes b(s.size(0, 20000)); fill_random(b.data(), b.size(), 1);
        int fd = scratch_file(b, path); rm = path;
        f = fdopen(fd, kind == 1 ? "r+b" : "rb"); want = (rs_long_t)b.size(); name = "regular file";
        if (s.flip()) fseek(f, (long)s.draw(0, b.size()), SEEK_SET);
        if (s.flip()) { if (fgetc(f) == EOF && !b.empty()) clearerr(f); }
        if (kind == 2) { // grew or shrank after opening
            uint64_t k = s.size(0, 40000); if (ftruncate(fd, 0) || ftruncate(fd, (off_t)k)) { } else want = (rs_long_t)k;
        }
        if (kind == 3) { fclose(f); f = fopen(path.c_str(), "wb"); want = 0; if (s.flip()) { fputs("abc", f); fflush(f); want = 3; } }
        break;
    }
    case 4: { int p[2]; if (pipe(p)) fail("harness: pipe"); if (s.flip() && write(p[1], "data", 4) != 4) fail("harness: pipe"); bool rd = s.flip(); f = fdopen(p[rd ? 0 : 1], rd ? "rb" : "wb"); other = p[rd ? 1 : 0]; name = "pipe"; break; }
    case 5: { f = fopen(g_scratch.c_str(), "rb"); name = "directory"; break; }
    case 6: { static const char *D[] = {"/dev/null", "/dev/zero", "/dev/full", "/dev/urandom"}; f = fopen(D[s.draw(0, 3)], "rb"); name = "device"; break; }
    case 7: { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) fail("harness: socketpair"); f = fdopen(p[0], "r+b"); other = p[1]; name = "socket"; break; }
    default: m.data.resize(100); f = mem_open(&m, "r", SIZE_MAX); name = "memory stream"; break;
    }
    if (!f) { if (other >= 0) close(other); throw Discard(); }
    long before = ftell(f);
    rs_long_t z; { LibScope l; z = rs_file_size(f); }
    long after = ftell(f);
    fclose(f); if (other >= 0) close(other);
    if (!rm.empty()) unlink(rm.c_str());
    CHECK(z == want, "rs_file_size of a %s is %lld, expected %lld", name, (long long)z, (long long)want);
    CHECK(before == after, "rs_file_size moved the position of a %s", name);
    c.nontrivial = true; c.label(name);
    c.describe("%s: %lld", name, (long long)z);
}
// Opening and closing runs in a child: a refused open ends the process.
static bool slurp(const std::string &p, Bytes &b) {
    FILE *f = fopen(p.c_str(), "rb"); if (!f) return false;
    b.clear(); uint8_t t[4096]; size_t k; while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k);
    fclose(f); return true;
}
PROPERTY(C23, open) {
    Src &s = c.s;
    std::string dir = scratch_path("d");
    if (mkdir(dir.c_str(), 0777) || chmod(dir.c_str(), 0777)) fail("harness: mkdir %s", dir.c_str());
    unsigned kind = (unsigned)s.draw(0, 5);   // 0,1 regular 2 absent 3 directory 4 symlink to file 5 absent directory
    bool write = !s.chance(1, 4), force = s.flip(), nobody = s.chance(2, 3);
    static const mode_t MODES[] = {0644, 0666, 0444, 0222, 0200, 0000, 0400, 0600};
    mode_t mode = MODES[s.draw(0, 7)];
    bool owner = s.flip();                    // owned by the unprivileged user
    bool dirro = nobody && s.chance(1, 6);
    Bytes old(s.size(0, 3000)), nw(s.size(0, 9000)); fill_random(old.data(), old.size(), 7); fill_random(nw.data(), nw.size(), 9);
    std::string tgt = dir + "/t", path = kind == 5 ? dir + "/no/t" : tgt, real = kind == 4 ? dir + "/r" : tgt;
    bool exists = kind <= 1 || kind == 4;
    if (exists) {
        FILE *f = fopen(real.c_str(), "wb"); if (!f) fail("harness: fopen"); fwrite(old.data(), 1, old.size(), f); fclose(f);
        if (owner && chown(real.c_str(), 65534, 65534)) { }
        chmod(real.c_str(), mode);
        if (kind == 4 && symlink("r", tgt.c_str())) fail("harness: symlink");
    }
    if (kind == 3 && mkdir(tgt.c_str(), 0777)) fail("harness: mkdir");
    struct stat sb0; memset(&sb0, 0, sizeof sb0);
    if (exists) { struct timespec ts[2] = {{1000, 0}, {2000, 0}}; utimensat(AT_FDCWD, real.c_str(), ts, 0); stat(real.c_str(), &sb0); }
    if (dirro) chmod(dir.c_str(), 0555);
    int pp[2]; if (pipe(pp)) fail("harness: pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        int dn = ::open("/dev/null", O_RDWR); dup2(dn, 2); dup2(dn, 0); dup2(dn, 1);
        if (nobody && (setgid(65534) || setuid(65534))) _exit(90);
        char how = 'n';
        // may we do it at all? (independent of the library)
        int fd = write ? (exists || kind == 3 ? ::open(path.c_str(), O_WRONLY) : 0) : ::open(path.c_str(), O_RDONLY);
        how = fd < 0 ? 'n' : 'y'; if (fd > 2) close(fd);
        if (write && !exists && kind != 3) how = kind == 5 || (dirro && nobody) ? 'n' : 'y';
        if (::write(pp[1], &how, 1) != 1) _exit(91);
        FILE *f = rs_file_open(path.c_str(), write ? "wb" : "rb", force);
        if (!f) _exit(95);
        if (write) { if (fwrite(nw.data(), 1, nw.size(), f) != nw.size()) _exit(96); if (rs_file_close(f)) _exit(97); }
        else { Bytes got; int ch; while ((ch = fgetc(f)) != EOF) got.push_back((uint8_t)ch); if (kind != 3 && got != old) _exit(98); rs_file_close(f); }
        _exit(0);
    }
    close(pp[1]);
    char may = 0; if (read(pp[0], &may, 1) != 1) may = 0;
    close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (dirro) chmod(dir.c_str(), 0777);
    Bytes now; bool there = exists && (chmod(real.c_str(), 0600), slurp(real, now));
    if (!exists && kind == 2) there = slurp(tgt, now);
    struct stat sb1; memset(&sb1, 0, sizeof sb1); if (exists) stat(real.c_str(), &sb1);
    struct stat ls; bool link_ok = kind != 4 || (lstat(tgt.c_str(), &ls) == 0 && S_ISLNK(ls.st_mode));
    unlink(tgt.c_str()); unlink(real.c_str()); rmdir(tgt.c_str()); rmdir(dir.c_str());
    if (may == 0 || (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91))) throw Discard();
    static const char *K[] = {"regular file", "regular file", "absent file", "directory", "symlink to a file", "file in an absent directory"};
    std::string what = strf("opening %s (mode %03o, %s) for %s%s as %s: ", K[kind], (unsigned)mode, owner ? "own" : "foreign", write ? "writing" : "reading", force ? " with force" : "", nobody ? "unprivileged user" : "root");
    CHECK(WIFEXITED(st), "%sthe process was killed by signal %d", what.c_str(), WTERMSIG(st));
    int code = WEXITSTATUS(st);
    CHECK(code < 95 || code > 98, "%s%s", what.c_str(), code == 95 ? "returned a null pointer" : code == 96 ? "writing failed" : code == 97 ? "closing failed" : "the data read is not the file's");
    CHECK(link_ok, "%sthe symlink was replaced", what.c_str());
    bool present = exists || kind == 3;
    bool expect_ok = write ? (may == 'y' && kind != 3 && (force || !present)) : may == 'y';
    if (kind == 3 && !write) expect_ok = code == 0;      // directories can be opened for reading by some C libraries
    CHECK((code == 0) == expect_ok, "%sexpected %s, process ended with %d", what.c_str(), expect_ok ? "success" : "refusal", code);
    if (exists) {
        CHECK(there, "%sthe existing file is gone", what.c_str());
        if (write && expect_ok) CHECK(now == nw, "%sthe file holds %zu bytes instead of the %zu written", what.c_str(), now.size(), nw.size());
        else {
            CHECK(now == old, "%sthe existing file was changed", what.c_str());
            CHECK(sb0.st_mtime == sb1.st_mtime && sb0.st_ino == sb1.st_ino, "%sthe existing file was touched", what.c_str());
        }
    } else if (kind == 2) {
        if (write && expect_ok) CHECK(there && now == nw, "%sthe new file does not hold what was written", what.c_str());
        else CHECK(!there, "%sa file was created", what.c_str());
    }
    c.nontrivial = exists;
    c.label(write ? (force ? "write-force" : "write") : "read");
    c.describe("%s%s", what.c_str(), expect_ok ? "opened" : "refused");
}
PROPERTY(C23, std) {
    Src &s = c.s;
    bool dash = s.flip(), force = s.flip(), write = !s.chance(1, 3), full = write && s.chance(1, 3);
    Bytes data(s.size(0, 9000)); fill_random(data.data(), data.size(), s.draw(0, 0xffff));
    unsigned rounds = (unsigned)s.draw(1, 3), buf = (unsigned)s.draw(0, 2);
    std::string path; int fd = scratch_file(write ? Bytes() : data, path);
    if (full) { int d = ::open("/dev/full", O_WRONLY); if (d < 0) { close(fd); unlink(path.c_str()); throw Discard(); } dup2(d, fd); close(d); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        int dn = ::open("/dev/null", O_RDWR); dup2(dn, 2);
        if (write) dup2(fd, 1); else dup2(fd, 0);
        int bad = 0;
        for (unsigned i = 0; i < rounds && !bad; i++) {
            FILE *f = rs_file_open(dash ? "-" : nullptr, write ? "wb" : "rb", force);
            if (f != (write ? stdout : stdin)) { bad = 81; break; }
            if (i == 0 && buf) setvbuf(f, nullptr, buf == 1 ? _IONBF : _IOFBF, 1 << 16);
            if (write) {
                size_t a = data.size() * i / rounds, z = data.size() * (i + 1) / rounds;
                bool wok = fwrite(data.data() + a, 1, z - a, f) == z - a;
                int r = rs_file_close(f);
                if (full) { if (wok && z > a && r == 0) bad = 82; }
                else { if (!wok) bad = 83; if (r) bad = 84; }
                if (fcntl(1, F_GETFD) < 0) bad = 85;
            } else {
                size_t a = data.size() * i / rounds, z = data.size() * (i + 1) / rounds;
                for (size_t k = a; k < z; k++) if (fgetc(f) != data[k]) { bad = 86; break; }
                if (rs_file_close(f)) bad = 84;
                if (fcntl(0, F_GETFD) < 0) bad = 85;
            }
        }
        _exit(bad);
    }
    int st = 0; waitpid(pid, &st, 0);
    close(fd);
    Bytes now; slurp(path, now); unlink(path.c_str());
    CHECK(WIFEXITED(st), "standard %s: killed by signal %d", write ? "output" : "input", WTERMSIG(st));
    int code = WEXITSTATUS(st);
    CHECK(code == 0, "standard %s via %s, %zu bytes in %u rounds%s: %s", write ? "output" : "input", dash ? "'-'" : "no name", data.size(), rounds, full ? " on a full device" : "",
          code == 81 ? "not the standard stream" : code == 82 ? "closing did not report that data could not be written" : code == 83 ? "write failed" : code == 84 ? "closing failed" : code == 85 ? "the standard stream was closed" : code == 86 ? "wrong data read" : "process ended");
    if (write && !full) CHECK(now == data, "standard output: %zu of %zu bytes arrived", now.size(), data.size());
    c.nontrivial = data.size() > 0;
    c.describe("standard %s via %s, %zu bytes in %u rounds%s", write ? "output" : "input", dash ? "'-'" : "no name", data.size(), rounds, full ? ", full device" : "");
}
// closing other streams reports data that could not be written
PROPERTY(C23, close) {
    Src &s = c.s;
    size_t n = s.size(0, 5000);
    MemFile m; size_t sb = s.flip() ? SIZE_MAX : s.size(1, 8000);
    bool fault = s.flip();
    if (fault) { m.fail_write_at = (int64_t)s.draw(0, n + 10); m.err = ENOSPC; }
    FILE *f = mem_open(&m, "w", sb);
    Bytes d(n); fill_random(d.data(), n, 3);
    bool wok = fwrite(d.data(), 1, n, f) == n && !ferror(f);
    int r; { r = rs_file_close(f); }
    CHECK(m.closed, "rs_file_close left the stream open");
    if (!m.write_failed) CHECK(wok && r == 0 && m.data == d, "closing a stream without failures returned %d, %zu of %zu bytes", r, m.data.size(), n);
    else if (wok) CHECK(r != 0, "closing a stream whose last data could not be written reported success (%zu of %zu bytes)", m.data.size(), n);
    c.nontrivial = n > 0;
    if (m.write_failed) c.label("write-fault");
    c.describe("%zu bytes through a %zd-byte stdio buffer, %s: close returned %d", n, (ssize_t)sb, m.write_failed ? "write failure" : "no failure", r);
}
