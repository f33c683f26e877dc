// C01-C05, C08, C22: the signature / delta / patch pipeline.
#include "lib.h"
#include "delta_gen.h"
#include <cstring>
#include <algorithm>

// ------------------------------------------------------------------ C01
static void c01(Ctx &c, size_t maxb, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    SigP p;
    p.magic = gen_magic(s);
    bool rec = s.chance(1, 12);
    size_t bl = rec ? 0 : gen_block_len(s, maxbl);
    p.block_len = bl;
    p.strong_len = rec ? (s.flip() ? 0 : (size_t)-1) : gen_strong_len(s, p.magic, 8);
    if (rec && s.flip()) p.magic = 0;
    Bytes basis, nw;
    gen_pair(s, bl ? bl : 256, p.magic ? p.magic : M_RK_BLAKE2, std::min(maxb, (bl ? bl : 256) * 60000), std::min(maxn, (bl ? bl : 256) * 60000), basis, nw, &c);
    unsigned sigkind = s.weighted({12, 1, 1}); // real, none (NULL), empty-file signature
    Iface fs = gen_iface(s, basis.size(), basis.size() / (bl ? bl : 256) * 20 + 50);
    Iface fl = gen_iface(s, 1000, 1), fd = gen_iface(s, nw.size(), nw.size() + 50), fp = gen_iface(s, nw.size() + 50, nw.size());
    Bytes empty;
    SigHolder sig;
    if (sigkind != 1) {
        RunResult r = op_sig(sigkind == 2 ? empty : basis, p, fs);
        CHECK(r.res == RS_DONE, "signature failed: %s", res_name(r.res));
        RunResult l = op_load(r.out, &sig.s, fl);
        CHECK(l.res == RS_DONE, "loading the signature failed: %s", res_name(l.res));
        rs_result q;
        { LibScope sc; q = rs_build_hash_table(sig.s); }
        CHECK(q == RS_DONE, "rs_build_hash_table: %s", res_name(q));
    }
    RunResult d = op_delta(sig.s, nw, fd);
    CHECK(d.res == RS_DONE, "delta failed: %s", res_name(d.res));
    Basis b;
    b.data = &basis;
    b.seed = s.draw(0, 0xffff);
    if (s.chance(1, 3)) { b.partial = (unsigned)s.draw(0, 12); b.own = (unsigned)s.draw(0, 12); }
    RunResult o = op_patch(b, d.out, fp);
    CHECK(o.res == RS_DONE, "patch failed: %s", res_name(o.res));
    expect_same(o.out, nw, "round trip");
    c.nontrivial = nw.size() > 0 && basis.size() > 0 && d.stats.copy_cmds > 0 && sigkind == 0;
    if (d.stats.copy_cmds && d.stats.lit_cmds) c.label("mixed-delta");
    if (nw.size() > 65536) c.label("new>64K");
    if (sigkind) c.label("no-signature");
    c.label(fs.kind == 2 ? "sig-file" : fs.kind ? "sig-pull" : "sig-push");
    c.label(fd.kind == 2 ? "delta-file" : fd.kind ? "delta-pull" : "delta-push");
    c.label(fp.kind == 2 ? "patch-file" : fp.kind ? "patch-pull" : "patch-push");
    c.describe("magic=%#x bl=%zu sl=%zd basis=%zu new=%zu delta=%zu copies=%lld lits=%d; sig %s; delta %s; patch %s", p.magic, bl, (ssize_t)p.strong_len,
               basis.size(), nw.size(), d.out.size(), (long long)d.stats.copy_cmds, d.stats.lit_cmds, fs.str().c_str(), fd.str().c_str(), fp.str().c_str());
}
PROPERTY(C01, small) { c01(c, 6000, 6000, 1500); }
PROPERTY(C01, large) { c01(c, 300000, 400000, 200000); }
PROPERTY(C01, huge) { c01(c, 6000000, 6000000, 3000000); }

// ------------------------------------------------------------------ C03
static void c03(Ctx &c, size_t maxb, size_t maxbl) {
    Src &s = c.s;
    SigP p;
    p.magic = gen_magic(s);
    size_t bl = gen_block_len(s, maxbl), sl = gen_strong_len(s, p.magic, 1);
    p.block_len = bl; p.strong_len = sl;
    uint32_t wm = p.magic; size_t wbl = bl, wsl = sl;
    size_t n;
    maxb = std::min(maxb, bl * 200000);
    switch (s.weighted({4, 4, 2})) {
    case 0: n = s.size(0, maxb); break;
    case 1: n = std::min<size_t>(maxb, (size_t)s.draw(0, 12) * bl + s.draw(0, std::min<size_t>(bl, 300))); break;
    default: n = s.draw(0, maxb);
    }
    Bytes basis = gen_content(s, n, bl);
    if (n >= 2 * bl && s.chance(1, 4))      // blocks equal to, or sharing only the weak sum with, an earlier block
        for (unsigned k = (unsigned)s.draw(1, 6); k--;) {
            size_t nb = n / bl, i = s.draw(0, nb - 1), j = s.flip() && i + 1 < nb ? i + 1 : s.draw(0, nb - 1);
            if (i == j) continue;
            memcpy(&basis[j * bl], &basis[i * bl], bl);
            c.label(s.chance(3, 4) && weak_twin(s, p.magic, &basis[j * bl], bl) ? "weak-twin-block" : "repeated-block");
        }
    Iface f = gen_iface(s, basis.size(), (basis.size() / bl + 1) * 20);
    if (f.kind != 2 && s.chance(1, 10)) {    // documented defaults of the streaming interface
        unsigned k = (unsigned)s.draw(1, 7);
        if (k & 1) { p.magic = 0; wm = M_RK_BLAKE2; if (wsl > 32) wsl = 32; }
        if (k & 2) { p.block_len = 0; wbl = 2048; }
        if (k & 4) { bool mn = s.flip(); p.strong_len = mn ? (size_t)-1 : 0; wsl = mn ? 12 : magic_max_strong(wm); }
    }
    if ((int)wsl > magic_max_strong(wm)) throw Discard();
    RunResult r = op_sig(basis, p, f);
    CHECK(r.res == RS_DONE, "signature failed: %s", res_name(r.res));
    Bytes want = ref_sig(basis, wm, wbl, wsl).encode();
    if (r.out != want) {
        size_t i = 0;
        while (i < want.size() && i < r.out.size() && want[i] == r.out[i]) i++;
        size_t blk = i < 12 ? 0 : (i - 12) / (4 + wsl);
        fail("signature differs from the documented encoding at byte %zu (%s), sizes %zu vs %zu; magic=%#x bl=%zu sl=%zu basis=%zu", i,
             i < 12 ? "header" : strf("block %zu, %s", blk, (i - 12) % (4 + wsl) < 4 ? "weak sum" : "strong sum").c_str(), r.out.size(), want.size(), wm, wbl, wsl, basis.size());
    }
    c.nontrivial = basis.size() > 0;
    if (basis.size() % bl) c.label("short-tail");
    if (basis.size() > bl) c.label("multi-block");
    c.label(magic_is_rk(wm) ? "rabinkarp" : "rollsum");
    c.label(magic_is_md4(wm) ? "md4" : "blake2");
    c.describe("magic=%#x bl=%zu sl=%zu basis=%zu blocks=%zu via %s", wm, wbl, wsl, basis.size(), (basis.size() + wbl - 1) / wbl, f.str().c_str());
}
PROPERTY(C03, small) { c03(c, 8000, 3000); }
PROPERTY(C03, large) { c03(c, 400000, 300000); }

// ------------------------------------------------------------------ C04 / C08
struct Made { SigP p; Bytes basis, nw; Bytes sigb; RunResult d; Iface f; bool slack = false; };
static void make_delta_case(Ctx &c, size_t maxb, size_t maxn, size_t maxbl, Made &m, size_t minsl, bool allow_slack) {
    Src &s = c.s;
    m.p.magic = gen_magic(s);
    m.p.block_len = gen_block_len(s, maxbl);
    m.p.strong_len = gen_strong_len(s, m.p.magic, minsl);
    gen_pair(s, m.p.block_len, m.p.magic, maxb, maxn, m.basis, m.nw, &c);
    m.f = gen_iface(s, m.nw.size(), m.nw.size() + 50);
    m.slack = (allow_slack && s.chance(1, 12)) || m.basis.empty(); // nothing to match against
    SigHolder sig;
    // signatures come from the reference encoder so that this check does not depend on signature generation
    m.sigb = ref_sig(m.slack ? Bytes() : m.basis, m.p.magic, m.p.block_len, m.p.strong_len).encode();
    if (!(m.slack && s.flip())) load_ok(m.sigb, sig);
    m.d = op_delta(sig.s, m.nw, m.f);
    CHECK(m.d.res == RS_DONE, "delta failed: %s", res_name(m.d.res));
    c.describe("magic=%#x bl=%zu sl=%zu basis=%zu new=%zu delta=%zu%s via %s", m.p.magic, m.p.block_len, m.p.strong_len, m.basis.size(), m.nw.size(), m.d.out.size(), m.slack ? " no-sig" : "", m.f.str().c_str());
}
static void c04(Ctx &c, size_t maxb, size_t maxn, size_t maxbl) {
    Made m;
    make_delta_case(c, maxb, maxn, maxbl, m, 8, true);
    RefDelta r;
    std::string e = ref_parse_delta(m.d.out, r);
    CHECK(e.empty(), "generated delta is not well formed: %s", e.c_str());
    Bytes out;
    e = ref_apply(r, m.d.out, m.basis, out);
    CHECK(e.empty(), "generated delta: %s", e.c_str());
    expect_same(out, m.nw, "independent decoding of the delta");
    c.nontrivial = r.c.size() > 2;
    if (r.copy_cmds) c.label("has-copy");
    if (r.lit_cmds) c.label("has-literal");
    if (r.lit_cmds > 1 && m.nw.size() > 65536) c.label("multi-literal");
    if (m.slack) c.label("no-signature");
}
PROPERTY(C04, small) { c04(c, 6000, 6000, 1500); }
PROPERTY(C04, large) { c04(c, 200000, 400000, 100000); }

static void c08(Ctx &c, size_t maxb, size_t maxn, size_t maxbl) {
    Made m;
    make_delta_case(c, maxb, maxn, maxbl, m, 8, true);
    RefDelta r;
    std::string e = ref_parse_delta(m.d.out, r);
    CHECK(e.empty(), "generated delta is not well formed: %s", e.c_str());
    RefSig rs;
    CHECK(ref_parse_sig(m.sigb, rs, e), "harness: %s", e.c_str());
    if (!m.slack) {
        Greedy g = ref_greedy(rs, m.nw);
        CHECK(r.lit_bytes <= g.lit_bytes, "delta sends %llu literal bytes where the greedy reference scan needs %llu (bl=%zu basis=%zu new=%zu)",
              (unsigned long long)r.lit_bytes, (unsigned long long)g.lit_bytes, m.p.block_len, m.basis.size(), m.nw.size());
        if (g.false_weak) c.label("weak-collision");
        c.nontrivial = g.copy_bytes > 0 && m.nw.size() > m.p.block_len;
        if (g.copy_bytes && g.lit_bytes) c.label("mixed");
    }
    const Cmd *prev = nullptr;
    for (auto &k : r.c) {
        if (k.k == Cmd::COPY) {
            CHECK(k.w1 == min_width(k.pos) && k.w2 == min_width(k.len), "copy(%llu,%llu) uses widths %d/%d, smallest that fit are %d/%d",
                  (unsigned long long)k.pos, (unsigned long long)k.len, k.w1, k.w2, min_width(k.pos), min_width(k.len));
            CHECK(!(prev && prev->k == Cmd::COPY && prev->pos + prev->len == k.pos), "adjacent copies (%llu,%llu) and (%llu,%llu) were not merged",
                  (unsigned long long)prev->pos, (unsigned long long)prev->len, (unsigned long long)k.pos, (unsigned long long)k.len);
        } else if (k.k == Cmd::LIT)
            CHECK(k.w1 == (k.len <= 64 ? 0 : min_width(k.len)), "literal of %llu bytes uses a %d-byte length", (unsigned long long)k.len, k.w1);
        prev = &k;
    }
    if (m.p.block_len >= 32 && !m.slack) {
        size_t bound = m.nw.size() + 64 + m.nw.size() / 10000;
        CHECK(m.d.out.size() <= bound, "delta of %zu bytes for a new file of %zu bytes exceeds the overhead bound", m.d.out.size(), m.nw.size());
    }
    if (m.slack && m.f.kind != 1 && m.f.plan.whole_in && m.f.kind == 0)
        CHECK(m.d.out.size() <= m.nw.size() + 32, "signature-less delta of %zu bytes for %zu bytes offered at once", m.d.out.size(), m.nw.size());
    if (m.basis == m.nw && !m.slack && m.nw.size()) {
        // distinct blocks?
        bool distinct = true;
        std::vector<std::pair<uint32_t, std::string>> v;
        for (auto &x : rs.e) v.push_back({x.weak, std::string((char *)x.strong, rs.strong_len)});
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); i++) if (v[i] == v[i - 1]) distinct = false;
        if (distinct) { c.label("identical"); CHECK(m.d.out.size() <= 36, "delta between identical files of %zu bytes (bl=%zu) takes %zu bytes", m.nw.size(), m.p.block_len, m.d.out.size()); }
    }
}
PROPERTY(C08, small) { c08(c, 6000, 6000, 1500); }
PROPERTY(C08, large) { c08(c, 300000, 400000, 100000); }

// Long blocks: the new file is inserted data followed by the basis (whole
// blocks and a short last one), or only parts of it; everything but the
// inserted data has to be copied.
static void c08_long(Ctx &c, unsigned lo, unsigned hi) {
    Src &s = c.s;
    unsigned e = (unsigned)s.draw(lo, hi);
    size_t bl = s.chance(1, 4) ? ((size_t)1 << e) + s.draw(0, 2) - 1 : ((size_t)1 << e) + s.draw(0, ((size_t)1 << e) - 1);
    if (bl > 0x7fffffff) bl = 0x7fffffff;
    uint32_t magic = gen_magic(s); size_t sl = s.draw(8, magic_max_strong(magic));
    size_t nb = e < 22 ? s.draw(1, 3) : e < 26 ? s.draw(1, 2) : 1, tail = s.flip() ? 0 : 1 + s.size(0, std::min<size_t>(bl - 2, 100000));
    size_t pre = s.size(0, 3000), n = nb * bl + tail, post = s.flip() ? 0 : s.size(1, 2000);
    unsigned shape = (unsigned)s.draw(0, 3);
    Bytes buf(pre + n + post); fill_random(buf.data(), buf.size(), s.draw(1, 0xffffff));
    const uint8_t *basis = buf.data() + pre;
    auto iter = [&](rs_job_t *j, const uint8_t *p, size_t len, Bytes &out) {
        rs_buffers_t b; memset(&b, 0, sizeof b); b.next_in = (char *)p; b.avail_in = len; b.eof_in = 1; Bytes ob(1 << 20); rs_result r;
        do { b.next_out = (char *)ob.data(); b.avail_out = ob.size(); r = rs_job_iter(j, &b); out.insert(out.end(), ob.data(), ob.data() + (ob.size() - b.avail_out)); CHECK(out.size() <= buf.size() + 100000, "output far too large"); } while (r == RS_BLOCKED);
        return r;
    };
    Bytes sb, db; SigHolder h; rs_result r;
    { JobHolder j; j.j = rs_sig_begin(bl, sl, (rs_magic_number)magic); r = iter(j.j, basis, n, sb); CHECK(r == RS_DONE, "signature failed: %s", res_name(r)); }
    load_ok(sb, h);
    // what the new file is: pre + basis, pre + tail, pre + basis + post, last block + tail shifted
    const uint8_t *nw = buf.data(); size_t nn; uint64_t lit; Bytes tmp;
    switch (shape) {
    case 1: if (tail) { tmp.assign(buf.begin(), buf.begin() + pre); tmp.insert(tmp.end(), buf.begin() + pre + n - tail, buf.begin() + pre + n); nw = tmp.data(); nn = tmp.size(); lit = pre; break; } /* fall through */
    case 0: nn = pre + n; lit = pre; break;
    case 2: nn = pre + n + post; lit = pre + post + (post ? tail : 0); break;
    default: { size_t cut = nb * bl > bl ? s.draw(1, bl) : 0; nw = buf.data() + pre + cut; nn = n - cut; lit = cut ? bl - cut : 0; }
    }
    // content is random: beyond that nothing can match
    { JobHolder j; j.j = rs_delta_begin(h.s); r = iter(j.j, nw, nn, db); CHECK(r == RS_DONE, "delta failed: %s", res_name(r)); }
    RefDelta rd; std::string er = ref_parse_delta(db, rd); CHECK(er.empty(), "delta not well formed: %s", er.c_str());
    CHECK(rd.lit_bytes <= lit, "delta sends %llu literal bytes where the greedy reference scan needs %llu (block length %zu, %zu blocks and %zu bytes, magic %#x, shape %u)", (unsigned long long)rd.lit_bytes, (unsigned long long)lit, bl, nb, tail, magic, shape);
    uint64_t at = 0;
    for (auto &k : rd.c) { if (k.k == Cmd::END) break; CHECK(at + k.len <= nn, "the delta is too long");
        const uint8_t *src = k.k == Cmd::LIT ? &db[k.data] : basis + k.pos; CHECK(k.k == Cmd::LIT || k.pos + k.len <= n, "copy past the basis"); CHECK(!memcmp(src, nw + at, k.len), "the delta does not reproduce the new file near %llu", (unsigned long long)at); at += k.len; }
    CHECK(at == nn, "the delta describes %llu of %zu bytes", (unsigned long long)at, nn);
    c.nontrivial = rd.copy_bytes > 0 && rd.lit_bytes > 0;
    c.label(bl >= (1u << 24) ? ">=2^24" : bl >= (1u << 16) ? ">=2^16" : "<2^16");
    c.describe("magic %#x, %zu blocks of %zu and %zu bytes, shape %u, %zu bytes inserted: %llu literal, %llu copied", magic, nb, bl, tail, shape, pre, (unsigned long long)rd.lit_bytes, (unsigned long long)rd.copy_bytes);
}
PROPERTY(C08, longblock) { c08_long(c, 10, 21); }
PROPERTY(C08, hugeblock) { c08_long(c, 22, 30); }

// Many blocks and many commands: up to about a million blocks in the signature
// and tens of thousands of pieces in the new file, run through one pipeline
// and judged for the property that asks.
static void many_case(Ctx &c, int what) {
    Src &s = c.s;
    SigP p; p.magic = gen_magic(s);
    unsigned e = (unsigned)s.draw(8, c.thorough ? 21 : 20);
    size_t bl = s.draw(1, 40);
    size_t count = ((size_t)1 << e) + (s.flip() ? s.draw(0, 2) - 1 : s.draw(0, ((size_t)1 << e) - 1));
    count = std::min<size_t>(count, (24u << 20) / bl);
    p.block_len = bl; p.strong_len = gen_strong_len(s, p.magic, 8);
    uint64_t seed = s.draw(0, 0xffffff);
    size_t tail = s.flip() ? 0 : s.draw(0, bl - 1), n = count * bl + tail;
    Bytes basis(n); fill_random(basis.data(), n, seed);
    Rng r(seed + 1);
    if (s.chance(1, 3)) for (size_t i = 0; i < count / 8; i++) memcpy(&basis[r.next() % count * bl], &basis[r.next() % count * bl], bl); // equal blocks
    size_t ops = s.size(1, 60000); unsigned mix = (unsigned)s.draw(0, 3);
    Bytes nw;
    for (size_t i = 0; i < ops && nw.size() < (4u << 20); i++) {
        unsigned k = (unsigned)(r.next() % 8);
        size_t b = r.next() % count;
        if (k < 2 * mix) { size_t run = 1 + r.next() % (k == 0 ? 200 : 3); run = std::min(run, count - b); nw.insert(nw.end(), basis.begin() + b * bl, basis.begin() + (b + run) * bl); }
        else if (k < 7) { nw.insert(nw.end(), basis.begin() + b * bl, basis.begin() + (b + 1) * bl); if (k == 6) nw.push_back((uint8_t)r.next()); }
        else { size_t m = 1 + r.next() % 70, o = nw.size(); nw.resize(o + m); fill_random(&nw[o], m, r.next()); }
    }
    if (tail && s.flip()) nw.insert(nw.end(), basis.end() - tail, basis.end());
    Iface f = gen_iface(s, nw.size(), nw.size());
    Bytes sb; SigHolder h; RefSig rs;
    if (what == 1) { RunResult q = op_sig(basis, p, gen_iface(s, n, count * 20)); CHECK(q.res == RS_DONE, "signature failed: %s", res_name(q.res)); sb = q.out; }
    else { rs = ref_sig(basis, p.magic, bl, p.strong_len); sb = rs.encode(); }
    load_ok(sb, h);
    RunResult d = op_delta(h.s, nw, f);
    CHECK(d.res == RS_DONE, "delta failed: %s", res_name(d.res));
    c.describe("magic=%#x bl=%zu sl=%zu blocks=%zu new=%zu delta=%zu copies=%lld literals=%d via %s", p.magic, bl, p.strong_len, count, nw.size(), d.out.size(), (long long)d.stats.copy_cmds, d.stats.lit_cmds, f.str().c_str());
    c.label(count > 65536 ? "blocks>65536" : "blocks<=65536"); if (d.stats.copy_cmds > 5000) c.label("copies>5000");
    c.nontrivial = d.stats.copy_cmds > 1;
    if (what == 1) {
        Basis b; b.data = &basis; RunResult o = op_patch(b, d.out, gen_iface(s, d.out.size(), nw.size()));
        CHECK(o.res == RS_DONE, "patch failed: %s", res_name(o.res)); expect_same(o.out, nw, "round trip"); return;
    }
    RefDelta rd; std::string er = ref_parse_delta(d.out, rd); CHECK(er.empty(), "generated delta is not well formed: %s", er.c_str());
    if (what == 4) { Bytes out; er = ref_apply(rd, d.out, basis, out); CHECK(er.empty(), "generated delta: %s", er.c_str()); expect_same(out, nw, "independent decoding of the delta"); return; }
    Greedy g = ref_greedy(rs, nw);
    CHECK(rd.lit_bytes <= g.lit_bytes, "delta sends %llu literal bytes where the greedy reference scan needs %llu (%zu blocks of %zu bytes, magic %#x)", (unsigned long long)rd.lit_bytes, (unsigned long long)g.lit_bytes, count, bl, p.magic);
    if (what == 22) { // every copied block carries the bytes it was matched with
        uint64_t at = 0;
        for (auto &k : rd.c) { if (k.k == Cmd::END) break; if (k.k == Cmd::COPY) CHECK(k.pos % bl == 0 && k.pos + k.len <= n && at + k.len <= nw.size() && !memcmp(&basis[k.pos], &nw[at], k.len), "copied %llu bytes at new offset %llu from position %llu where the sums differ", (unsigned long long)k.len, (unsigned long long)at, (unsigned long long)k.pos); at += k.len; }
        RunResult d2 = op_delta(h.s, nw, gen_iface(s, nw.size(), nw.size()));
        CHECK(d2.res == RS_DONE && d2.out == d.out, "a second run over the same signature and file gave a different delta");
    } else {
        const Cmd *prev = nullptr;
        for (auto &k : rd.c) { CHECK(!(prev && prev->k == Cmd::COPY && k.k == Cmd::COPY && prev->pos + prev->len == k.pos), "adjacent copies at %llu were not merged", (unsigned long long)k.pos);
            if (k.k == Cmd::COPY) CHECK(k.w1 == min_width(k.pos) && k.w2 == min_width(k.len), "copy(%llu,%llu) does not use the smallest widths", (unsigned long long)k.pos, (unsigned long long)k.len); prev = &k; }
    }
}
PROPERTY(C01, many) { many_case(c, 1); }
PROPERTY(C04, many) { many_case(c, 4); }
PROPERTY(C08, many) { many_case(c, 8); }
PROPERTY(C22, many) { many_case(c, 22); }
PROPERTY(C03, huge) { c03(c, 8000000, 3000); }

// ------------------------------------------------------------------ C22
// Synthesized signature: entries are real sums of generated blocks (some the
// new file will contain), weak twins, duplicates, extreme values and noise.
static void c22(Ctx &c, size_t maxcount, size_t maxnew) {
    Src &s = c.s;
    RefSig sig;
    sig.magic = gen_magic(s);
    sig.block_len = (uint32_t)(s.chance(1, 3) ? s.draw(5, 40) : s.size(1, 2000));
    sig.strong_len = (uint32_t)(s.flip() ? s.draw(1, 4) : gen_strong_len(s, sig.magic, 1));
    size_t bl = sig.block_len;
    size_t nblocks = s.draw(1, 8);
    std::vector<Bytes> pool;   // blocks the new file is made of
    for (size_t i = 0; i < nblocks; i++) {
        Bytes b(bl);
        switch (s.weighted({4, 2, 3, 3})) {
        case 0: fill_random(b.data(), bl, s.draw(0, 0xffffff)); break;
        case 1: memset(b.data(), (int)s.draw(0, 255), bl); break;
        case 2: if (!pool.empty()) { b = s.pick(pool); if (weak_twin(s, sig.magic, b.data(), bl)) c.label("twin"); break; }
            fill_random(b.data(), bl, s.draw(0, 0xffffff)); break;
        default: {
            fill_random(b.data(), bl, s.draw(0, 0xffffff));
            static const uint32_t T[] = {0, 0xffffffffu, 1, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 2, 0x5bd1e995u};
            uint32_t t = s.flip() ? T[s.draw(0, 7)] : (uint32_t)s.big(0, 0xffffffff);
            // also aim at values that are special after the table's bit mixing
            if (!magic_is_rk(sig.magic) && s.flip()) {
                uint32_t w = T[s.draw(0, 3)]; // invert the murmur3 finaliser
                w ^= w >> 16; w *= 0x7ed1b41du; w ^= (w ^ w >> 13) >> 13; w *= 0xa5cb9243u; w ^= w >> 16; t = w;
            }
            if (weak_target(sig.magic, b.data(), bl, t, s.draw(0, 0xffff))) c.label("targeted-sum");
        }
        }
        pool.push_back(b);
    }
    auto entry = [&](const Bytes &b) { SigEntry e; memset(&e, 0, sizeof e); e.weak = ref_weak(sig.magic, b.data(), b.size()); ref_strong(sig.magic, b.data(), b.size(), e.strong); return e; };
    size_t count = s.size(1, maxcount);
    uint64_t eseed = s.draw(0, 0xffffff);
    unsigned density = (unsigned)s.draw(0, 15), cluster = (unsigned)s.draw(0, 3);
    // many equal or clustered sums cost the table probes in proportion; keep their number moderate
    if (count > 2000) { if (cluster || density > 1) { if (eseed & 1) count = 2000; else { cluster = 0; density = 1; } } }
    Rng r(eseed);
    uint32_t cl = (uint32_t)r.next();
    for (size_t i = 0; i < count; i++) {
        SigEntry e; memset(&e, 0, sizeof e);
        unsigned k = (unsigned)(r.next() % 16);
        if (k < density || i < 2) {
            e = entry(pool[r.next() % pool.size()]);
            unsigned q = (unsigned)(r.next() % 8);
            if (q == 0) e.strong[r.next() % sig.strong_len] ^= (uint8_t)(1u << r.next() % 8);      // same weak, strong off by one bit
            else if (q == 1) e.weak ^= 1u << r.next() % 32;                                   // weak off by one bit
            else if (q == 2) e.strong[sig.strong_len - 1] ^= 0x80;                             // differs in the last stored byte
        } else {
            e.weak = cluster == 1 ? cl + (uint32_t)(r.next() % 64) : cluster == 2 ? (uint32_t)(r.next() % 4) * 0x55555555u : cluster == 3 ? cl ^ (uint32_t)(r.next() & 0xffff0000u) : (uint32_t)r.next();
            for (auto &x : e.strong) x = (uint8_t)r.next();
        }
        sig.e.push_back(e);
    }
    // a short final block may be represented too
    Bytes tail;
    if (s.chance(1, 3) && bl > 1) {
        tail.resize(s.draw(1, bl - 1)); fill_random(tail.data(), tail.size(), s.draw(0, 0xffff));
        sig.e.push_back(entry(tail));
    }
    Bytes nw;
    size_t parts = s.draw(1, 12);
    for (size_t i = 0; i < parts && nw.size() < maxnew; i++) {
        switch (s.weighted({5, 2, 1})) {
        case 0: { const Bytes &b = s.pick(pool); nw.insert(nw.end(), b.begin(), b.end()); break; }
        case 1: { size_t n = s.size(0, 300), o = nw.size(); nw.resize(o + n); fill_random(&nw[o], n, s.draw(0, 0xffff), s.flip() ? 2 : 256); break; }
        default: { const Bytes &b = s.pick(pool); size_t k = s.draw(0, b.size()); nw.insert(nw.end(), b.begin() + k, b.end()); }
        }
    }
    if (!tail.empty() && !s.chance(1, 4)) nw.insert(nw.end(), tail.begin(), tail.end());
    SigHolder h;
    Bytes sb = sig.encode();
    load_ok(sb, h);
    Iface f = gen_iface(s, nw.size(), nw.size() + 50), f2 = gen_iface(s, nw.size(), nw.size() + 50);
    RunResult d = op_delta(h.s, nw, f);
    CHECK(d.res == RS_DONE, "delta failed: %s", res_name(d.res));
    RefDelta rd;
    std::string e = ref_parse_delta(d.out, rd);
    CHECK(e.empty(), "delta not well formed: %s", e.c_str());
    uint64_t at = 0;
    uint8_t st[32];
    for (auto &k : rd.c) {
        if (k.k == Cmd::LIT) {
            CHECK(at + k.len <= nw.size() && !memcmp(&d.out[k.data], &nw[at], k.len), "literal at new offset %llu does not carry the new file's bytes", (unsigned long long)at);
            at += k.len;
        } else if (k.k == Cmd::COPY) {
            CHECK(at + k.len <= nw.size(), "copy of %llu bytes at new offset %llu runs past the new file (%zu)", (unsigned long long)k.len, (unsigned long long)at, nw.size());
            CHECK(k.pos % bl == 0, "copy position %llu is not a block boundary (bl=%zu)", (unsigned long long)k.pos, bl);
            uint64_t o = 0;
            while (o < k.len) {
                uint64_t n = std::min<uint64_t>(bl, k.len - o), idx = (k.pos + o) / bl;
                CHECK(n == bl || at + o + n == nw.size(), "copy of a partial block (%llu of %zu) in the middle of the new file", (unsigned long long)n, bl);
                CHECK(idx < sig.e.size(), "copy from block %llu but the signature has %zu", (unsigned long long)idx, sig.e.size());
                uint32_t w = ref_weak(sig.magic, &nw[at + o], n);
                ref_strong(sig.magic, &nw[at + o], n, st);
                CHECK(w == sig.e[idx].weak, "copied %llu bytes at new offset %llu from block %llu whose weak sum differs (%08x vs %08x)", (unsigned long long)n, (unsigned long long)(at + o), (unsigned long long)idx, w, sig.e[idx].weak);
                CHECK(!memcmp(st, sig.e[idx].strong, sig.strong_len), "copied %llu bytes at new offset %llu from block %llu whose stored strong sum (%u bytes) differs", (unsigned long long)n, (unsigned long long)(at + o), (unsigned long long)idx, sig.strong_len);
                o += n;
            }
            at += k.len;
        }
    }
    CHECK(at == nw.size(), "delta describes %llu bytes, the new file has %zu", (unsigned long long)at, nw.size());
    Greedy g = ref_greedy(sig, nw);
    CHECK(rd.lit_bytes <= g.lit_bytes, "an entry with equal sums was not found: %llu literal bytes, reference scan needs %llu (count=%zu bl=%zu sl=%u)",
          (unsigned long long)rd.lit_bytes, (unsigned long long)g.lit_bytes, sig.e.size(), bl, sig.strong_len);
    // same choice on a second load and a second run
    SigHolder h2;
    load_ok(sb, h2);
    RunResult d2 = op_delta(s.flip() ? h.s : h2.s, nw, f2);
    CHECK(d2.res == RS_DONE && d2.out == d.out, "a second run over the same signature and file gave a different delta");
    c.nontrivial = g.weak_hits > 0;
    if (g.false_weak) c.label("false-weak-hit");
    if (g.copy_bytes) c.label("match");
    if (sig.strong_len <= 4) c.label("short-strong");
    if (count > 1000) c.label("count>1000");
    c.describe("magic=%#x bl=%zu sl=%u entries=%zu new=%zu weak_hits=%llu false=%llu copied=%llu via %s", sig.magic, bl, sig.strong_len, sig.e.size(), nw.size(),
               (unsigned long long)g.weak_hits, (unsigned long long)g.false_weak, (unsigned long long)g.copy_bytes, f.str().c_str());
}
PROPERTY(C22, small) { c22(c, 400, 8000); }
PROPERTY(C22, large) { c22(c, 40000, 60000); }

// ------------------------------------------------------------------ C05
static void c05(Ctx &c, size_t maxcmds, size_t maxlit, size_t maxb) {
    Src &s = c.s;
    DeltaProg g = gen_delta(s, maxcmds, maxlit, maxb, false);
    Basis b;
    b.data = &g.basis;
    b.seed = s.draw(0, 0xffff);
    if (s.chance(1, 3)) { b.partial = (unsigned)s.draw(0, 14); b.own = (unsigned)s.draw(0, 14); }
    Iface f = gen_iface(s, g.delta.size(), g.expect.size());
    Bytes d = g.delta;
    bool trail = f.kind == 2 && s.chance(1, 10);
    RunResult r = op_patch(b, d, f);
    CHECK(r.res == RS_DONE, "patch of a valid delta failed: %s (%s)", res_name(r.res), g.desc.substr(0, 300).c_str());
    expect_same(r.out, g.expect, "patch output");
    (void)trail;
    c.nontrivial = g.cmds >= 2;
    if (g.nonmin) c.label("non-minimal-width");
    if (g.copies) c.label("copy");
    if (g.cmds - g.copies > 0) c.label("literal");
    c.describe("%zu commands, delta %zu, basis %zu, output %zu via %s: %s", g.cmds, g.delta.size(), g.basis.size(), g.expect.size(), f.str().c_str(), g.desc.substr(0, 200).c_str());
}
PROPERTY(C05, small) { c05(c, 40, 600, 3000); }
PROPERTY(C05, large) { c05(c, 60, 150000, 300000); }

// Long programs: a generated one repeated thousands of times.
PROPERTY(C05, many) {
    Src &s = c.s;
    DeltaProg g = gen_delta(s, 30, 100, 70000, false);
    if (g.delta.size() < 6 || g.delta.back() != 0) throw Discard();
    size_t unit = g.delta.size() - 5, reps = s.size(2, 8000);
    reps = std::min(reps, std::min<size_t>((4u << 20) / unit, g.expect.empty() ? reps : (24u << 20) / g.expect.size()));
    if (reps < 1) throw Discard();
    Bytes d(g.delta.begin(), g.delta.begin() + 4), want;
    for (size_t i = 0; i < reps; i++) { d.insert(d.end(), g.delta.begin() + 4, g.delta.end() - 1); want.insert(want.end(), g.expect.begin(), g.expect.end()); }
    d.push_back(0);
    Basis b; b.data = &g.basis; b.seed = s.draw(0, 0xffff);
    if (s.chance(1, 3)) { b.partial = (unsigned)s.draw(0, 8); b.own = (unsigned)s.draw(0, 14); }
    Iface f = gen_iface(s, d.size(), want.size());
    RunResult r = op_patch(b, d, f);
    CHECK(r.res == RS_DONE, "patch of a valid delta of %zu commands failed: %s", g.cmds * reps, res_name(r.res));
    expect_same(r.out, want, "patch output");
    c.nontrivial = g.cmds * reps >= 100;
    if (g.cmds * reps > 65536) c.label(">65536 commands");
    c.describe("%zu commands, delta %zu, basis %zu, output %zu via %s", g.cmds * reps, d.size(), g.basis.size(), want.size(), f.str().c_str());
}

// Every single command byte in isolation, and stopping at the end command.
PROPERTY(C05, ops) {
    Src &s = c.s;
    uint64_t basis_n = s.size(1, 70000);
    Bytes basis(basis_n); fill_random(basis.data(), basis_n, s.draw(0, 0xffff));
    uint8_t op = (uint8_t)s.draw(1, 0x54);
    Bytes d, want;
    put_be(d, M_DELTA, 4);
    static const int W[4] = {1, 2, 4, 8};
    unsigned reps = (unsigned)s.draw(1, 3);
    for (unsigned k = 0; k < reps; k++) {
        d.push_back(op);
        if (op <= 0x44) {
            size_t n = op <= 64 ? op : 0;
            if (op > 64) { int w = W[op - 0x41]; n = s.size(1, w == 1 ? 255 : w == 2 ? 65535 : 70000); put_be(d, n, w); }
            Bytes lit(n); fill_random(lit.data(), n, s.draw(0, 0xffff));
            d.insert(d.end(), lit.begin(), lit.end()); want.insert(want.end(), lit.begin(), lit.end());
        } else {
            int w1 = W[(op - 0x45) / 4], w2 = W[(op - 0x45) % 4];
            uint64_t pos = s.size(0, std::min<uint64_t>(basis_n - 1, w1 == 1 ? 255 : w1 == 2 ? 65535 : basis_n));
            uint64_t n = s.size(1, std::min<uint64_t>(basis_n - pos, w2 == 1 ? 255 : w2 == 2 ? 65535 : basis_n));
            put_be(d, pos, w1); put_be(d, n, w2);
            want.insert(want.end(), basis.begin() + pos, basis.begin() + pos + n);
        }
    }
    d.push_back(0);
    bool trail = s.chance(1, 3);
    if (trail) { size_t n = s.draw(1, 20); Bytes t(n); fill_random(t.data(), n, s.draw(0, 0xffff)); d.insert(d.end(), t.begin(), t.end()); }
    Basis b; b.data = &basis;
    Iface f = gen_iface(s, d.size(), want.size());
    RunResult r = op_patch(b, d, f);
    CHECK(r.res == RS_DONE, "command %#x: patch failed: %s", op, res_name(r.res));
    expect_same(r.out, want, strf("command %#x: output", op).c_str());
    c.nontrivial = true;
    c.label(op <= 64 ? "immediate" : op <= 0x44 ? "literal-N" : "copy");
    if (trail) c.label("trailing-data");
    c.describe("command %#x x%u, output %zu, %s via %s", op, reps, want.size(), trail ? "trailing bytes" : "no trailing bytes", f.str().c_str());
}
