// C02, C06, C07, C10, C12: job protocol, hostile inputs, callbacks.
#include "lib.h"
#include "spec.h"
#include <cstring>
#include <cerrno>
#include <algorithm>

// ------------------------------------------------------------------ C02
// One fixed job description, run under any interface.
static void c02(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, maxn, maxbl);
    Iface whole;
    Outcome ref = run_spec(j, whole, probe);
    if (!j.damaged) CHECK(ref.res == RS_DONE, "%s: failed in a single ample call: %s", j.desc.c_str(), res_name(ref.res));
    unsigned n = (unsigned)s.draw(2, 5);
    std::string ds;
    for (unsigned i = 0; i < n; i++) {
        Iface f;
        if (s.chance(1, 6)) f = gen_iface(s, j.in.size(), ref.out.size());
        else { f.kind = s.chance(1, 6) ? 1 : 0; f.plan = gen_plan(s, j.in.size(), ref.out.size(), true); }
        if (j.damaged && f.kind == 2) f.kind = 0;
        Outcome o = run_spec(j, f, probe);
        compare_spec(j, ref, o, f);
        ds += " | " + f.str();
        if (f.kind == 1) c.label("pull"); else if (f.kind == 2) c.label("file");
        if (f.kind == 0 && f.plan.zero_out) c.label("zero-output-calls");
        if (f.kind == 0 && f.plan.late_eof) c.label("late-eof");
    }
    c.cases = n + 1;
    c.label(KINDS[j.kind]);
    if (j.damaged) c.label(ref.res == RS_DONE ? "damaged-but-valid" : "damaged-rejected");
    c.nontrivial = j.in.size() > 16;
    c.describe("%s -> %s, %zu bytes%s", j.desc.c_str(), res_name(ref.res), ref.out.size(), ds.substr(0, 260).c_str());
}
PROPERTY(C02, small) { c02(c, 4000, 700); }
PROPERTY(C02, large) { c02(c, 250000, 120000); }
// every combination of small fixed slices
PROPERTY(C02, tiny) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, 260, 40);
    Iface whole;
    Outcome ref = run_spec(j, whole, probe);
    if (!j.damaged) CHECK(ref.res == RS_DONE, "%s: failed in a single ample call: %s", j.desc.c_str(), res_name(ref.res));
    c.cases = 0;
    static const size_t I[] = {1, 2, 3, 5, 7, 11, 16, 17, 31, 64, SIZE_MAX}, O[] = {1, 2, 3, 4, 9, 13, 36, SIZE_MAX};
    for (size_t a : I) for (size_t b : O) for (int late = 0; late < 2; late++) {
        Iface f;
        f.plan.whole_in = a == SIZE_MAX; f.plan.whole_out = b == SIZE_MAX;
        f.plan.in_max = a; f.plan.out_max = b; f.plan.late_eof = late; f.plan.seed = a * 64 + b;
        compare_spec(j, ref, run_spec(j, f, probe), f);
        c.cases++;
    }
    c.nontrivial = j.in.size() > 16;
    c.label(KINDS[j.kind]);
    c.describe("%s -> %s under 176 slicings", j.desc.c_str(), res_name(ref.res));
}

// large blocks fed through buffers close to multiples of the block length, with
// output so small that found matches wait for room
PROPERTY(C02, blocks) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    j.kind = 2; j.magic = gen_magic(s);
    j.bl = s.flip() ? s.size(2000, 40000) : s.size(20000, 250000);
    j.sl = gen_strong_len(s, j.magic, 8);
    size_t nb = s.draw(1, 5);
    Bytes basis(nb * j.bl - (s.chance(1, 3) ? s.draw(1, j.bl - 1) : 0));
    fill_random(basis.data(), basis.size(), s.draw(0, 0xffff));
    unsigned segs = (unsigned)s.draw(1, 4);
    for (unsigned i = 0; i < segs; i++) {
        if (s.flip()) { Bytes l(s.flip() ? s.size(1, 300) : s.size(1, j.bl + 70)); fill_random(l.data(), l.size(), s.draw(1 << 20, 1 << 21)); j.in.insert(j.in.end(), l.begin(), l.end()); }
        size_t f = s.draw(0, nb - 1), n = s.draw(1, nb - f);
        j.in.insert(j.in.end(), basis.begin() + f * j.bl, basis.begin() + std::min(basis.size(), (f + n) * j.bl));
    }
    if (s.flip()) { Bytes l(s.size(1, 300)); fill_random(l.data(), l.size(), 77); j.in.insert(j.in.end(), l.begin(), l.end()); }
    load_ok(ref_sig(basis, j.magic, j.bl, j.sl).encode(), sig);
    j.sig = sig.s; j.sig_basis = basis.size();
    j.desc = strf("delta bl=%zu basis=%zu new=%zu", j.bl, basis.size(), j.in.size());
    Iface whole;
    Outcome ref = run_spec(j, whole, probe);
    CHECK(ref.res == RS_DONE, "%s: failed in a single ample call: %s", j.desc.c_str(), res_name(ref.res));
    auto in_size = [&]() -> size_t {
        size_t k = s.draw(1, 4), b = s.chance(1, 5) ? k * j.bl / 2 : k * j.bl; int64_t d = (int64_t)s.draw(0, s.flip() ? 8 : 80) - (s.flip() ? 4 : 40);
        return (size_t)std::max<int64_t>(std::max<int64_t>(16, (int64_t)j.bl / 50), (int64_t)b + d);
    };
    unsigned n = (unsigned)s.draw(2, 6);
    std::string ds;
    for (unsigned i = 0; i < n; i++) {
        Iface f;
        f.kind = s.chance(1, 3) ? 2 : 0;
        f.inbuf = (int)in_size(); f.outbuf = (int)(s.flip() ? s.draw(1, 60) : s.size(1, 300000));
        f.plan.seed = s.draw(0, 0xffff);
        f.plan.whole_in = s.chance(1, 6); f.plan.in_max = in_size(); f.plan.in_mode = s.chance(1, 4) ? 2 : 0;
        f.plan.whole_out = s.chance(1, 8); f.plan.out_max = s.flip() ? s.draw(1, 60) : s.size(1, 300000); f.plan.out_mode = (int)s.draw(0, 2);
        if (s.chance(1, 3)) f.plan.zero_out = (unsigned)s.draw(0, 8);
        if (s.chance(1, 4)) f.plan.zero_in = (unsigned)s.draw(0, 8);
        f.plan.late_eof = s.flip();
        compare_spec(j, ref, run_spec(j, f, probe), f);
        ds += " | " + f.str();
        if (f.kind == 2) c.label("file");
    }
    c.cases = n + 1;
    c.nontrivial = true;
    c.describe("%s -> %zu bytes%s", j.desc.c_str(), ref.out.size(), ds.substr(0, 260).c_str());
}

// ------------------------------------------------------------------ C06
namespace {
enum Cls { K_DONE, K_MAGIC, K_CORRUPT, K_FAIL };
const char *CLS[] = {"DONE", "BAD_MAGIC", "CORRUPT", "failure"};
}
// Executes arbitrary delta bytes by the documented format.
static Cls ref_patch(const Bytes &d, const Bytes &basis, Bytes &out, std::string &why, uint64_t limit = 1u << 24) {
    size_t p = 0;
    if (d.size() < 4) { why = "shorter than the magic"; return K_FAIL; }
    if (get_be(d.data(), 4) != M_DELTA) { why = "wrong magic"; return K_MAGIC; }
    p = 4;
    static const int W[4] = {1, 2, 4, 8};
    for (;;) {
        if (p >= d.size()) { why = "ends without an end command"; return K_FAIL; }
        uint8_t op = d[p++];
        if (op == 0) { why = "complete"; return K_DONE; }
        if (op >= 0x55) { why = strf("undefined command %#x at %zu", op, p - 1); return K_CORRUPT; }
        if (op <= 0x44) {
            uint64_t n = op;
            if (op > 64) {
                int w = W[op - 0x41];
                if (d.size() - p < (size_t)w) { why = "ends inside a parameter"; return K_FAIL; }
                n = get_be(&d[p], w); p += w;
                if (n == 0 || (int64_t)n < 0) { why = strf("literal length %lld at %zu", (long long)n, p); return K_CORRUPT; }
            }
            size_t k = (size_t)std::min<uint64_t>(n, d.size() - p);
            if (out.size() + k > limit) throw Discard();
            out.insert(out.end(), d.begin() + p, d.begin() + p + k);
            p += k;
            if (k < n) { why = "ends inside literal data"; return K_FAIL; }
        } else {
            int w1 = W[(op - 0x45) / 4], w2 = W[(op - 0x45) % 4];
            if (d.size() - p < (size_t)(w1 + w2)) { why = "ends inside parameters"; return K_FAIL; }
            uint64_t pos = get_be(&d[p], w1), n = get_be(&d[p + w1], w2);
            p += w1 + w2;
            if (n == 0 || (int64_t)n < 0) { why = strf("copy length %lld", (long long)n); return K_CORRUPT; }
            if ((int64_t)pos < 0) { why = strf("copy position %lld", (long long)pos); return K_CORRUPT; }
            uint64_t have = pos < basis.size() ? basis.size() - pos : 0;
            uint64_t k = std::min(n, have);
            if (out.size() + k > limit) throw Discard();
            out.insert(out.end(), basis.begin() + (k ? pos : 0), basis.begin() + (k ? pos + k : 0));
            if (k < n) { why = strf("copy (%llu,%llu) past the end of the basis", (unsigned long long)pos, (unsigned long long)n); return K_FAIL; }
        }
    }
}
static void c06_judge(const Bytes &d, const Bytes &basis, const Iface &f, Cls want, const Bytes &ref, const std::string &why, uint64_t bseed = 0) {
    Basis b; b.data = &basis; b.seed = bseed; if (bseed) { b.partial = bseed % 13; b.own = bseed / 13 % 13; }
    lib_heap_reset();
    RunResult r = op_patch(b, d, f);
    size_t peak = lib_peak_bytes();
    CHECK(r.res != RS_BLOCKED && r.res != RS_RUNNING, "patch ended with %s although all input was offered (%s)", res_name(r.res), why.c_str());
    switch (want) {
    case K_DONE: CHECK(r.res == RS_DONE, "delta is valid (%s) but patch returned %s", why.c_str(), res_name(r.res)); break;
    case K_MAGIC: CHECK(r.res == RS_BAD_MAGIC, "wrong magic number but patch returned %s", res_name(r.res)); break;
    case K_CORRUPT: CHECK(r.res == RS_CORRUPT, "delta is corrupt (%s) but patch returned %s", why.c_str(), res_name(r.res)); break;
    default: CHECK(r.res != RS_DONE && r.res >= 100, "delta is damaged (%s) but patch returned %s", why.c_str(), res_name(r.res)); break;
    }
    if (want == K_DONE) expect_same(r.out, ref, "patch output");
    else if (r.out.size() > ref.size() || (r.out.size() && memcmp(r.out.data(), ref.data(), r.out.size()))) {
        Bytes cut = ref; if (r.out.size() < cut.size()) cut.resize(r.out.size());
        expect_same(r.out, cut, strf("output before the failure (%s)", why.c_str()).c_str());
    }
    if (lib_heap_available()) {
        size_t bound = (1u << 20) + 6 * d.size() + 2 * ((size_t)f.inbuf + f.outbuf);
        CHECK(peak <= bound, "patch of %zu delta bytes (output %zu) had %zu bytes allocated at once", d.size(), r.out.size(), peak);
    }
}
static void c06_go(Ctx &c, const Bytes &d, const Bytes &basis) {
    Src &s = c.s;
    Bytes ref; std::string why;
    Cls want = ref_patch(d, basis, ref, why);
    unsigned n = (unsigned)s.draw(1, 3);
    std::string fs;
    for (unsigned i = 0; i < n; i++) {
        Iface f = gen_iface(s, d.size(), ref.size());
        c06_judge(d, basis, f, want, ref, why, s.chance(1, 4) ? s.draw(1, 9999) : 0);
        fs = f.str();
    }
    c.cases = n;
    c.label(CLS[want]);
    if (want == K_FAIL) c.label(why.find("past the end") != std::string::npos ? "copy-past-end" : "truncated");
    c.nontrivial = want != K_DONE;
    c.describe("%s: %zu delta bytes %s, basis %zu, output %zu via %s: %s", CLS[want], d.size(), hexs(d, 40).c_str(), basis.size(), ref.size(), fs.c_str(), why.c_str());
}
PROPERTY(C06, mutate) {
    Src &s = c.s;
    DeltaProg g = gen_delta(s, 24, 400, 2000, s.flip());
    Bytes d = g.delta;
    if (s.chance(1, 4)) d.resize(s.draw(0, d.size() - 1));      // truncate only
    else if (s.chance(1, 3) && g.cmd_at.size()) {              // damage a command byte
        d[s.pick(g.cmd_at)] = (uint8_t)s.draw(0, 255);
    } else mutate(s, d, 3);
    Bytes basis = g.basis;
    if (s.chance(1, 5)) basis.resize(s.draw(0, basis.size()));  // basis too short
    c06_go(c, d, basis);
}
PROPERTY(C06, crafted) {
    Src &s = c.s;
    Bytes d, basis(s.size(0, 3000));
    fill_random(basis.data(), basis.size(), s.draw(0, 0xffff));
    put_be(d, s.chance(1, 15) ? s.big(0, 0xffffffff) : M_DELTA, 4);
    static const int W[4] = {1, 2, 4, 8};
    unsigned n = (unsigned)s.draw(0, 8);
    auto val = [&](uint64_t sane) -> uint64_t {
        switch (s.weighted({6, 1, 1, 3})) { case 0: return sane; case 1: return 0; case 2: return sane + s.draw(1, 3); default: return s.big(0, UINT64_MAX); }
    };
    for (unsigned i = 0; i < n; i++) {
        uint8_t op = s.chance(1, 8) ? (uint8_t)s.draw(0, 255) : (uint8_t)s.draw(1, 0x54);
        if (op == 0) break;
        d.push_back(op);
        if (op > 0x54) continue;
        if (op <= 0x44) {
            uint64_t L = op;
            if (op > 64) { int w = W[op - 0x41]; L = val(s.size(1, 300)); put_be(d, L, w); if (w < 8) L &= (1ull << (8 * w)) - 1; }
            size_t k = (size_t)std::min<uint64_t>(L, s.chance(1, 10) ? s.draw(0, 80) : 70000);
            Bytes t(k); fill_random(t.data(), k, s.draw(0, 0xffff));
            d.insert(d.end(), t.begin(), t.end());
        } else {
            uint64_t pos = s.size(0, basis.size()), L = s.size(0, basis.size() - pos);
            if (s.chance(1, 8)) { pos = basis.size() - std::min<uint64_t>(basis.size(), s.draw(0, 3)); L = s.draw(0, 5); }
            put_be(d, val(pos), W[(op - 0x45) / 4]); put_be(d, val(L), W[(op - 0x45) % 4]);
        }
    }
    if (!s.chance(1, 5)) d.push_back(0);
    if (s.chance(1, 6)) for (unsigned k = (unsigned)s.draw(1, 9); k--;) d.push_back((uint8_t)s.draw(0, 255));
    c06_go(c, d, basis);
}
PROPERTY(C06, raw) {
    Src &s = c.s;
    Bytes d, basis(300);
    fill_random(basis.data(), basis.size(), 5);
    if (!s.chance(1, 6)) put_be(d, M_DELTA, 4);
    for (size_t n = s.size(0, 120); n--;) d.push_back((uint8_t)(s.flip() ? s.draw(0, 255) : s.draw(0, 0x56)));
    c06_go(c, d, basis);
}
// every proper prefix, and every single command byte value
PROPERTY(C06, prefix) {
    Src &s = c.s;
    DeltaProg g = gen_delta(s, 12, 90, 400, s.flip());
    Iface f = gen_iface(s, g.delta.size(), g.expect.size());
    c.cases = 0;
    for (size_t k = 0; k < g.delta.size(); k++) {
        Bytes d(g.delta.begin(), g.delta.begin() + k), ref; std::string why;
        Cls want = ref_patch(d, g.basis, ref, why);
        if (want == K_DONE) fail("harness: prefix judged complete");
        c06_judge(d, g.basis, f, want, ref, why);
        c.cases++;
    }
    size_t at = s.pick(g.cmd_at);
    for (int v = 0; v < 256; v++) {
        Bytes d = g.delta, ref; std::string why;
        d[at] = (uint8_t)v;
        Cls want = ref_patch(d, g.basis, ref, why);
        c06_judge(d, g.basis, f, want, ref, why);
        c.cases++;
    }
    c.nontrivial = g.cmds > 0;
    c.label("all-prefixes"); c.label("all-command-bytes");
    c.describe("all %zu prefixes and 256 command byte values at %zu of a %zu-command delta via %s", g.delta.size(), at, g.cmds, f.str().c_str());
}

// ------------------------------------------------------------------ C07
static void c07_judge(Ctx &c, const Bytes &d, const Bytes &nw, const Iface &fl, const Iface &fd, bool delta_ok) {
    // reference
    enum { ANYERR, BADMAGIC, ENDED, MAGIC_OR_ENDED, LOADS, EITHER } want;
    uint32_t magic = 0; int32_t bl = 0, sl = 0; size_t count = 0;
    if (d.size() < 12) want = d.size() >= 4 && !magic_is_sig((uint32_t)get_be(d.data(), 4)) ? MAGIC_OR_ENDED : d.size() >= 8 ? ANYERR : ENDED;
    else {
        magic = (uint32_t)get_be(&d[0], 4); bl = (int32_t)get_be(&d[4], 4); sl = (int32_t)get_be(&d[8], 4);
        bool hdr = bl >= 1 && sl >= 0 && sl <= 32;
        if (!magic_is_sig(magic)) want = hdr ? BADMAGIC : ANYERR;
        else if (!hdr || sl > magic_max_strong(magic)) want = ANYERR;
        else {
            if (sl == 0) sl = magic_max_strong(magic);
            size_t rest = d.size() - 12, es = 4 + (size_t)sl;
            count = rest / es; rest %= es;
            want = rest == 0 ? LOADS : rest < 4 ? EITHER : ENDED;
        }
    }
    if (want == ANYERR && d.size() >= 8 && d.size() < 12 && (int32_t)get_be(&d[4], 4) >= 1) want = ENDED;
    if (want == MAGIC_OR_ENDED && d.size() >= 8 && (int32_t)get_be(&d[4], 4) < 1) want = ANYERR;
    SigHolder h;
    RunResult r = op_load(d, &h.s, fl);
    CHECK(r.res == RS_DONE || r.res >= 100, "loading ended with %s", res_name(r.res));
    switch (want) {
    case ANYERR: CHECK(r.res != RS_DONE, "invalid signature header (%s) was accepted", hexs(d, 12).c_str()); break;
    case BADMAGIC: CHECK(r.res == RS_BAD_MAGIC, "unknown magic %#x gave %s", magic, res_name(r.res)); break;
    case MAGIC_OR_ENDED: CHECK(r.res == RS_BAD_MAGIC || r.res == RS_INPUT_ENDED, "unknown magic in a short header gave %s", res_name(r.res)); break;
    case ENDED: CHECK(r.res == RS_INPUT_ENDED, "signature of %zu bytes (bl=%d sl=%d) ends inside %s but load returned %s", d.size(), bl, sl, d.size() < 12 ? "the header" : "a strong sum", res_name(r.res)); break;
    case LOADS: CHECK(r.res == RS_DONE, "well-formed signature of %zu bytes (magic=%#x bl=%d sl=%d count=%zu) was rejected: %s", d.size(), magic, bl, sl, count, res_name(r.res)); break;
    default: CHECK(r.res == RS_DONE || r.res == RS_INPUT_ENDED, "signature with %zu stray bytes gave %s", (d.size() - 12) % (4 + (size_t)sl), res_name(r.res)); break;
    }
    static const char *L[] = {"invalid-header", "bad-magic", "ended", "short-bad-magic", "loads", "stray-bytes"};
    c.label(L[want]);
    c.nontrivial = true;
    c.describe("%s: %zu bytes %s, bl=%d sl=%d count=%zu, new %zu via %s / %s -> %s", L[want], d.size(), hexs(d, 24).c_str(), bl, sl, count, nw.size(), fl.str().c_str(), fd.str().c_str(), res_name(r.res));
    if (r.res != RS_DONE) return;       // holder frees whatever was left
    CHECK(h.s, "load succeeded without a signature");
    rs_result q;
    { LibScope l; q = rs_build_hash_table(h.s); }
    CHECK(q == RS_DONE, "rs_build_hash_table: %s", res_name(q));
    if (count < 3000) {
        LogCap cap(RS_LOG_INFO);
        { LibScope l; rs_sumset_dump(h.s); }
        CHECK(cap.ev.size() >= count, "dump of %zu blocks logged only %zu messages", count, cap.ev.size());
    }
    if (!delta_ok) return;
    RunResult dr = op_delta(h.s, nw, fd);
    CHECK(dr.res == RS_DONE, "delta against an accepted signature failed: %s", res_name(dr.res));
    RefDelta rd;
    std::string e = ref_parse_delta(dr.out, rd);
    CHECK(e.empty(), "delta against an accepted signature is malformed: %s", e.c_str());
    uint64_t at = 0;
    for (auto &k : rd.c) {
        if (k.k == Cmd::LIT) CHECK(at + k.len <= nw.size() && !memcmp(&dr.out[k.data], &nw[at], k.len), "literal at %llu does not carry the new file's bytes", (unsigned long long)at);
        if (k.k == Cmd::COPY) CHECK(k.pos + k.len <= (uint64_t)count * (uint64_t)bl, "copy (%llu,%llu) outside the %zu blocks of %d bytes that were signed", (unsigned long long)k.pos, (unsigned long long)k.len, count, bl);
        if (k.k != Cmd::END) at += k.len;
    }
    CHECK(at == nw.size(), "delta describes %llu bytes of %zu", (unsigned long long)at, nw.size());
    if (rd.copy_cmds) c.label("copies");
}
static Bytes hostile_sig(Src &s, Bytes &nw, size_t maxcount) {
    RefSig g;
    g.magic = gen_magic(s);
    g.block_len = (uint32_t)(s.chance(1, 3) ? s.size(1, 100000) : s.draw(1, 64));
    g.strong_len = (uint32_t)gen_strong_len(s, g.magic, 1);
    nw = gen_content(s, s.size(0, 4000), g.block_len);
    size_t n = s.size(0, maxcount);
    uint64_t seed = s.draw(0, 0xffff); Rng r(seed);
    unsigned style = (unsigned)s.draw(0, 4);
    for (size_t i = 0; i < n; i++) {
        SigEntry e; memset(&e, 0, sizeof e);
        for (auto &x : e.strong) x = (uint8_t)(style == 1 ? 0 : r.next());
        e.weak = style == 0 ? (uint32_t)r.next() : style == 1 ? 0 : style == 2 ? 0xffffffffu : style == 3 ? (uint32_t)i : (uint32_t)(r.next() % 3);
        if (style == 4 && nw.size() >= g.block_len && r.next() % 2) {
            size_t o = r.next() % (nw.size() - g.block_len + 1);
            e.weak = ref_weak(g.magic, &nw[o], g.block_len);
            if (r.next() % 2) ref_strong(g.magic, &nw[o], g.block_len, e.strong);
        }
        g.e.push_back(e);
    }
    Bytes b = g.encode();
    if (s.chance(1, 8)) { memset(&b[8], 0, 4); } // strong length 0
    return b;
}
static void c07(Ctx &c, size_t maxcount) {
    Src &s = c.s;
    Bytes nw, d = hostile_sig(s, nw, maxcount);
    switch (s.weighted({4, 5, 3, 2, 2})) {
    case 0: break;
    case 1: {                   // field-wise damage
        unsigned f = (unsigned)s.draw(0, 2);
        uint32_t v = (uint32_t)(f == 0 ? (s.flip() ? s.big(0, 0xffffffff) : (uint32_t)(M_MD4 + s.draw(0, 0x120) - 8)) : f == 1 ? s.big(0, 0xffffffff) : s.flip() ? s.draw(0, 40) : s.big(0, 0xffffffff));
        for (int i = 0; i < 4; i++) d[4 * f + i] = (uint8_t)(v >> (24 - 8 * i));
        break;
    }
    case 2: d.resize(s.flip() ? s.draw(0, d.size()) : s.draw(0, std::min<size_t>(d.size(), 40))); break;
    case 3: mutate(s, d, 1); break;
    default: { for (unsigned k = (unsigned)s.draw(1, 7); k--;) d.push_back((uint8_t)s.draw(0, 255)); }
    }
    uint32_t bl = d.size() >= 8 ? (uint32_t)get_be(&d[4], 4) : 0;
    bool big = bl > (1u << 20) && bl < 0x80000000u;
    bool go = !big || (bl <= (64u << 20) ? s.chance(1, 4) : s.chance(1, g_san ? 400 : 40));
    Iface fl = gen_iface(s, d.size(), 1), fd = gen_iface(s, nw.size(), nw.size() + 20);
    if (big && go) c.label("huge-block-length-delta");
    c07_judge(c, d, nw, fl, fd, go);
}
PROPERTY(C07, small) { c07(c, 40); }
PROPERTY(C07, large) { c07(c, 9000); }
PROPERTY(C07, many) {          // many blocks of noise, perhaps cut short
    Src &s = c.s;
    uint32_t magic = gen_magic(s); size_t sl = s.draw(1, magic_max_strong(magic));
    Bytes d, nw(s.size(0, 3000)); put_be(d, magic, 4); put_be(d, s.size(1, 5000), 4); put_be(d, sl, 4);
    size_t n = 12 + s.size(10, 400000) * (4 + sl); d.resize(n); fill_random(&d[12], n - 12, s.draw(0, 0xffffff));
    fill_random(nw.data(), nw.size(), s.draw(0, 0xffff));
    if (s.flip()) d.resize(n - s.draw(1, 3 + sl));
    Iface fl = gen_iface(s, d.size(), 1), fd = gen_iface(s, nw.size(), nw.size() + 20);
    c07_judge(c, d, nw, fl, fd, true);
}
PROPERTY(C07, prefix) {
    Src &s = c.s;
    Bytes nw, d = hostile_sig(s, nw, 6);
    Iface fl = gen_iface(s, d.size(), 1), fd;
    size_t k;
    for (k = 0; k <= d.size(); k++) c07_judge(c, Bytes(d.begin(), d.begin() + k), nw, fl, fd, k % 5 == 0);
    c.cases = k;
    c.label("all-prefixes");
}
PROPERTY(C07, raw) {
    Src &s = c.s;
    Bytes d;
    if (!s.chance(1, 6)) { put_be(d, gen_magic(s), 4); if (!s.chance(1, 4)) { put_be(d, s.draw(1, 9), 4); put_be(d, s.draw(0, 17), 4); } }
    for (size_t n = s.size(0, 150); n--;) d.push_back((uint8_t)s.draw(0, 255));
    if (d.size() >= 8 && get_be(&d[4], 4) > 100000) d[4] |= 0x80;
    Bytes nw(60); fill_random(nw.data(), 60, 3);
    Iface fl = gen_iface(s, d.size(), 1), fd = gen_iface(s, nw.size(), nw.size());
    c07_judge(c, d, nw, fl, fd, true);
}

// ------------------------------------------------------------------ C10
namespace {
struct Cb {                    // strict monitor of the copy callback
    Cb *self; const Bytes *basis; const RefDelta *rd; const rs_buffers_t *cur = nullptr;
    size_t ci = 0; uint64_t done = 0; // current copy command, bytes of it delivered
    Rng r{1}; unsigned partial = 0, own = 0, block = 0; uint64_t blockrun = 0, blocked = 0;
    int64_t fail_call = -1; rs_result fail_with = RS_IO_ERROR; bool failed = false; bool scribble = false;
    uint64_t calls = 0, delivered = 0; std::string err; uint8_t *mine = nullptr; size_t mine_n = 0;
    ~Cb() { free(mine); }
};
Cb *s_cb;
}
static rs_result c10_cb(void *opaque, rs_long_t pos, size_t *len, void **buf) {
    OutScope os;
    Cb *k = s_cb;
    auto bad = [&](std::string e) { if (k->err.empty()) k->err = e; return RS_INTERNAL_ERROR; };
    if (opaque != (void *)k->self) return bad("the opaque pointer was changed");
    k->calls++;
    if (k->mine) { memset(k->mine, 0xEE, k->mine_n); free(k->mine); k->mine = nullptr; } // the previous own buffer dies now
    if (k->failed) return bad("called again after it had returned an error");
    while (k->ci < k->rd->c.size() && (k->rd->c[k->ci].k != Cmd::COPY || k->done == k->rd->c[k->ci].len)) { k->ci++; k->done = 0; }
    if (k->ci >= k->rd->c.size()) return bad(strf("asked for (%lld,%zu) after all copies were done", (long long)pos, *len));
    const Cmd &c = k->rd->c[k->ci];
    if ((uint64_t)pos != c.pos + k->done) return bad(strf("asked for position %lld, the copy command (%llu,%llu) continues at %llu", (long long)pos, (unsigned long long)c.pos, (unsigned long long)c.len, (unsigned long long)(c.pos + k->done)));
    if (*len == 0) return bad("asked for zero bytes");
    if (*len > c.len - k->done) return bad(strf("asked for %zu bytes but only %llu of the copy are left", *len, (unsigned long long)(c.len - k->done)));
    if (k->cur && *len > k->cur->avail_out) return bad(strf("asked for %zu bytes with %zu bytes of output space", *len, k->cur->avail_out));
    if (k->fail_call >= 0 && (int64_t)k->calls > k->fail_call) {
        k->failed = true;
        if (k->scribble) { memset(*buf, 0x99, *len); if (k->r.next() % 2) *len /= 2; } // it may have used the buffer before failing
        return k->fail_with;
    }
    if (k->blockrun) { k->blockrun--; k->blocked++; return RS_BLOCKED; }
    if (k->block && k->r.next() % 16 < k->block && k->blocked < 3000) { k->blockrun = k->r.next() % 4; k->blocked++; return RS_BLOCKED; }
    size_t n = *len;
    if (k->partial && k->r.next() % 16 < k->partial && n > 1) n = 1 + k->r.next() % (n - 1);
    const uint8_t *src = k->basis->data() + pos;
    if (k->own && k->r.next() % 16 < k->own) {
        k->mine = (uint8_t *)malloc(n); k->mine_n = n;
        memcpy(k->mine, src, n);
        *buf = k->mine;
    } else memcpy(*buf, src, n);
    *len = n; k->done += n; k->delivered += n;
    return RS_DONE;
}
static void c10(Ctx &c, size_t maxcmds, size_t maxlit, size_t maxb) {
    Src &s = c.s;
    DeltaProg g = gen_delta(s, maxcmds, maxlit, maxb, false);
    RefDelta rd;
    std::string e = ref_parse_delta(g.delta, rd);
    if (!e.empty()) fail("harness: %s", e.c_str());
    Cb k; k.self = &k; k.basis = &g.basis; k.rd = &rd; k.r = Rng(s.draw(0, 0xffff));
    if (!s.chance(1, 4)) { k.partial = (unsigned)s.draw(0, 15); k.own = (unsigned)s.draw(0, 16); }
    bool inject = s.chance(1, 3), pull = s.chance(1, 4);
    if (!pull && s.chance(1, 2)) k.block = (unsigned)s.draw(1, 14);
    if (inject) {
        k.fail_call = (int64_t)s.size(0, 3 + g.copies * 2);
        static const int R[] = {RS_IO_ERROR, RS_SYNTAX_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BAD_MAGIC, RS_UNIMPLEMENTED, RS_CORRUPT, RS_INTERNAL_ERROR, RS_PARAM_ERROR, 150, 255, 1000};
        k.fail_with = (rs_result)R[s.draw(0, 11)];
        k.scribble = s.flip();
    }
    Plan p = gen_plan(s, g.delta.size(), g.expect.size());
    s_cb = &k;
    JobHolder j;
    { LibScope l; j.j = rs_patch_begin(c10_cb, &k); }
    RunResult r;
    if (pull) {
        r = run_pull(j.j, g.delta, p, true);
    } else {
        PushOpts o;
        uint64_t last = 0;
        o.stalled_ok = [&]() { bool b = k.blocked != last; last = k.blocked; return b; };
        // the monitor needs the buffers of the call in progress
        Basis dummy; o.basis = &dummy; o.may_block = true;
        struct Hook { } ;
        // run_push publishes the buffers through o.basis->cur; mirror it lazily
        static const rs_buffers_t *const *cell; cell = &dummy.cur;
        o.per_call = nullptr;
        // the address of rs_buffers_t inside run_push is constant during the run
        k.cur = nullptr;
        struct Tap { static rs_result cb(void *a, rs_long_t pos, size_t *len, void **buf) { s_cb->cur = *cell; return c10_cb(a, pos, len, buf); } };
        j.reset();
        { LibScope l; j.j = rs_patch_begin(Tap::cb, &k); }
        r = run_push(j.j, g.delta, p, o);
    }
    CHECK(k.err.empty(), "copy callback %s", k.err.c_str());
    if (k.failed) {
        CHECK(r.res == k.fail_with, "callback returned %d but the job ended with %d (%s)", (int)k.fail_with, (int)r.res, res_name(r.res));
        size_t upto = 0; // exact output before the failed request
        uint64_t n = 0;
        for (size_t i = 0; i < rd.c.size() && i < k.ci; i++) if (rd.c[i].k != Cmd::END) n += rd.c[i].len;
        upto = n + k.done;
        if (!pull) {
            Bytes want(g.expect.begin(), g.expect.begin() + upto);
            expect_same(r.out, want, "output before the failed copy request");
        } else if (r.out.size() > upto || memcmp(r.out.data(), g.expect.data(), r.out.size())) fail("pull output before the failed request is not a prefix");
        c.label("error-injected");
    } else {
        CHECK(r.res == RS_DONE, "patch with a well-behaved callback (partial=%u own=%u blocked=%llu times) ended with %s", k.partial, k.own, (unsigned long long)k.blocked, res_name(r.res));
        expect_same(r.out, g.expect, "patch output");
    }
    if (k.blocked) c.label("blocked");
    if (k.own) c.label("own-buffer");
    if (k.partial) c.label("short-delivery");
    if (pull) c.label("pull");
    c.nontrivial = g.copies > 0;
    c.describe("%zu copies, %llu callback calls, %llu blocked, partial=%u own=%u%s via %s: %s", g.copies, (unsigned long long)k.calls, (unsigned long long)k.blocked, k.partial, k.own,
               k.failed ? strf(", failed with %d", (int)k.fail_with).c_str() : "", (std::string(pull ? "pull " : "push ") + p.str()).c_str(), g.desc.substr(0, 120).c_str());
}
PROPERTY(C10, small) { c10(c, 30, 300, 2000); }
PROPERTY(C10, large) { c10(c, 30, 100000, 300000); }

// ------------------------------------------------------------------ C12
namespace {
struct Drv {
    rs_job_t *job = nullptr; const Bytes *in; size_t shown = 0; Rng r{1}; const Plan *p = nullptr;
    bool eof = false; Bytes ibuf, obuf; size_t osz = 0; bool outset = false; Bytes out;
    uint64_t nin = 0, nout = 0; int64_t fail_in = -1, fail_out = -1; rs_result fail_with = RS_IO_ERROR; bool failed = false;
    std::string err; rs_buffers_t *b = nullptr; int inbaton = 0, outbaton = 0; unsigned idle = 0; int eofval = 1; bool keep = false; int order = 0;
    uint64_t last_out_call = 0, seq = 0, accept = 0;
};
Drv *s_drv;
size_t drv_sz(Rng &r, int mode, size_t max) { return mode == 0 ? max : mode == 1 ? 1 + r.next() % max : (r.next() & 3) ? 1 + r.next() % std::min<size_t>(max, 4) : max; }
}
static rs_result drv_in(rs_job_t *job, rs_buffers_t *b, void *op) {
    OutScope os;
    Drv *d = s_drv;
    auto bad = [&](const char *e) { if (d->err.empty()) d->err = e; return RS_INTERNAL_ERROR; };
    if (op != &d->inbaton) return bad("input callback got the wrong opaque pointer");
    if (job != d->job) return bad("input callback got a different job");
    if (b != d->b) return bad("input callback got a different buffer structure");
    if (d->failed) return bad("a callback was called after one had failed");
    if (d->eof) return bad("input callback called after it had signalled end of input");
    if (d->nin == 0 && (b->avail_in || b->avail_out || b->eof_in)) return bad("buffers were not cleared before the first callback");
    if (b->avail_in > d->ibuf.size()) return bad("avail_in is larger than what was supplied");
    if (b->avail_in && (uint8_t *)b->next_in != d->ibuf.data() + d->ibuf.size() - b->avail_in) return bad("next_in does not point at the unconsumed input");
    d->nin++;
    if (d->nin > 4000000 + 4 * d->in->size()) return bad("endless input calls");
    if (d->fail_in >= 0 && (int64_t)d->nin > d->fail_in) { d->failed = true; return d->fail_with; }
    size_t left = b->avail_in, rest = d->in->size() - d->shown, add = 0;
    if (rest) {
        if (d->p->whole_in) add = rest;
        else if (!(d->p->zero_in && d->r.next() % 16 < d->p->zero_in)) add = std::min(rest, drv_sz(d->r, d->p->in_mode, d->p->in_max));
        if (!d->p->whole_in && left > 3000) add = 0;
    }
    if (add) {
        Bytes nb(d->in->begin() + (d->shown - left), d->in->begin() + d->shown + add);
        d->shown += add; d->ibuf.swap(nb);
        b->next_in = (char *)d->ibuf.data(); b->avail_in = d->ibuf.size();
        if (d->shown == d->in->size() && !d->p->late_eof) { b->eof_in = d->eofval; d->eof = true; }
    } else if (!rest) { b->eof_in = d->eofval; d->eof = true; }
    return RS_DONE;
}
static rs_result drv_out(rs_job_t *job, rs_buffers_t *b, void *op) {
    OutScope os;
    Drv *d = s_drv;
    auto bad = [&](const char *e) { if (d->err.empty()) d->err = e; return RS_INTERNAL_ERROR; };
    if (op != &d->outbaton) return bad("output callback got the wrong opaque pointer");
    if (job != d->job) return bad("output callback got a different job");
    if (b != d->b) return bad("output callback got a different buffer structure");
    if (d->failed) return bad("a callback was called after one had failed");
    d->nout++;
    if (d->outset) {
        if (b->avail_out > d->osz) return bad("avail_out grew");
        size_t made = d->osz - b->avail_out;
        if (d->osz && (uint8_t *)b->next_out != d->obuf.data() + made) return bad("next_out does not match avail_out");
        if (made > d->accept) { d->out.insert(d->out.end(), d->obuf.begin() + d->accept, d->obuf.begin() + made); d->accept = made; d->idle = 0; }
        else if (d->eof && d->osz > made && ++d->idle > 60) return bad("output callback called repeatedly without progress");
    }
    if (d->fail_out >= 0 && (int64_t)d->nout > d->fail_out) { d->failed = true; return d->fail_with; }
    // leave the rest of the space in place, or supply a new buffer
    if (d->outset && b->avail_out && d->r.next() % 3 == 0) return RS_DONE;
    d->osz = d->p->whole_out ? 60000 : (d->p->zero_out && d->r.next() % 16 < d->p->zero_out) ? 0 : drv_sz(d->r, d->p->out_mode, d->p->out_max);
    d->obuf.assign(d->osz, 0xA5); d->outset = true; d->accept = 0;
    b->next_out = (char *)d->obuf.data(); b->avail_out = d->osz;
    return RS_DONE;
}
static void c12(Ctx &c, size_t maxn, size_t maxbl) {
    Src &s = c.s;
    JobSpec j; SigHolder sig; Bytes probe;
    gen_spec(s, j, sig, probe, maxn, maxbl);
    if (j.kind == 1 && j.damaged) j.damaged = true;
    Iface whole;
    Outcome ref = run_spec(j, whole, probe);
    Plan p = gen_plan(s, j.in.size(), ref.out.size());
    Drv d; d.in = &j.in; d.p = &p; d.r = Rng(p.seed + s.draw(0, 9));
    d.eofval = s.chance(1, 4) ? (int)s.pick(std::vector<int>{2, -1, 0x100, 0x40000000}) : 1;
    bool has_out = j.kind != 1 || s.flip();
    bool inject = s.chance(1, 2);
    static const int R[] = {RS_BLOCKED, RS_RUNNING, 42, RS_TEST_SKIPPED, RS_IO_ERROR, RS_SYNTAX_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BAD_MAGIC, RS_UNIMPLEMENTED, RS_CORRUPT, RS_INTERNAL_ERROR, RS_PARAM_ERROR, 200, -1};
    if (inject) {
        size_t est = 2 + (p.whole_in ? 1 : j.in.size() / (p.in_max ? p.in_max : 1)) + (p.whole_out ? 1 : ref.out.size() / (p.out_max ? p.out_max : 1));
        d.fail_with = (rs_result)R[s.draw(0, 14)];
        if (!has_out || s.flip()) d.fail_in = (int64_t)s.size(0, est); else d.fail_out = (int64_t)s.size(0, est);
    }
    s_drv = &d;
    SigHolder h; JobHolder job;
    Basis bs; bs.data = &j.basis; bs.seed = j.bseed; bs.partial = j.partial; bs.own = j.own;
    {
        LibScope l;
        job.j = j.kind == 0 ? rs_sig_begin(j.sp.block_len, j.sp.strong_len, (rs_magic_number)j.sp.magic) : j.kind == 1 ? rs_loadsig_begin(&h.s) : j.kind == 4 ? rs_patch_begin(basis_cb, &bs) : rs_delta_begin(j.sig);
    }
    rs_buffers_t b; memset(&b, 0x77, sizeof b);
    d.job = job.j; d.b = &b;
    rs_result res;
    { LibScope l; res = rs_job_drive(job.j, &b, drv_in, &d.inbaton, has_out ? drv_out : nullptr, &d.outbaton); }
    CHECK(d.err.empty(), "%s: %s", j.desc.c_str(), d.err.c_str());
    if (d.failed) {
        CHECK(res == d.fail_with, "%s: callback returned %d but rs_job_drive returned %d", j.desc.c_str(), (int)d.fail_with, (int)res);
        c.label(d.fail_in >= 0 ? "input-callback-result" : "output-callback-result");
        if (d.fail_with < 100) c.label("non-error-result");
        if (j.kind != 3) CHECK(d.out.size() <= ref.out.size() && !memcmp(d.out.data(), ref.out.data(), d.out.size()), "%s: output before the callback failure is not a prefix of the push output", j.desc.c_str());
    } else {
        CHECK(res == ref.res, "%s: push gives %s, pull gives %s", j.desc.c_str(), res_name(ref.res), res_name(res));
        if (res == RS_DONE) {
            CHECK(!has_out || d.osz - b.avail_out <= d.accept, "%s: %zu bytes produced but not offered to the output callback", j.desc.c_str(), (size_t)(d.osz - b.avail_out - d.accept));
            Outcome o; o.res = res; o.out = d.out; o.extra = ref.extra;
            if (j.kind != 1) { Iface f; f.kind = 1; f.plan = p; compare_spec(j, ref, o, f); }
            c.label("completed");
        } else {
            CHECK(d.out.size() <= ref.out.size() && !memcmp(d.out.data(), ref.out.data(), d.out.size()), "%s: output of a failing pull job is not a prefix of the push output", j.desc.c_str());
            c.label("job-failed");
        }
    }
    c.nontrivial = j.in.size() > 8 && d.nin > 0;
    c.label(KINDS[j.kind]);
    c.describe("%s pulled (%llu input, %llu output callbacks)%s -> %d via %s", j.desc.c_str(), (unsigned long long)d.nin, (unsigned long long)d.nout,
               d.failed ? strf(", callback result %d", (int)d.fail_with).c_str() : "", (int)res, p.str().c_str());
}
PROPERTY(C12, small) { c12(c, 3000, 500); }
PROPERTY(C12, large) { c12(c, 200000, 60000); }
