#include "spec.h"
#include <cstring>
#include <algorithm>
const char *const KINDS[5] = {"sig", "load", "delta", "slack", "patch"};
void mutate(Src &s, Bytes &b, size_t keep_header_chance) {
    unsigned k = (unsigned)s.draw(1, 4);
    while (k--) {
        if (b.empty()) return;
        size_t lo = b.size() > 12 && s.chance((unsigned)keep_header_chance, 4) ? 4 : 0;
        size_t at = s.draw(lo, b.size() - 1);
        switch (s.weighted({4, 3, 2, 2, 2})) {
        case 0: b[at] ^= (uint8_t)(1u << s.draw(0, 7)); break;
        case 1: b[at] = (uint8_t)(s.flip() ? s.draw(0, 255) : (uint64_t[]){0, 0xff, 0x80, 0x7f, 0x41, 0x55}[s.draw(0, 5)]); break;
        case 2: b.resize(at); break;
        case 3: { size_t n = s.draw(1, 9); Bytes t(n); fill_random(t.data(), n, s.draw(0, 0xffff)); b.insert(b.begin() + at, t.begin(), t.end()); break; }
        default: { size_t n = std::min<size_t>(b.size() - at, s.draw(1, 9)); b.erase(b.begin() + at, b.begin() + at + n); }
        }
    }
}

Outcome run_spec(const JobSpec &j, const Iface &f, const Bytes &probe) {
    RunResult r; Outcome o;
    switch (j.kind) {
    case 0: r = op_sig(j.in, j.sp, f); break;
    case 1: {
        SigHolder h;
        r = op_load(j.in, &h.s, f);
        if (r.res == RS_DONE) {
            CHECK(h.s, "load reported success without a signature");
            rs_result q;
            { LibScope l; q = rs_build_hash_table(h.s); }
            CHECK(q == RS_DONE, "rs_build_hash_table: %s", res_name(q));
            o.extra = dump_text(h.s);
            Iface w; RunResult d = op_delta(h.s, probe, w);
            CHECK(d.res == RS_DONE, "delta with a loaded signature: %s", res_name(d.res));
            o.extra.append((char *)d.out.data(), d.out.size());
        }
        break;
    }
    case 2: case 3: r = op_delta(j.sig, j.in, f); break;
    default: {
        Basis b; b.data = &j.basis; b.seed = j.bseed; b.partial = j.partial; b.own = j.own;
        r = op_patch(b, j.in, f);
    }
    }
    o.res = r.res; o.out = std::move(r.out);
    return o;
}
void gen_spec(Src &s, JobSpec &j, SigHolder &sig, Bytes &probe, size_t maxn, size_t maxbl) {
    j.kind = (int)s.weighted({3, 3, 5, 2, 4});
    uint32_t magic = gen_magic(s);
    j.magic = magic;
    if (j.kind == 0) {
        j.sp.magic = magic; j.sp.block_len = gen_block_len(s, maxbl); j.sp.strong_len = gen_strong_len(s, magic, 1);
        j.in = gen_content(s, s.chance(1, 4) ? s.draw(0, 8) * j.sp.block_len % (maxn + 1) : s.size(0, maxn), j.sp.block_len);
        j.desc = strf("signature bl=%zu of %zu bytes", j.sp.block_len, j.in.size());
    } else if (j.kind == 1) {
        size_t bl = gen_block_len(s, std::min<size_t>(maxbl, 300)), sl = gen_strong_len(s, magic, 1);
        Bytes basis = gen_content(s, s.size(0, maxn), bl);
        if (basis.size() / bl > 20000) basis.resize(bl * 20000);
        j.in = ref_sig(basis, magic, bl, sl).encode();
        if (s.chance(1, 3)) { mutate(s, j.in, 3); j.damaged = true; }
        // a mutated block length may be huge: keep the probe delta affordable
        if (j.in.size() >= 8 && get_be(&j.in[4], 4) > 4000000 && get_be(&j.in[4], 4) < 0x80000000u) { j.in[4] = 0; j.in[5] &= 0x0f; }
        probe = basis; if (probe.size() > 3000) probe.resize(3000);
        j.desc = strf("load of %zu bytes%s", j.in.size(), j.damaged ? " (damaged)" : "");
    } else if (j.kind == 2) {
        size_t bl = gen_block_len(s, maxbl), sl = gen_strong_len(s, magic, 8);
        Bytes basis;
        gen_pair(s, bl, magic, maxn, maxn, basis, j.in);
        if (basis.empty()) basis.resize(1 + bl / 2, 7);
        load_ok(ref_sig(basis, magic, bl, sl).encode(), sig);
        j.sig = sig.s;
        j.bl = bl; j.sl = sl; j.sig_basis = basis.size();
        j.desc = strf("delta bl=%zu basis=%zu new=%zu", bl, basis.size(), j.in.size());
    } else if (j.kind == 3) {
        j.in = gen_content(s, s.size(0, maxn), 64);
        if (s.flip()) { load_ok(ref_sig(Bytes(), magic, 512, 8).encode(), sig); j.sig = sig.s; }
        j.desc = strf("delta without usable signature, new=%zu", j.in.size());
    } else {
        DeltaProg g = gen_delta(s, maxn > 20000 ? 60 : 30, std::max<size_t>(100, maxn / 10), std::max<size_t>(100, maxn / 4), false);
        j.basis = g.basis; j.in = g.delta;
        if (s.chance(1, 3)) { mutate(s, j.in, 3); j.damaged = true; }
        if (s.chance(1, 3)) { j.partial = (unsigned)s.draw(0, 12); j.own = (unsigned)s.draw(0, 12); j.bseed = s.draw(0, 999); }
        j.desc = strf("patch of %zu delta bytes%s (%zu commands)", j.in.size(), j.damaged ? " (damaged)" : "", g.cmds);
    }
}
void compare_spec(const JobSpec &j, const Outcome &ref, const Outcome &o, const Iface &f) {
    CHECK(o.res == ref.res, "%s: single ample call gives %s but %s gives %s", j.desc.c_str(), res_name(ref.res), f.str().c_str(), res_name(o.res));
    if (j.kind == 3) {
        RefDelta a, b; Bytes x, y, none;
        std::string e = ref_parse_delta(ref.out, a);
        CHECK(e.empty(), "%s: single call gives a malformed delta: %s", j.desc.c_str(), e.c_str());
        e = ref_parse_delta(o.out, b);
        CHECK(e.empty(), "%s: %s gives a malformed delta: %s", j.desc.c_str(), f.str().c_str(), e.c_str());
        e = ref_apply(b, o.out, none, y);
        CHECK(e.empty(), "%s", e.c_str());
        expect_same(y, j.in, "content of a signature-less delta");
    } else if (f.kind == 1 && ref.res != RS_DONE) { // a failing drive call does not offer the last output
        CHECK(o.out.size() <= ref.out.size() && (o.out.empty() || !memcmp(o.out.data(), ref.out.data(), o.out.size())), "%s: output under %s is not a prefix of the single-call output", j.desc.c_str(), f.str().c_str());
    } else expect_same(o.out, ref.out, strf("%s: output under %s vs one ample call", j.desc.c_str(), f.str().c_str()).c_str());
    CHECK(o.extra == ref.extra, "%s: the signature loaded under %s differs from the one loaded in one call", j.desc.c_str(), f.str().c_str());
}
