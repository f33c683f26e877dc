#include "delta_gen.h"
#include <cstring>
static int widx(int w) { return w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3; }
void put_lit(Bytes &d, const uint8_t *p, size_t n, int w) {
    if (w == 0) d.push_back((uint8_t)n);
    else { d.push_back((uint8_t)(0x41 + widx(w))); put_be(d, n, w); }
    d.insert(d.end(), p, p + n);
}
void put_copy(Bytes &d, uint64_t pos, uint64_t len, int w1, int w2) {
    d.push_back((uint8_t)(0x45 + widx(w1) * 4 + widx(w2)));
    put_be(d, pos, w1); put_be(d, len, w2);
}
DeltaProg gen_delta(Src &s, size_t maxcmds, size_t maxlit, size_t maxbasis, bool minimal) {
    DeltaProg g;
    size_t bn = s.size(1, maxbasis);
    g.basis.resize(bn);
    fill_random(g.basis.data(), bn, s.draw(0, 0xffff), s.chance(1, 5) ? 3 : 256);
    put_be(g.delta, M_DELTA, 4);
    size_t n = s.size(0, maxcmds);
    static const int W[4] = {1, 2, 4, 8};
    uint64_t nextpos = 0;
    for (size_t i = 0; i < n && g.expect.size() < 3000000; i++) {
        g.cmd_at.push_back(g.delta.size()); g.out_at.push_back(g.expect.size());
        if (s.flip()) {
            size_t len = s.flip() ? s.size(1, 70) : s.size(1, maxlit);
            Bytes lit(len);
            fill_random(lit.data(), len, s.draw(0, 0xffff));
            int mw = min_width(len), w;
            if (len <= 64 && (minimal || s.flip())) w = 0;
            else if (minimal || s.flip()) w = mw;
            else { w = W[s.draw(widx(mw), 3)]; }
            if (w > mw || (len <= 64 && w)) g.nonmin++;
            put_lit(g.delta, lit.data(), len, w);
            g.expect.insert(g.expect.end(), lit.begin(), lit.end());
            if (g.desc.size() < 400) g.desc += strf("lit%d(%zu) ", w, len);
        } else {
            uint64_t pos = s.chance(1, 4) ? (nextpos < bn ? nextpos : 0) : s.chance(1, 3) ? bn - 1 - s.size(0, bn - 1) : s.size(0, bn - 1);
            uint64_t len = s.chance(1, 4) ? bn - pos : s.size(1, bn - pos);
            nextpos = pos + len;
            int m1 = min_width(pos), m2 = min_width(len);
            int w1 = minimal || s.flip() ? m1 : W[s.draw(widx(m1), 3)], w2 = minimal || s.flip() ? m2 : W[s.draw(widx(m2), 3)];
            if (w1 > m1 || w2 > m2) g.nonmin++;
            put_copy(g.delta, pos, len, w1, w2);
            g.expect.insert(g.expect.end(), g.basis.begin() + pos, g.basis.begin() + pos + len);
            g.copies++;
            if (g.desc.size() < 400) g.desc += strf("copy%d/%d(%llu,%llu) ", w1, w2, (unsigned long long)pos, (unsigned long long)len);
        }
        g.cmds++;
    }
    g.cmd_at.push_back(g.delta.size()); g.out_at.push_back(g.expect.size());
    g.delta.push_back(0);
    return g;
}
