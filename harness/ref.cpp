#include "ref.h"
#include <cstring>
#include <unordered_map>

uint32_t ref_rollsum(const uint8_t *p, size_t n) {
    uint32_t s1 = 0, s2 = 0;
    for (size_t i = 0; i < n; i++) { s1 += p[i] + 31u; s2 += s1; }
    return (s2 << 16) | (s1 & 0xffff);
}
uint32_t ref_rk(const uint8_t *p, size_t n) {
    uint32_t h = 1;
    for (size_t i = 0; i < n; i++) h = h * 0x08104225u + p[i];
    return h;
}
uint32_t ref_weak(uint32_t m, const uint8_t *p, size_t n) { return magic_is_rk(m) ? ref_rk(p, n) : ref_rollsum(p, n); }

// ---- MD4, RFC 1320
static inline uint32_t rol(uint32_t x, int s) { return x << s | x >> (32 - s); }
static void md4_block(uint32_t st[4], const uint8_t *p) {
    uint32_t X[16];
    for (int i = 0; i < 16; i++) X[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
    uint32_t r[4] = {st[0], st[1], st[2], st[3]};
    static const int s1[4] = {3, 7, 11, 19}, s2[4] = {3, 5, 9, 13}, s3[4] = {3, 9, 11, 15};
    static const int o2[16] = {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15};
    static const int o3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    for (int i = 0; i < 48; i++) {
        int j = i & 15;
        // registers rotate: a,d,c,b
        uint32_t &a = r[(4 - (i & 3)) & 3];
        uint32_t b = r[(5 - (i & 3)) & 3], c = r[(6 - (i & 3)) & 3], d = r[(7 - (i & 3)) & 3];
        if (i < 16) a = rol(a + ((b & c) | (~b & d)) + X[j], s1[i & 3]);
        else if (i < 32) a = rol(a + ((b & c) | (b & d) | (c & d)) + X[o2[j]] + 0x5a827999u, s2[i & 3]);
        else a = rol(a + (b ^ c ^ d) + X[o3[j]] + 0x6ed9eba1u, s3[i & 3]);
    }
    for (int i = 0; i < 4; i++) st[i] += r[i];
}
void RefMd4::begin() { st[0] = 0x67452301; st[1] = 0xefcdab89; st[2] = 0x98badcfe; st[3] = 0x10325476; total = 0; }
void RefMd4::update(const uint8_t *p, size_t n) {
    size_t fill = total & 63;
    total += n;
    if (fill) {
        size_t k = 64 - fill; if (k > n) k = n;
        memcpy(buf + fill, p, k); p += k; n -= k; fill += k;
        if (fill < 64) return;
        md4_block(st, buf);
    }
    while (n >= 64) { md4_block(st, p); p += 64; n -= 64; }
    if (n) memcpy(buf, p, n);
}
void RefMd4::result(uint8_t out[16]) {
    uint64_t bits = total * 8;
    size_t fill = total & 63;
    buf[fill++] = 0x80;
    if (fill > 56) { memset(buf + fill, 0, 64 - fill); md4_block(st, buf); fill = 0; }
    memset(buf + fill, 0, 56 - fill);
    for (int i = 0; i < 8; i++) buf[56 + i] = (uint8_t)(bits >> (8 * i));
    md4_block(st, buf);
    for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) out[4 * i + k] = (uint8_t)(st[i] >> (8 * k));
}
void ref_md4(const uint8_t *p, size_t n, uint8_t out[16]) { RefMd4 m; m.begin(); m.update(p, n); m.result(out); }

// ---- BLAKE2b, RFC 7693, 32-byte digest, no key
static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SG[12][16] = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
    {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
    {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static inline uint64_t ror(uint64_t x, int n) { return x >> n | x << (64 - n); }
static void b2_compress(uint64_t h[8], const uint8_t *p, uint64_t t, bool last) {
    uint64_t m[16], v[16];
    memcpy(m, p, 128);           // little-endian host
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    for (int r = 0; r < 12; r++) {
#define G(a, b, c, d, x, y) a += b + x; d = ror(d ^ a, 32); c += d; b = ror(b ^ c, 24); a += b + y; d = ror(d ^ a, 16); c += d; b = ror(b ^ c, 63);
        const uint8_t *s = SG[r];
        G(v[0], v[4], v[8], v[12], m[s[0]], m[s[1]]) G(v[1], v[5], v[9], v[13], m[s[2]], m[s[3]])
        G(v[2], v[6], v[10], v[14], m[s[4]], m[s[5]]) G(v[3], v[7], v[11], v[15], m[s[6]], m[s[7]])
        G(v[0], v[5], v[10], v[15], m[s[8]], m[s[9]]) G(v[1], v[6], v[11], v[12], m[s[10]], m[s[11]])
        G(v[2], v[7], v[8], v[13], m[s[12]], m[s[13]]) G(v[3], v[4], v[9], v[14], m[s[14]], m[s[15]])
#undef G
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
void ref_blake2b256(const uint8_t *p, size_t n, uint8_t out[32]) {
    uint64_t h[8];
    memcpy(h, IV, sizeof h);
    h[0] ^= 0x01010000ull ^ 32;
    uint64_t t = 0;
    while (n > 128) { t += 128; b2_compress(h, p, t, false); p += 128; n -= 128; }
    uint8_t last[128] = {0};
    if (n) memcpy(last, p, n);
    b2_compress(h, last, t + n, true);
    memcpy(out, h, 32);
}
void ref_strong(uint32_t m, const uint8_t *p, size_t n, uint8_t out[32]) {
    if (magic_is_md4(m)) { memset(out, 0, 32); ref_md4(p, n, out); } else ref_blake2b256(p, n, out);
}

Bytes RefSig::encode() const {
    Bytes b;
    put_be(b, magic, 4); put_be(b, block_len, 4); put_be(b, strong_len, 4);
    b.reserve(12 + e.size() * (4 + strong_len));
    for (auto &x : e) { put_be(b, x.weak, 4); b.insert(b.end(), x.strong, x.strong + strong_len); }
    return b;
}
RefSig ref_sig(const Bytes &basis, uint32_t magic, size_t bl, size_t sl) {
    RefSig s;
    s.magic = magic; s.block_len = (uint32_t)bl; s.strong_len = (uint32_t)sl;
    for (size_t o = 0; o < basis.size(); o += bl) {
        size_t n = std::min(bl, basis.size() - o);
        SigEntry e;
        e.weak = ref_weak(magic, &basis[o], n);
        ref_strong(magic, &basis[o], n, e.strong);
        s.e.push_back(e);
    }
    return s;
}
bool ref_parse_sig(const Bytes &b, RefSig &s, std::string &err) {
    if (b.size() < 12) { err = "short header"; return false; }
    s.magic = (uint32_t)get_be(&b[0], 4); s.block_len = (uint32_t)get_be(&b[4], 4); s.strong_len = (uint32_t)get_be(&b[8], 4);
    if (!magic_is_sig(s.magic)) { err = "magic"; return false; }
    if (s.strong_len < 1 || s.strong_len > (uint32_t)magic_max_strong(s.magic)) { err = "strong_len"; return false; }
    if (s.block_len < 1 || s.block_len > 0x7fffffff) { err = "block_len"; return false; }
    size_t es = 4 + s.strong_len;
    if ((b.size() - 12) % es) { err = "ragged"; return false; }
    for (size_t o = 12; o < b.size(); o += es) {
        SigEntry e; memset(&e, 0, sizeof e);
        e.weak = (uint32_t)get_be(&b[o], 4); memcpy(e.strong, &b[o + 4], s.strong_len);
        s.e.push_back(e);
    }
    return true;
}

std::string ref_parse_delta(const Bytes &d, RefDelta &r, bool allow_trailing) {
    if (d.size() < 4 || get_be(&d[0], 4) != M_DELTA) return "bad delta magic";
    size_t o = 4;
    static const int W[4] = {1, 2, 4, 8};
    for (;;) {
        if (o >= d.size()) return strf("delta ends at %zu without end command", o);
        Cmd c; c.k = Cmd::END; c.at = o; c.op = d[o];
        uint8_t op = d[o++];
        if (op == 0) {
            r.end_at = o; r.c.push_back(c);
            if (!allow_trailing && o != d.size()) return strf("%zu bytes after end command", d.size() - o);
            return "";
        }
        if (op <= 64) { c.k = Cmd::LIT; c.len = op; }
        else if (op <= 0x44) {
            c.k = Cmd::LIT; c.w1 = W[op - 0x41];
            if (d.size() - o < (size_t)c.w1) return strf("truncated literal header at %zu", c.at);
            c.len = get_be(&d[o], c.w1); o += c.w1;
        } else if (op <= 0x54) {
            c.k = Cmd::COPY; c.w1 = W[(op - 0x45) / 4]; c.w2 = W[(op - 0x45) % 4];
            if (d.size() - o < (size_t)(c.w1 + c.w2)) return strf("truncated copy header at %zu", c.at);
            c.pos = get_be(&d[o], c.w1); o += c.w1; c.len = get_be(&d[o], c.w2); o += c.w2;
            if (c.pos >> 63) return strf("negative copy position at %zu", c.at);
        } else return strf("undefined command %#x at %zu", op, c.at);
        if (c.len == 0 || c.len >> 63) return strf("bad length %llu in command %#x at %zu", (unsigned long long)c.len, op, c.at);
        if (c.k == Cmd::LIT) {
            if (d.size() - o < c.len) return strf("truncated literal data at %zu", c.at);
            c.data = o; o += c.len;
            r.lit_cmds++; r.lit_bytes += c.len; r.lit_hdr += 1 + c.w1;
        } else { r.copy_cmds++; r.copy_bytes += c.len; r.copy_hdr += 1 + c.w1 + c.w2; }
        r.c.push_back(c);
    }
}
std::string ref_apply(const RefDelta &r, const Bytes &d, const Bytes &basis, Bytes &out) {
    for (auto &c : r.c) {
        if (c.k == Cmd::LIT) out.insert(out.end(), d.begin() + c.data, d.begin() + c.data + c.len);
        else if (c.k == Cmd::COPY) {
            if (c.pos > basis.size() || c.len > basis.size() - c.pos)
                return strf("copy [%llu,+%llu) outside basis of %zu", (unsigned long long)c.pos, (unsigned long long)c.len, basis.size());
            out.insert(out.end(), basis.begin() + c.pos, basis.begin() + c.pos + c.len);
        }
    }
    return "";
}

Greedy ref_greedy(const RefSig &s, const Bytes &nw) {
    Greedy g;
    std::unordered_multimap<uint32_t, uint32_t> idx;
    idx.reserve(s.e.size() * 2);
    static Bytes bloom; bloom.assign(1 << 16, 0);
    for (uint32_t i = 0; i < s.e.size(); i++) {
        // keep the first of equal entries
        auto r = idx.equal_range(s.e[i].weak);
        bool dup = false;
        for (auto it = r.first; it != r.second; ++it) if (!memcmp(s.e[it->second].strong, s.e[i].strong, s.strong_len)) dup = true;
        if (!dup) idx.emplace(s.e[i].weak, i);
        bloom[s.e[i].weak * 0x9E3779B1u >> 16] = 1;
    }
    const size_t n = nw.size(), bl = s.block_len;
    const bool rk = magic_is_rk(s.magic);
    size_t pos = 0, lit0 = 0, win = 0;
    uint32_t h = 0, mult = 1, s1 = 0, s2 = 0;
    const uint32_t M = 0x08104225u;
    bool have = false;
    auto flush_lit = [&]() { if (pos > lit0) { g.ops.push_back({false, lit0, pos - lit0, 0}); g.lit_bytes += pos - lit0; } };
    while (pos < n) {
        size_t want = std::min(bl, n - pos);
        if (!have) {
            h = 1; mult = 1; s1 = s2 = 0; win = want;
            for (size_t i = 0; i < win; i++) { h = h * M + nw[pos + i]; mult *= M; s1 += nw[pos + i] + 31u; s2 += s1; }
            have = true;
        }
        uint32_t w = rk ? h : ((s2 << 16) | (s1 & 0xffff));
        int64_t hit = -1;
        if (bloom[w * 0x9E3779B1u >> 16]) {
            auto r = idx.equal_range(w);
            if (r.first != r.second) {
                g.weak_hits++;
                uint8_t st[32];
                ref_strong(s.magic, &nw[pos], win, st);
                for (auto it = r.first; it != r.second; ++it)
                    if (!memcmp(s.e[it->second].strong, st, s.strong_len)) { if (hit < 0 || it->second < hit) hit = it->second; }
                if (hit < 0) g.false_weak++;
            }
        }
        if (hit >= 0) {
            flush_lit();
            g.ops.push_back({true, pos, win, (uint32_t)hit});
            g.copy_bytes += win;
            pos += win; lit0 = pos; have = false;
        } else {
            // slide: drop nw[pos]; add nw[pos+win] if there is one
            uint8_t out = nw[pos];
            if (pos + win < n) {
                uint8_t in = nw[pos + win];
                // h = seed*M^win + sum; recompute relative to the seed term
                h = (h - mult - out * (mult * 0x98f009adu)) * M + mult * 1u + in;
                s1 += in - out; s2 += s1 - (uint32_t)win * (out + 31u);
            } else {
                mult *= 0x98f009adu;
                h = h - mult * M - out * mult + mult;
                s2 -= (uint32_t)win * (out + 31u); s1 -= out + 31u;
                win--;
                if (!win) have = false;
            }
            pos++;
        }
    }
    flush_lit();
    return g;
}
