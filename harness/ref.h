// Independent reference implementations of the documented formats and sums.
#pragma once
#include "engine.h"
enum : uint32_t { M_DELTA = 0x72730236, M_MD4 = 0x72730136, M_BLAKE2 = 0x72730137, M_RK_MD4 = 0x72730146, M_RK_BLAKE2 = 0x72730147 };
inline bool magic_is_rk(uint32_t m) { return m == M_RK_MD4 || m == M_RK_BLAKE2; }
inline bool magic_is_md4(uint32_t m) { return m == M_MD4 || m == M_RK_MD4; }
inline bool magic_is_sig(uint32_t m) { return m == M_MD4 || m == M_BLAKE2 || m == M_RK_MD4 || m == M_RK_BLAKE2; }
inline int magic_max_strong(uint32_t m) { return magic_is_md4(m) ? 16 : 32; }

uint32_t ref_rollsum(const uint8_t *p, size_t n);
uint32_t ref_rk(const uint8_t *p, size_t n);
uint32_t ref_weak(uint32_t magic, const uint8_t *p, size_t n);
struct RefMd4 {
    uint32_t st[4]; uint64_t total; uint8_t buf[64];
    void begin(); void update(const uint8_t *p, size_t n); void result(uint8_t out[16]);
};
void ref_md4(const uint8_t *p, size_t n, uint8_t out[16]);
void ref_blake2b256(const uint8_t *p, size_t n, uint8_t out[32]);
void ref_strong(uint32_t magic, const uint8_t *p, size_t n, uint8_t out[32]);

inline void put_be(Bytes &b, uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
inline uint64_t get_be(const uint8_t *p, int w) { uint64_t v = 0; for (int i = 0; i < w; i++) v = v << 8 | p[i]; return v; }

struct SigEntry { uint32_t weak; uint8_t strong[32]; };
struct RefSig {
    uint32_t magic = 0; uint32_t block_len = 0; uint32_t strong_len = 0;
    std::vector<SigEntry> e;
    Bytes encode() const;
};
RefSig ref_sig(const Bytes &basis, uint32_t magic, size_t bl, size_t sl);
bool ref_parse_sig(const Bytes &b, RefSig &s, std::string &err);

struct Cmd { enum K { LIT, COPY, END } k; uint64_t pos = 0, len = 0; size_t at = 0, data = 0; uint8_t op = 0; int w1 = 0, w2 = 0; };
struct RefDelta { std::vector<Cmd> c; uint64_t lit_cmds = 0, lit_bytes = 0, lit_hdr = 0, copy_cmds = 0, copy_bytes = 0, copy_hdr = 0; size_t end_at = 0; };
// Strict parse of a whole delta; returns empty string when valid.
std::string ref_parse_delta(const Bytes &d, RefDelta &r, bool allow_trailing = false);
// Reconstruct; returns error or empty.
std::string ref_apply(const RefDelta &r, const Bytes &d, const Bytes &basis, Bytes &out);

// Greedy left-to-right matcher over the signature's stored sums.
struct GreedyOp { bool copy; uint64_t new_pos, len; uint32_t block; };
struct Greedy { std::vector<GreedyOp> ops; uint64_t lit_bytes = 0, copy_bytes = 0, weak_hits = 0, false_weak = 0; };
Greedy ref_greedy(const RefSig &s, const Bytes &nw);

inline int min_width(uint64_t v) { return v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffull ? 4 : 8; }
