// Choice-sequence property engine: every random decision of a case is a draw
// from a Src; a case is the list of its draws, so it can be recorded, shrunk,
// replayed and fed from a coverage-guided fuzzer's bytes.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef std::vector<uint8_t> Bytes;

struct Failure { std::string msg; };
struct Discard { };            // case outside the property's domain
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

struct Rng {                   // splitmix64 / xorshift
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

class Src {
  public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Src(uint64_t seed) : mode(RANDOM), rng(seed) {}
    Src(const std::vector<uint64_t> &r) : mode(REPLAY), rng(0), rep(r) {}
    Src(const uint8_t *d, size_t n) : mode(BYTES), rng(0), data(d), len(n) {}
    // uniform in [lo,hi]
    uint64_t draw(uint64_t lo, uint64_t hi);
    bool chance(unsigned num, unsigned den) { return draw(0, den - 1) >= den - num; }
    bool flip() { return draw(0, 1) == 1; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(0, v.size() - 1)]; }
    // index by weights
    unsigned weighted(std::initializer_list<unsigned> w);
    // boundary- and dictionary-biased value in [lo,hi]
    uint64_t big(uint64_t lo, uint64_t hi);
    // size-like value: mostly small, log-distributed, with boundary/dictionary bias
    uint64_t size(uint64_t lo, uint64_t hi);
    std::vector<uint64_t> rec; // offsets from lo
    std::vector<uint64_t> recrange;
    bool exhausted() const { return mode == BYTES && pos >= len; }
    Mode mode;
  private:
    Rng rng;
    std::vector<uint64_t> rep;
    const uint8_t *data = nullptr;
    size_t len = 0, pos = 0;
};

// Encode a recorded case as fuzzer bytes (inverse of BYTES decoding).
Bytes encode_bytes(const std::vector<uint64_t> &rec, const std::vector<uint64_t> &range);

// Integer constants of the code under test, used only to bias generation.
extern std::vector<uint64_t> g_dict;      // all compare constants
extern std::vector<uint64_t> g_dict_new;  // those not in the reference list
void load_dict(const char *path);

struct Ctx {
    Src &s;
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::string desc;           // human-readable sample
    uint64_t cases = 1;         // evaluations inside this case
    bool thorough;
    explicit Ctx(Src &src, bool th) : s(src), thorough(th) {}
    void label(const char *l) { labels.push_back(l); }
    void describe(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*PropFn)(Ctx &);
struct Prop { const char *id; const char *sub; PropFn fn; };
std::vector<Prop> &props();
struct Reg { Reg(const char *id, const char *sub, PropFn fn) { props().push_back({id, sub, fn}); } };
#define PROPERTY(ID, SUB) \
    static void prop_##ID##_##SUB(Ctx &c); \
    static Reg reg_##ID##_##SUB(#ID, #SUB, prop_##ID##_##SUB); \
    static void prop_##ID##_##SUB(Ctx &c)

// Run-time facts about this binary
extern bool g_san;      // memory-checked library
extern bool g_dbg;      // asserts + trace compiled in
extern bool g_thorough;
extern const char *g_rdiff; // path of rdiff built from the same tree
extern std::string g_scratch; // private scratch directory
extern const char *g_variant;

// Fuel: bounds the amount of library code a single case may execute.
void fuel_set(uint64_t edges);
extern "C" uint64_t g_fuel;
// work done by the library so far: edges executed plus memory moved, 8 bytes for one
uint64_t lib_work();
bool lib_work_available();

// heap accounting of library allocations
struct LibScope { LibScope(); ~LibScope(); };
bool lib_in();                 // the running thread is inside the library
extern void (*g_scope_hook)(); // called just before the library is entered
struct OutScope { OutScope(); ~OutScope(); };
size_t lib_live_blocks();
size_t lib_live_bytes();
size_t lib_peak_bytes();
uint64_t lib_total_bytes();   // everything allocated since the process started
void lib_heap_reset();
bool lib_heap_available();

std::string printable(const char *p);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexs(const uint8_t *p, size_t n, size_t max = 48);
inline std::string hexs(const Bytes &b, size_t max = 48) { return hexs(b.data(), b.size(), max); }
