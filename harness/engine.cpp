#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unordered_map>
#include <pthread.h>

std::vector<uint64_t> g_dict, g_dict_new;
bool g_thorough = false;
const char *g_rdiff = nullptr;
std::string g_scratch;

std::vector<Prop> &props() { static std::vector<Prop> v; return v; }

// messages quote library output, which can be any bytes: keep them readable text
std::string printable(const char *p) {
    std::string r;
    for (; *p; p++) {
        unsigned char ch = (unsigned char)*p;
        if (ch == '\n' || (ch >= 32 && ch < 127)) r += (char)ch;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    }
    return r;
}
void fail(const char *fmt, ...) {
    char buf[4096];
    va_list va; va_start(va, fmt); vsnprintf(buf, sizeof buf, fmt, va); va_end(va);
    throw Failure{printable(buf)};
}
std::string strf(const char *fmt, ...) {
    char buf[4096];
    va_list va; va_start(va, fmt); vsnprintf(buf, sizeof buf, fmt, va); va_end(va);
    return buf;
}
void Ctx::describe(const char *fmt, ...) {
    char buf[4096];
    va_list va; va_start(va, fmt); vsnprintf(buf, sizeof buf, fmt, va); va_end(va);
    if (desc.size() < 3000) { if (!desc.empty()) desc += "; "; desc += printable(buf); }
}
std::string hexs(const uint8_t *p, size_t n, size_t max) {
    std::string s;
    char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", p[i]); s += b; }
    if (n > max) s += strf("...(%zu)", n);
    return s;
}

uint64_t *g_mirror = nullptr;
volatile uint64_t *g_mirror_n = nullptr;

static int width_of(uint64_t range) {
    if (range <= 0xff) return 1;
    if (range <= 0xffff) return 2;
    if (range <= 0xffffffffull) return 4;
    return 8;
}

uint64_t Src::draw(uint64_t lo, uint64_t hi) {
    if (hi < lo) hi = lo;
    uint64_t range = hi - lo, off = 0;
    switch (mode) {
    case RANDOM: {
        uint64_t r = rng.next();
        off = range == UINT64_MAX ? r : r % (range + 1);
        break;
    }
    case REPLAY:
        if (pos < rep.size()) off = rep[pos++];
        if (off > range) off = range;
        break;
    case BYTES: {
        int w = width_of(range);
        uint64_t v = 0;
        for (int i = 0; i < w; i++) v |= (uint64_t)(pos < len ? data[pos++] : 0) << (8 * i);
        off = range == UINT64_MAX ? v : v % (range + 1);
        break;
    }
    }
    if (g_mirror && rec.size() < (1u << 20)) { g_mirror[rec.size()] = off; *g_mirror_n = rec.size() + 1; }
    rec.push_back(off);
    recrange.push_back(range);
    return lo + off;
}

Bytes encode_bytes(const std::vector<uint64_t> &rec, const std::vector<uint64_t> &range) {
    Bytes b;
    for (size_t i = 0; i < rec.size(); i++) {
        int w = width_of(range[i]);
        for (int k = 0; k < w; k++) b.push_back((uint8_t)(rec[i] >> (8 * k)));
    }
    return b;
}

unsigned Src::weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0;
    for (unsigned x : w) tot += x;
    uint64_t v = draw(0, tot - 1);
    unsigned i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return i - 1;
}

// A value near v, kept inside [lo,hi].
static uint64_t clampd(uint64_t v, int64_t d, uint64_t lo, uint64_t hi) {
    uint64_t r = v + (uint64_t)d;
    if (d < 0 && r > v) r = lo;
    if (d > 0 && r < v) r = hi;
    return r < lo ? lo : r > hi ? hi : r;
}

uint64_t Src::big(uint64_t lo, uint64_t hi) {
    switch (weighted({3, 3, 2, 2, 2})) {
    case 0: return draw(lo, hi);
    case 1: {                  // log-uniform
        int k = (int)draw(0, 63);
        uint64_t m = k == 63 ? UINT64_MAX : ((2ull << k) - 1);
        uint64_t v = draw(0, m);
        return v < lo ? lo : v > hi ? lo + v % (hi - lo + 1 ? hi - lo + 1 : UINT64_MAX) : v;
    }
    case 2: {                  // power of two neighbourhood
        uint64_t v = 1ull << draw(0, 63);
        int64_t d = (int64_t)draw(0, 4) - 2;
        return clampd(v, d, lo, hi);
    }
    case 3: {                  // ends
        uint64_t d = draw(0, 3);
        if (d > hi - lo) d = hi - lo;
        return flip() ? hi - d : lo + d;
    }
    default: {                 // dictionary
        const std::vector<uint64_t> &d = (!g_dict_new.empty() && draw(0, 1)) ? g_dict_new : g_dict;
        if (d.empty()) return draw(lo, hi);
        uint64_t v = d[draw(0, d.size() - 1)];
        int64_t k = (int64_t)draw(0, 4) - 2;
        return clampd(v, k, lo, hi);
    }
    }
}

uint64_t Src::size(uint64_t lo, uint64_t hi) {
    switch (weighted({8, 4, 3, 2, 3})) {
    case 0: {                  // log-uniform within the range
        uint64_t r = hi - lo;
        int bits = 0;
        while (bits < 63 && (r >> bits)) bits++;
        int k = (int)draw(0, bits);
        uint64_t m = k >= 64 ? UINT64_MAX : ((1ull << k) - 1);
        if (m > r) m = r;
        return lo + draw(0, m);
    }
    case 1: return lo + draw(0, std::min<uint64_t>(hi - lo, 20));
    case 2: {
        int bits = 0;
        while (bits < 63 && (hi >> (bits + 1))) bits++;
        uint64_t v = 1ull << draw(0, bits);
        int64_t d = (int64_t)draw(0, 4) - 2;
        return clampd(v, d, lo, hi);
    }
    case 3: return draw(lo, hi);
    default: {
        const std::vector<uint64_t> &d = (!g_dict_new.empty() && draw(0, 1)) ? g_dict_new : g_dict;
        if (d.empty()) return draw(lo, hi);
        uint64_t v = d[draw(0, d.size() - 1)];
        int64_t k = (int64_t)draw(0, 4) - 2;
        if (v > hi) { uint64_t n = hi - lo + 1; v = n ? lo + v % n : v; }
        return clampd(v, k, lo, hi);
    }
    }
}

void load_dict(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) return;
    char kind; unsigned long long v;
    while (fscanf(f, " %c %llu", &kind, &v) == 2) {
        g_dict.push_back(v);
        if (kind == 'n') g_dict_new.push_back(v);
    }
    fclose(f);
}

// ---------------------------------------------------------------- fuel
extern "C" { uint64_t g_fuel = UINT64_MAX, g_membytes = 0; }
void fuel_set(uint64_t e) { g_fuel = e; }
uint64_t lib_work() { return (UINT64_MAX - g_fuel) + g_membytes / 8; }
bool lib_work_available() { return !strcmp(g_variant, "san"); }

// ---------------------------------------------------------------- heap
// With a sanitizer runtime we get malloc/free hooks; library allocations are
// those made while a LibScope is active on this thread.
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));

static __thread int t_inlib = 0;
static bool s_hooks = false;
namespace {
struct Slot { const volatile void *p; size_t n; };
// simple open-addressing table, no allocation
const size_t NS = 1 << 16;
Slot tab[NS];
size_t live_n, live_b, peak_b; uint64_t total_b;
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
size_t h(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
void on_malloc(const volatile void *p, size_t n) {
    if (!t_inlib || !p) return;
    pthread_mutex_lock(&mu);
    total_b += n;
    if (live_n < NS / 2) {
        size_t i = h(p) & (NS - 1);
        while (tab[i].p && tab[i].p != p) i = (i + 1) & (NS - 1);
        if (!tab[i].p) { live_n++; live_b += n; } else live_b += n - tab[i].n;
        tab[i].p = p; tab[i].n = n;
        if (live_b > peak_b) peak_b = live_b;
    }
    pthread_mutex_unlock(&mu);
}
void on_free(const volatile void *p) {
    if (!p || !live_n) return;
    pthread_mutex_lock(&mu);
    size_t i = h(p) & (NS - 1);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (NS - 1);
    if (tab[i].p) {
        live_n--; live_b -= tab[i].n;
        tab[i].p = nullptr;
        size_t j = i;          // backward-shift deletion
        for (;;) {
            j = (j + 1) & (NS - 1);
            if (!tab[j].p) break;
            size_t k = h(tab[j].p) & (NS - 1);
            if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
            tab[i] = tab[j]; tab[j].p = nullptr; i = j;
        }
    }
    pthread_mutex_unlock(&mu);
}
}
bool lib_in() { return t_inlib > 0; }
void (*g_scope_hook)();
LibScope::LibScope() { if (g_scope_hook) g_scope_hook(); t_inlib++; }
LibScope::~LibScope() { t_inlib--; }
static __thread int t_saved[16]; static __thread int t_sp = 0;
OutScope::OutScope() { t_saved[t_sp++ & 15] = t_inlib; t_inlib = 0; }
OutScope::~OutScope() { t_inlib = t_saved[--t_sp & 15]; }
bool lib_heap_available() { return s_hooks; }
size_t lib_live_blocks() { return live_n; }
size_t lib_live_bytes() { return live_b; }
size_t lib_peak_bytes() { return peak_b; }
uint64_t lib_total_bytes() { return total_b; }
void lib_heap_reset() {
    if (!s_hooks) return;
    pthread_mutex_lock(&mu);
    if (live_n) memset(tab, 0, sizeof tab);
    live_n = live_b = peak_b = 0;
    pthread_mutex_unlock(&mu);
}
void heap_hooks_install() {
    // not under ThreadSanitizer: the hooks' lock would order the threads
    if (__sanitizer_install_malloc_and_free_hooks && strcmp(g_variant, "tsan"))
        s_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0;
}
