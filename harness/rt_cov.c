/* Edge-counting runtime for the fuel bound (linked only into variants whose
 * library is built with -fsanitize-coverage=trace-pc-guard). */
#include <stdint.h>
extern uint64_t g_fuel;
extern void vh_fuel_out(void);
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; if (g_fuel-- == 0) vh_fuel_out(); }
/* Bytes the library moves with the memory functions (linked with --wrap). */
#include <stddef.h>
extern uint64_t g_membytes;
void *__real___asan_memcpy(void *, const void *, size_t);
void *__real___asan_memmove(void *, const void *, size_t);
void *__real___asan_memset(void *, int, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) { g_membytes += n; return __real___asan_memcpy(d, s, n); }
void *__wrap___asan_memmove(void *d, const void *s, size_t n) { g_membytes += n; return __real___asan_memmove(d, s, n); }
void *__wrap___asan_memset(void *d, int c, size_t n) { g_membytes += n; return __real___asan_memset(d, c, n); }
