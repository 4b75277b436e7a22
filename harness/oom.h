/* native runs with memory failures: malloc and free of the code under test pass through here (ld --wrap) */
#ifdef VF_NATIVE
#include <stdlib.h>
const char* __asan_default_options(void) { return "detect_leaks=0"; }
static __thread int oom_on, oom_at, oom_all, oom_n, oom_failed, oom_bad, oom_shift;
static __thread struct { void *p, *real; } oom_live[64];
extern void* __real_malloc(size_t); extern void* __real_calloc(size_t, size_t); extern void __real_free(void*);
void* __wrap_malloc(size_t n) {
    char* r;
    if (!oom_on) return __real_malloc(n);
    oom_n++;
    if (oom_all || oom_n == oom_at) { oom_failed++; return 0; }
    r = __real_malloc(n + 128);
    for (int i = 0; i < 64; i++) if (!oom_live[i].p) {
        oom_live[i].real = r; oom_live[i].p = (void*)((((uintptr_t)r + 63) & ~(uintptr_t)63) + 16 * oom_shift);
        return oom_live[i].p;
    }
    oom_bad++;
    return r;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = oom_on ? __wrap_malloc(a * b) : __real_calloc(a, b); if (oom_on && p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) {
    if (!oom_on || !p) { __real_free(p); return; }
    for (int i = 0; i < 64; i++) if (oom_live[i].p == p) { __real_free(oom_live[i].real); oom_live[i].p = 0; return; }
    oom_bad++;
}
static int oom_blocks(void) { int n = 0; for (int i = 0; i < 64; i++) n += oom_live[i].p != 0; return n; }
static void oom_begin(int at, int all, int shift) { oom_on = 1; oom_at = at; oom_all = all; oom_shift = shift; oom_n = oom_failed = oom_bad = 0; for (int i = 0; i < 64; i++) oom_live[i].p = 0; }
static void oom_end(void) { for (int i = 0; i < 64; i++) if (oom_live[i].p) { __real_free(oom_live[i].real); oom_live[i].p = 0; } oom_on = 0; }
#endif
