/* C23: the FFT library computes the 256-point real transform. FN 1 forward 2 inverse 3 set-up when memory runs out 4 aligned blocks.
 * Task (k, b): allocation k fails (FN 3); malloc returns addresses that are 16*b modulo 64 */
#include "vf.h"
#include "pffft.h"
#include <math.h>
#if FN >= 3
#include "oom.h"
#endif
#define PI 3.14159265358979323846
typedef struct { float v[256]; } vf_f256;
static vf_f256 in_x; static int in_k, in_b;
#define VF_INPUTS(X) X(vf_f256, in_x) X(int, in_k) X(int, in_b)
static int vf_pre(void) { return 1; }
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    for (int i = 0; i < 256; i++) in_x.v[i] = vf_rndf(-1.0f, 1.0f);
    if (vf_rnd() & 1) { int k = (int)(vf_rnd() & 255); for (int i = 0; i < 256; i++) in_x.v[i] = i == k ? 1.0f : 0.0f; }
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) { 
    in_b = vf_task(1, 0, 3);
    in_k = vf_task(0, 0, 4);
#ifdef VF_SYM
    vf_heapbase(16 * in_b);
#endif
}
#ifdef VF_SYM
static int n_alloc, fail_at, n_fail, n_bad; static void* live[8];
static void* vf_get(unsigned long n) {
    int k = n_alloc++;
    if (k >= 8) { n_bad++; return 0; }
    live[k] = 0;
    if (FN >= 3 && k + 1 == fail_at) { n_fail++; return 0; }
    return live[k] = vf_new(n);
}
static void vf_put(void* p) {
    int hit = 0;
    if (!p) return;
    for (int i = 0; i < 8; i++) if (live[i] == p) { live[i] = 0; hit++; }
    if (hit != 1) n_bad++;
}
void* vf_stub_malloc(unsigned long n) { return vf_get(n); }
void vf_stub_free(void* p) { vf_put(p); }
void vf_stub___assert_fail(const char* a, const char* f, unsigned int l, const char* fn) { VF_CHK(0, "internal assertion of the FFT library") (void)a; (void)f; (void)l; (void)fn; }
#endif
static double cs(int k, int n) { return cos(2 * PI * (double)(k * n & 255) / 256); }
static double sn(int k, int n) { return sin(2 * PI * (double)(k * n & 255) / 256); }
/* entry (row j of the output, column n of the input) of the matrix of the transform; spectrum layout: X0, X128, Re X1, Im X1, ... */
static double entry(int j, int n) {
#if FN == 1
    return j == 0 ? 1.0 : j == 1 ? (n & 1 ? -1.0 : 1.0) : j & 1 ? -sn(j / 2, n) : cs(j / 2, n);
#else
    return n == 0 ? 1.0 : n == 1 ? (j & 1 ? -1.0 : 1.0) : n & 1 ? -2 * sn(n / 2, j) : 2 * cs(n / 2, j);
#endif
}
static void vf_call(void) {
    PFFFT_Setup* s; int ok;
#if FN == 3
#ifdef VF_SYM
    fail_at = in_k;
    s = pffft_new_setup(256, PFFFT_REAL);
    VF_CHK((s == 0) == (n_fail > 0), "a set-up exactly when memory is available")
    if (s) pffft_destroy_setup(s);
    ok = n_bad == 0; for (int i = 0; i < 8; i++) ok &= live[i] == 0;
    VF_CHK(ok, "every block freed exactly once")
#else
    oom_begin(in_k, 0, in_b);
    s = pffft_new_setup(256, PFFFT_REAL);
    VF_CHK((s == 0) == (oom_failed > 0), "a set-up exactly when memory is available")
    if (s) pffft_destroy_setup(s);
    ok = oom_bad == 0 && oom_blocks() == 0;
    oom_end();
    VF_CHK(ok, "every block freed exactly once")
#endif
#elif FN == 4
#ifdef VF_SYM
    {
        char* p = pffft_aligned_malloc(1000);
        VF_CHK(((unsigned long)p & 63) == 0, "block aligned to 64 bytes")
        for (int i = 0; i < 1000; i++) p[i] = 1;     /* inside the block obtained, clear of the allocator's bookkeeping */
        pffft_aligned_free(p); pffft_aligned_free(0);
        ok = n_bad == 0; for (int i = 0; i < 8; i++) ok &= live[i] == 0;
        VF_CHK(ok, "every block freed exactly once")
        fail_at = 2; p = pffft_aligned_malloc(1000);
        VF_CHK(p == 0, "no block when memory runs out")
    }
#else
    {
        char* p; oom_begin(0, 0, in_b);
        p = pffft_aligned_malloc(1000);
        VF_CHK(p != 0 && ((unsigned long)p & 63) == 0, "block aligned to 64 bytes")
        if (p) for (int i = 0; i < 1000; i++) p[i] = 1;
        pffft_aligned_free(p); pffft_aligned_free(0);
        ok = oom_bad == 0 && oom_blocks() == 0;
        oom_all = 1; p = pffft_aligned_malloc(1000); oom_end();
        VF_CHK(ok, "every block freed exactly once")
        VF_CHK(p == 0, "no block when memory runs out")
    }
#endif
    (void)s; (void)ok;
#else
#ifdef VF_SYM
    float *x = pffft_aligned_malloc(1024), *y = pffft_aligned_malloc(1024), *w = pffft_aligned_malloc(1024);
#else
    static float x[256] __attribute__((aligned(64))), y[256] __attribute__((aligned(64))), w[256] __attribute__((aligned(64)));
#endif
    s = pffft_new_setup(256, PFFFT_REAL);
    VF_CHK(s != 0, "set-up available")
    if (!s) return;
    for (int i = 0; i < 256; i++) x[i] = in_x.v[i];
    pffft_transform_ordered(s, x, y, w, FN == 1 ? PFFFT_FORWARD : PFFFT_BACKWARD);
    ok = 1; for (int i = 0; i < 256; i++) ok &= VF_SAMEF(x[i], in_x.v[i]);
    VF_CHK(ok, "input kept")
#ifdef VF_SYM
    ok = 1;
    for (int j = 0; j < 256; j++) {
        for (int n = 0; n < 256; n++) {
            double d = vf_coef(y[j], in_x.v[n]) - entry(j, n);
            ok &= d <= 2e-6 && d >= -2e-6;
        }
        ok &= vf_roundoff(y[j]) <= 4e-4;
    }
    VF_CHK(ok, "matrix of the transform")
    pffft_destroy_setup(s);
#else
    ok = 1;
    for (int j = 0; j < 256; j++) {
        double t = 0.0;
        for (int n = 0; n < 256; n++) t += entry(j, n) * in_x.v[n];
        t -= y[j]; ok &= t <= 1e-3 && t >= -1e-3;
    }
    VF_CHK(ok, "matrix of the transform")
    pffft_destroy_setup(s);
#endif
#endif
}
#include "vf_main.h"
