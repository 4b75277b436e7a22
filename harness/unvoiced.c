/* C20: unvoiced synthesis.
 * FN 1 one frame, for every fundamental a decoder produces   2 stand-alone overlap-add   3 the variant generating its own noise
 * FN 4 plan allocation when memory runs out */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbe_unvoiced_fft.h"
#include "pffft.h"
#include "parms.h"
#include <math.h>
#if FN == 4
#include "oom.h"
#endif
#include "tables/spec_ambe3600x2450.h"
#include "tables/spec_ambe3600x2400.h"
#define PI 3.14159265358979323846
typedef struct { float v[256]; } vf_f256;
static mbe_parms in_cur, in_prev; static vf_f256 in_noise, in_uw; static vf_f160 in_out; static int in_k, in_i;
#define VF_INPUTS(X) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(vf_f256, in_noise) X(vf_f256, in_uw) X(vf_f160, in_out) X(int, in_k) X(int, in_i)
static int vf_pre(void) { return 1; }
static void vf_setup(void) {}
/* every (fundamental, harmonic count) the decoders and the start-up states produce; 0 if the index is unused */
static int spec_pitch(int k, int i, float* w0, int* L) {
    if (k == 0 && i < 120) { *w0 = S_AmbeW0table[i] * 2.0f * (float)PI; *L = (int)S_AmbeLtable[i]; return 1; }
    if (k == 1 && i < 126) { *w0 = exp2f(-4.311767578125f - 2.1336e-2f * ((float)i + 0.5f)) * 2.0f * (float)PI; *L = (int)S_AmbePlusLtable[i]; return 1; }
    if (k == 2 && i < 208) { *w0 = (float)(4 * PI / (i + 39.5)); *L = (int)(0.9254 * (int)(PI / *w0 + 0.25)); return 1; }
    if (k == 3 && i == 0) { *w0 = (float)(4 * PI / 173.5); *L = 39; return 1; }              /* IMBE start-up */
    if (k == 3 && (i == 1 || i == 2)) { *w0 = (float)(PI / 32 * 2 * PI); *L = i == 1 ? 15 : 14; return 1; } /* AMBE start-up and silence */
    if (k == 3 && (i == 3 || i == 4)) { *w0 = 0.0f; *L = i == 3 ? 9 : 56; return 1; }         /* erasure model */
    return 0;
}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev);
    for (int i = 0; i < 256; i++) in_noise.v[i] = (float)(vf_rnd() % 53125);
    for (int i = 0; i < 256; i++) in_uw.v[i] = vf_rndf(-3000.0f, 3000.0f);
    for (int i = 0; i < 160; i++) in_out.v[i] = vf_rndf(-3000.0f, 3000.0f);
    if (!(vf_rnd() & 7)) for (int i = 0; i < 256; i++) in_noise.v[i] = 0.0f;
    if (!(vf_rnd() & 7)) { int v = (int)(vf_rnd() & 1); for (int l = 0; l < 57; l++) in_cur.Vl[l] = v; }
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) {
#if FN == 4
    in_k = vf_task(0, 0, 9);
#else
    in_k = vf_task(0, 0, 3);
#endif
    in_i = vf_task(1, 0, in_k == 3 ? 4 : in_k == 2 ? 207 : in_k == 1 ? 125 : 119);
    spec_pitch(in_k, in_i, &in_cur.w0, &in_cur.L);
#ifdef VF_SYM
    vf_push(8);
#endif
}
/* ---- contracts of the FFT library (symbolic runs): transforms are observed and answer anything; memory is fresh */
#ifdef VF_SYM
static vf_f256 o_fft, o_ifft, r_fin, r_bin; static int n_f, n_b, n_bad, n_alloc, n_free, fail_at, n_fail; static char setup_obj; static void* live[16];
#define in_fail in_k
void* vf_stub_pffft_aligned_malloc(unsigned long n) {
    int k = n_alloc++;
    if (k >= 16) { n_bad++; return 0; }
    live[k] = 0;
    if (FN == 4 && k + 1 == fail_at) { n_fail++; return 0; }
    live[k] = vf_new(n);
    return live[k];
}
void vf_stub_pffft_aligned_free(void* p) {
    int hit = 0;
    if (!p) return;
    for (int i = 0; i < 16; i++) if (live[i] == p) { live[i] = 0; hit++; }
    if (hit != 1) n_bad++;
    n_free++;
}
static int n_setup, n_unset;
PFFFT_Setup* vf_stub_pffft_new_setup(int N, pffft_transform_t t) {
    if (N != 256 || t != PFFFT_REAL) n_bad++;
    if (FN == 4 && fail_at == 9) { n_fail++; return 0; }
    n_setup++;
    return (PFFFT_Setup*)&setup_obj;
}
void vf_stub_pffft_destroy_setup(PFFFT_Setup* s) { if (s != (PFFFT_Setup*)&setup_obj) n_bad++; n_unset++; }
void vf_stub_pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out, float* work, pffft_direction_t d) {
    if (s != (PFFFT_Setup*)&setup_obj || !work) n_bad++;
    if (d == PFFFT_FORWARD) { n_f++; for (int i = 0; i < 256; i++) r_fin.v[i] = in[i]; for (int i = 0; i < 256; i++) out[i] = o_fft.v[i]; }
    else { n_b++; for (int i = 0; i < 256; i++) r_bin.v[i] = in[i]; for (int i = 0; i < 256; i++) out[i] = o_ifft.v[i]; }
    for (int i = 0; i < 256; i++) work[i] = o_fft.v[0];
}
#if FN == 3
static float r_n0; static vf_f256 g_noise; static int n_gen, n_syn; static mbe_parms r_cur; static float* r_out;
void vf_stub_mbe_generate_noise_with_overlap(float* b, float* s, float* o) { n_gen++; r_n0 = *s; *s = 5.0f; o[7] = 3.0f; for (int i = 0; i < 256; i++) b[i] = g_noise.v[i]; }
void vf_stub_mbe_synthesizeUnvoicedFFTWithNoise(float* out, mbe_parms* c, const mbe_parms* p, mbe_fft_plan* pl, const float* nz) {
    n_syn++; r_out = out; r_cur = *c; if (p != &in_prev || pl != (mbe_fft_plan*)&setup_obj) n_bad++;
    for (int i = 0; i < 256; i++) if (!VF_SAMEF(nz[i], g_noise.v[i])) n_bad++;
}
#endif
#endif
/* ---- the specification */
static float spec_win(int n) { /* trapezoid: 1 up to 55, down to 0 at 105 */
    int a = n < 0 ? -n : n;
    return a <= 55 ? 1.0f : a < 105 ? (float)((105 - a) / 50.0) : 0.0f;
}
static float spec_power(const float* f, int a, int b) { /* bins a..b-1, in the summation order of the build */
    float s = 0.0f; int i = a;
    if (b <= a) return s;
    if (a == 0) { s += f[0] * f[0]; i = 1; }
#ifdef TU_MBELIB_ENABLE_SIMD
    if (b - i >= 4) {
        float x0 = 0.0f, x1 = 0.0f, x2 = 0.0f, x3 = 0.0f;
        for (; i + 4 <= b; i += 4)
            for (int h = 0; h < 2; h++) { const float* p = f + 2 * i + 4 * h; x0 += p[0] * p[0]; x1 += p[1] * p[1]; x2 += p[2] * p[2]; x3 += p[3] * p[3]; }
        s += (x0 + x1) + (x2 + x3);
    }
#endif
    for (; i < b; i++) s += f[2 * i] * f[2 * i] + f[2 * i + 1] * f[2 * i + 1];
    return s;
}
#ifdef VF_NATIVE
static double tc[256], ts[256];
static void dft_init(void) { if (tc[0] == 0.0) for (int i = 0; i < 256; i++) { tc[i] = cos(2 * PI * i / 256); ts[i] = sin(2 * PI * i / 256); } }
static void dft_f(const float* x, float* f) {
    dft_init();
    for (int k = 0; k <= 128; k++) {
        double r = 0, m = 0;
        for (int n = 0; n < 256; n++) { r += x[n] * tc[k * n & 255]; m -= x[n] * ts[k * n & 255]; }
        if (k == 0) f[0] = (float)r; else if (k == 128) f[1] = (float)r; else { f[2 * k] = (float)r; f[2 * k + 1] = (float)m; }
    }
}
static void dft_b(const float* f, float* x) {
    dft_init();
    for (int n = 0; n < 256; n++) {
        double y = (double)f[0] + (n & 1 ? -(double)f[1] : (double)f[1]);
        for (int k = 1; k < 128; k++) y += 2.0 * (f[2 * k] * tc[k * n & 255] - f[2 * k + 1] * ts[k * n & 255]);
        x[n] = (float)y;
    }
}
static int close_(float a, float b) { float d = a - b; d = d < 0 ? -d : d; return d <= 0.05f + 1e-3f * ((a < 0 ? -a : a) + (b < 0 ? -b : b)) || (a != a && b != b); }
#endif
/* spectrum of the noise -> spectrum of the unvoiced signal */
static void spec_shape(const mbe_parms* m, int L, float w0, const float* f, float* g) {
    float mult = (256.0f / (2.0f * (float)PI)) * w0, sc[129];
    for (int k = 0; k <= 128; k++) sc[k] = 0.0f;
    for (int l = 1; l <= L; l++) {
        int a = (int)ceilf(((float)l - 0.5f) * mult), b = (int)ceilf(((float)l + 0.5f) * mult);
        float p, s;
        if (b > 128) b = 128;
        if (b <= a) continue;
        p = spec_power(f, a, b);
        s = 146.17696f * m->Ml[l] / sqrtf(p / (float)(b - a));
        for (int k = a; k < b; k++) sc[k] = m->Vl[l] == 0 ? p > 1e-10f ? s : 0.0f : 0.0f;
    }
    g[0] = f[0] * sc[0]; g[1] = f[1] * sc[128];
    for (int k = 1; k < 128; k++) { g[2 * k] = f[2 * k] * sc[k]; g[2 * k + 1] = f[2 * k + 1] * sc[k]; }
}
static float spec_ola(int n, const float* pu, const float* cu) {
    float a = spec_win(n), b = spec_win(n - 160), x = n + 128 < 256 ? pu[n + 128] : 0.0f, y = n >= 32 ? cu[n - 32] : 0.0f;
    return (a * x + b * y) / (a * a + b * b);
}
static void vf_call(void) {
    static mbe_parms c, p; static vf_f160 out; static vf_f256 x, f, g, y; static mbe_fft_plan* plan; int ok, L; float w0;
    c = in_cur; p = in_prev; out = in_out;
#if FN == 1
    if (!spec_pitch(in_k, in_i, &w0, &L)) return;
    c.w0 = w0; c.L = L;
#ifdef VF_SYM
    vf_sym_obj(&o_fft, sizeof o_fft, 100); vf_sym_obj(&o_ifft, sizeof o_ifft, 101);
    plan = mbe_fft_plan_alloc();
    VF_CHK(plan != 0, "plan available when memory is")
    mbe_synthesizeUnvoicedFFTWithNoise(out.v, &c, &p, plan, in_noise.v);
    VF_CHK(n_f == 1 && n_b == 1 && n_bad == 0, "one forward and one inverse transform of 256 points")
    for (int i = 0; i < 256; i++) x.v[i] = in_noise.v[i] * spec_win(i - 128);
    ok = 1; for (int i = 0; i < 256; i++) ok &= VF_SAMEF(r_fin.v[i], x.v[i]);
    VF_CHK(ok, "forward transform of the windowed noise")
    spec_shape(&in_cur, L, w0, o_fft.v, g.v);
    ok = 1; for (int i = 0; i < 256; i++) ok &= VF_SAMEF(r_bin.v[i], g.v[i]);
    VF_CHK(ok, "unvoiced bands scaled to their amplitude, everything else removed")
    for (int i = 0; i < 256; i++) y.v[i] = o_ifft.v[i] * (1.0f / 256.0f);
#define NEAR VF_SAMEF
    (void)f;
#else
    if (!plan) plan = mbe_fft_plan_alloc();
    mbe_synthesizeUnvoicedFFTWithNoise(out.v, &c, &p, plan, in_noise.v);
    for (int i = 0; i < 256; i++) x.v[i] = in_noise.v[i] * spec_win(i - 128);
    dft_f(x.v, f.v); spec_shape(&in_cur, L, w0, f.v, g.v); dft_b(g.v, y.v);
    for (int i = 0; i < 256; i++) y.v[i] /= 256.0f;
#define NEAR close_
#endif
    ok = 1; for (int n = 0; n < 160; n++) ok &= NEAR(out.v[n], in_out.v[n] + spec_ola(n, in_prev.previousUw, y.v));
    VF_CHK(ok, "overlap-add of the previous and the new frame is added to the output")
    ok = 1; for (int i = 0; i < 256; i++) ok &= NEAR(c.previousUw[i], y.v[i]);
    VF_CHK(ok, "normalised frame kept for the next overlap-add")
    for (int i = 0; i < 256; i++) c.previousUw[i] = in_cur.previousUw[i];
    c.w0 = in_cur.w0; c.L = in_cur.L;
    VF_CHK(vf_same_all(&c, &in_cur) && vf_same_all(&p, &in_prev), "nothing else changes")
#elif FN == 2
    mbe_wola_combine(out.v, in_noise.v, in_uw.v, 160);
    ok = 1; for (int n = 0; n < 160; n++) ok &= VF_SAMEF(out.v[n], in_out.v[n] + spec_ola(n, in_noise.v, in_uw.v));
    VF_CHK(ok, "overlap-add with the synthesis window")
    ok = 1; for (int n = -130; n <= 130; n++) ok &= VF_SAMEF(mbe_synthesisWindow(n), spec_win(n));
    VF_CHK(ok, "window is the symmetric trapezoid, zero outside")
#elif FN == 3
#ifdef VF_SYM
    vf_sym_obj(&g_noise, sizeof g_noise, 102);
    mbe_synthesizeUnvoicedFFT(out.v, &c, &in_prev, (mbe_fft_plan*)&setup_obj);
    VF_CHK(n_gen == 1 && n_syn == 1 && n_bad == 0 && r_out == out.v, "one noise buffer, one synthesis with it")
    VF_CHK(VF_SAMEF(r_n0, in_cur.noiseSeed) && VF_SAMEF(r_cur.noiseSeed, 5.0f) && VF_SAMEF(r_cur.noiseOverlap[7], 3.0f), "noise from this frame's generator state")
    c.noiseSeed = in_cur.noiseSeed; c.noiseOverlap[7] = in_cur.noiseOverlap[7];
    VF_CHK(vf_same_all(&c, &in_cur), "state otherwise unchanged")
#endif
#else
#ifdef VF_SYM
    fail_at = in_fail;    /* the fail_at-th allocation fails; 9: the transform set-up fails; 0 or beyond: none */
    plan = mbe_fft_plan_alloc();
    if (n_fail) { VF_CHK(plan == 0, "no plan when an allocation fails") }
    else { VF_CHK(plan != 0, "plan when memory is available") mbe_fft_plan_free(plan); }
    ok = n_bad == 0; for (int i = 0; i < 16; i++) ok &= live[i] == 0;
    VF_CHK(ok, "every block freed exactly once")
    VF_CHK(n_setup == n_unset, "transform set-up released")
#else
    oom_begin(in_k, 0, in_i & 3);
    plan = mbe_fft_plan_alloc();
    ok = (plan == 0) == (oom_failed > 0);
    VF_CHK(ok, "no plan when an allocation fails")
    mbe_fft_plan_free(plan);
    ok = oom_bad == 0 && oom_blocks() == 0;
    oom_end();
    VF_CHK(ok, "every block freed exactly once")
#endif
#endif
    (void)ok; (void)L; (void)w0; (void)plan; (void)x; (void)f; (void)g; (void)y; (void)p;
}
#include "vf_main.h"
