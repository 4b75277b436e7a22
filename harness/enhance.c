/* C18: spectral amplitude enhancement, and the hand-over of the energy before enhancement. */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbe_adaptive.h"
#include "parms.h"
#include <math.h>
static mbe_parms in_cur; static int in_L;
#define VF_INPUTS(X) X(mbe_parms, in_cur) X(int, in_L)
static int vf_pre(void) {
    int ok = in_cur.L >= 0 && in_cur.L <= 56;
#ifdef VF_NATIVE
    for (int l = 1; l <= in_cur.L; l++) ok &= in_cur.Ml[l] >= 0.0f && in_cur.Ml[l] < 1e6f && (in_cur.Ml[l] == 0.0f || in_cur.Ml[l] > 1e-3f);
    ok &= in_cur.w0 == 0.0f || (in_cur.w0 > 0.02f && in_cur.w0 < 0.35f);
#endif
    return ok;
}
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur);
    int k = (int)(vf_rnd() & 7);
    float top = k == 0 ? 3000.0f : k < 3 ? 1.0f : 60.0f;
    for (int l = 0; l < 57; l++) in_cur.Ml[l] = (vf_rnd() & 3) ? vf_rndf(0.01f, top) : vf_rndf(0.01f, 0.05f * top);
    if (k == 4) for (int l = 0; l < 57; l++) if (vf_rnd() & 1) in_cur.Ml[l] = 0.0f;
    if (k == 5 && (vf_rnd() & 1)) for (int l = 0; l < 57; l++) in_cur.Ml[l] = 0.0f;
    if (!(vf_rnd() & 15)) in_cur.w0 = 0.0f;
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) { in_L = vf_task(0, 0, 56); in_cur.L = in_L; }
/* sum of L values, in the summation order of the build: one by one, or four lanes and a tail */
static float spec_sum(const float* v, int L) {
    float s = 0.0f; int l = 1;
#ifdef TU_MBELIB_ENABLE_SIMD
    if (L >= 4) {
        float a = 0.0f, b = 0.0f, c = 0.0f, d = 0.0f;
        for (; l + 3 <= L; l += 4) { a += v[l]; b += v[l + 1]; c += v[l + 2]; d += v[l + 3]; }
        s = (a + b) + (c + d);
    }
#endif
    for (; l <= L; l++) s += v[l];
    return s;
}
static float spec_enhance(mbe_parms* m) { /* returns the energy before enhancement */
    int L = in_L; float w0 = m->w0, cs[57], t[57], r0, r1, a, b, e, cw = cosf(w0), sw = sinf(w0), c = 1.0f, s = 0.0f;
    for (int l = 1; l <= L; l++) { float n = c * cw - s * sw; s = s * cw + c * sw; c = n; cs[l] = c; }
    for (int l = 1; l <= L; l++) t[l] = m->Ml[l] * m->Ml[l];
    r0 = spec_sum(t, L);
    for (int l = 1; l <= L; l++) t[l] = t[l] * cs[l];
    r1 = spec_sum(t, L);
    if (w0 == 0.0f || r0 == 0.0f) return r0;
    a = r1 / r0; b = a * a;
    for (int l = L / 8 + 1; l <= L; l++) {
        float M = m->Ml[l], w;
        if (M == 0.0f) continue;
        w = sqrtf(M) * sqrtf(sqrtf(0.96f * (float)M_PI * ((1.0f + b) - 2.0f * a * cs[l]) / (w0 * r0 * (1.0f - b))));
        m->Ml[l] = (w > 1.2f ? 1.2f : w < 0.5f ? 0.5f : w) * M;
    }
    for (int l = 1; l <= L; l++) t[l] = m->Ml[l] * m->Ml[l];
    e = spec_sum(t, L);
    e = e == 0.0f ? 1.0f : sqrtf(r0 / e);
    for (int l = 1; l <= L; l++) m->Ml[l] = e * m->Ml[l];
    return r0;
}
static void vf_call(void) {
    static mbe_parms c, s, p; int ok; float r0, e;
#ifdef VF_SYM
    vf_push(12);
#endif
    c = in_cur; s = in_cur; p = in_cur; p.localEnergy = 75000.0f;
    mbe_spectralAmpEnhance(&c);
    r0 = spec_enhance(&s);
    VF_ASSUME(r0 >= 0.0f)   /* precondition: the amplitudes are numbers, so the sum of their squares is one and not negative */
    ok = 1; for (int l = 0; l < 57; l++) ok &= VF_SAMEF(c.Ml[l], s.Ml[l]);
    VF_CHK(ok, "amplitudes weighted, clipped and rescaled to the same energy")
    VF_CHK(vf_same_all(&c, &s), "nothing but the amplitudes changes")
    mbe_applyAdaptiveSmoothing(&c, &p);
    e = 0.95f * 75000.0f + 0.05f * r0;
    if (e < 10000.0f) e = 10000.0f;
    VF_CHK(VF_SAMEF(c.localEnergy, e), "energy before enhancement reaches this frame's local-energy tracking")
}
#include "vf_main.h"
