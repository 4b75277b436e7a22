/* C17: adaptive smoothing of a frame's parameters, and the error-driven decisions.
 * FN 1 energy handed over by the enhancement of this frame   2 energy handed over for another frame   3 no energy handed over
 * FN 4 the three decisions (smoothing / muting / repeat limit) */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbe_adaptive.h"
#include "parms.h"
#include <math.h>
#include <float.h>
static mbe_parms in_cur, in_prev, in_oth; static float in_rm0; static int in_L;
#define VF_INPUTS(X) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(mbe_parms, in_oth) X(float, in_rm0) X(int, in_L)
static int vf_pre(void) {
    int ok = in_cur.L >= 0 && in_cur.L <= 56 && in_cur.errorRate == in_cur.errorRate && in_prev.localEnergy == in_prev.localEnergy && in_cur.mutingThreshold == in_cur.mutingThreshold && in_rm0 == in_rm0;
    return ok && in_cur.errorCountTotal >= 0 && in_cur.errorCountTotal <= 255;
}
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev); vf_rnd_parms(&in_oth);
    int k = (int)(vf_rnd() & 7);
    in_cur.errorRate = k == 0 ? 0.005f : k == 1 ? 0.0125f : k < 5 ? vf_rndf(0.0f, 0.02f) : k == 5 ? 0.0f : vf_rndf(0.0f, 0.2f);
    if (!(vf_rnd() & 7)) in_cur.mutingThreshold = in_cur.errorRate;
    k = (int)(vf_rnd() & 7);
    if (k < 3) in_prev.localEnergy = k == 0 ? 0.0f : k == 1 ? 10000.0f : vf_rndf(9000.0f, 11000.0f);
    k = (int)(vf_rnd() & 7);
    if (k < 4) in_prev.amplitudeThreshold = k == 0 ? 0 : k == 1 ? (int)vf_rnd() : k == 2 ? 2147483647 - (int)(vf_rnd() % 9000) : (int)(vf_rnd() % 3000);
    float top = (vf_rnd() & 1) ? 100.0f : (vf_rnd() & 1) ? 1000.0f : 8000.0f;
    for (int l = 0; l < 57; l++) in_cur.Ml[l] = vf_rndf(0.0f, top);
    if (!(vf_rnd() & 15)) for (int l = 0; l < 57; l++) in_cur.Ml[l] = 0.0f;
    in_rm0 = (vf_rnd() & 3) ? vf_rndf(0.0f, 400000.0f) : vf_rndf(-1.0f, 1.0f);
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) {
    in_L = vf_task(0, 0, 56); in_cur.L = in_L;
    in_cur.errorCountTotal = vf_sym_range(1, 0, 255);
}
/* JMBE algorithms 111 to 116 */
static void spec_smooth(mbe_parms* c, const mbe_parms* p, int given, float rm0) {
    float e = 0.0f, pe, vm, am = 0.0f;
    int L = in_L, tm;
    if (given) e = rm0;
    else for (int l = 1; l <= L; l++) e += c->Ml[l] * c->Ml[l];
    pe = p->localEnergy < 10000.0f ? 75000.0f : p->localEnergy;
    e = 0.95f * pe + 0.05f * e;
    if (e < 10000.0f) e = 10000.0f;
    c->localEnergy = e;
    if (!(c->errorRate <= 0.005f && c->errorCountTotal <= 4)) {
        float x = sqrtf(sqrtf(sqrtf(e)));
        x = x * x * x;
        if (c->errorRate <= 0.0125f && c->errorCount4 == 0) vm = 45.255f * x / expf(277.26f * c->errorRate);
        else vm = 1.414f * x;
    } else vm = FLT_MAX;
    for (int l = 1; l <= L; l++) if (c->Ml[l] > vm) c->Vl[l] = 1;
    for (int l = 1; l <= L; l++) am += c->Ml[l];
    if (c->errorRate <= 0.005f && c->errorCountTotal <= 6) tm = 20480;
    else {
        int pt = p->amplitudeThreshold <= 0 ? 20480 : p->amplitudeThreshold;
        long long t = 6000 - 300 * (long long)c->errorCountTotal + pt;
        tm = t > 2147483647 ? 2147483647 : t < -2147483647 - 1 ? -2147483647 - 1 : (int)t;
    }
    c->amplitudeThreshold = tm;
    if (am > (float)tm && am > 0.0f) {
        float k = (float)tm / am;
        for (int l = 1; l <= L; l++) c->Ml[l] *= k;
    }
}
static void vf_call(void) {
    static mbe_parms c, p, s, c2, s2; int ok;
#if FN == 4
    VF_CHK(mbe_requiresAdaptiveSmoothing(&in_cur) ? (in_cur.errorRate > 0.0125f || in_cur.errorCountTotal > 4) : !(in_cur.errorRate > 0.0125f || in_cur.errorCountTotal > 4), "smoothing required iff rate above 0.0125 or more than 4 errors")
    VF_CHK((mbe_requiresMuting(&in_cur) != 0) == (in_cur.errorRate > in_cur.mutingThreshold), "muting required iff rate above the codec's threshold")
    VF_CHK((mbe_isMaxFrameRepeat(&in_cur) != 0) == (in_cur.repeatCount >= 4), "repeat limit reached from the fourth repeat")
    VF_CHK(!mbe_requiresAdaptiveSmoothing(0) && !mbe_requiresMuting(0) && !mbe_isMaxFrameRepeat(0), "no decision without a state")
    (void)c; (void)p; (void)s; (void)c2; (void)s2; (void)ok;
#else
    c = in_cur; s = in_cur; p = in_prev; c2 = in_oth; c2.L = in_L; c2.errorRate = in_cur.errorRate; c2.errorCountTotal = in_cur.errorCountTotal; s2 = c2;
    mbe_setPreEnhRm0(FN == 1 ? &c : FN == 2 ? &c2 : 0, in_rm0);
    mbe_applyAdaptiveSmoothing(&c, &p);
    spec_smooth(&s, &in_prev, FN == 1 && in_rm0 >= 0.0f, in_rm0);
#define SAME(a, b, what) \
    VF_CHK(VF_SAMEF((a).localEnergy, (b).localEnergy), what "local energy tracked") \
    ok = 1; for (int l = 0; l < 57; l++) ok &= (a).Vl[l] == (b).Vl[l]; \
    VF_CHK(ok, what "bands above the adaptive threshold become voiced, no other change") \
    VF_CHK((a).amplitudeThreshold == (b).amplitudeThreshold, what "amplitude threshold") \
    ok = 1; for (int l = 0; l < 57; l++) ok &= VF_SAMEF((a).Ml[l], (b).Ml[l]); \
    VF_CHK(ok, what "amplitudes scaled to the threshold only when their sum exceeds it") \
    VF_CHK(vf_same_all(&(a), &(b)), what "nothing else changes")
    SAME(c, s, "")
    VF_CHK(vf_same_all(&p, &in_prev), "previous state not modified")
#if FN == 1
    /* consumed: a second call for the same state measures the energy itself */
    c = in_cur; s = in_cur;
    mbe_applyAdaptiveSmoothing(&c, &p);
    spec_smooth(&s, &in_prev, 0, 0.0f);
    SAME(c, s, "handed-over energy is used once: ")
#elif FN == 2
    mbe_applyAdaptiveSmoothing(&c2, &p);
    spec_smooth(&s2, &in_prev, in_rm0 >= 0.0f, in_rm0);
    SAME(c2, s2, "handed-over energy waits for its frame: ")
#endif
#endif
}
#include "vf_main.h"
