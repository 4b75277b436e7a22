/* C21: start-up, reset and copying of decoder states. FN 1 mbe_initMbeParms 2 mbe_initAmbeParms_common 3 mbe_moveMbeParms
 * 4 mbe_useLastMbeParms 5 mbe_setAmbeErasureParms_common 6 mbe_ensureAmbeDefaults_common */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "ambe_common.h"
#include "parms.h"
#include <math.h>
#define PI 3.14159265358979323846
static mbe_parms in_a, in_b, in_c;
#define VF_INPUTS(X) X(mbe_parms, in_a) X(mbe_parms, in_b) X(mbe_parms, in_c)
static int vf_pre(void) { return 1; }
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) { vf_rnd_parms(&in_a); vf_rnd_parms(&in_b); vf_rnd_parms(&in_c); }
#endif
static void spec_default(mbe_parms* m, float w0, int L, int K, float mute) {
    m->w0 = w0; m->L = L; m->K = K; m->gamma = 0.0f; m->un = 0; m->swn = 0; m->repeat = 0;
    for (int l = 0; l < 57; l++) { m->Ml[l] = 1.0f; m->Vl[l] = 0; m->log2Ml[l] = m->PHIl[l] = m->PSIl[l] = 0.0f; }
    m->localEnergy = 75000.0f; m->amplitudeThreshold = 20480; m->errorRate = 0.0f; m->errorCountTotal = 0; m->errorCount4 = 0;
    m->repeatCount = 0; m->mutingThreshold = mute; m->noiseSeed = -1.0f;
    for (int i = 0; i < 96; i++) m->noiseOverlap[i] = 0.0f;
    for (int i = 0; i < 256; i++) m->previousUw[i] = 0.0f;
}
static void spec_ambe(mbe_parms* m) { spec_default(m, (float)(PI / 32.0 * 2.0 * PI), 15, 0, 0.096f); }
static void vf_call(void) {
    static mbe_parms a, b, c, s;
    a = in_a; b = in_b; c = in_c; s = in_a;
#if FN == 1
    mbe_initMbeParms(&a, &b, &c);
    spec_default(&s, (float)(4.0 * PI / 173.5), 39, 12, 0.0875f);
    VF_CHK(vf_same_all(&a, &s) && vf_same_all(&b, &s) && vf_same_all(&c, &s), "all three states are the IMBE start-up state")
#elif FN == 2
    mbe_initAmbeParms_common(&a, &b, &c);
    spec_ambe(&s);
    VF_CHK(vf_same_all(&a, &s) && vf_same_all(&b, &s) && vf_same_all(&c, &s), "all three states are the AMBE start-up state")
#elif FN == 3
    mbe_moveMbeParms(&a, &b);
    VF_CHK(vf_same_all(&b, &in_a) && vf_same_all(&a, &in_a), "exact copy, source kept")
    mbe_moveMbeParms(&c, &c);
    VF_CHK(vf_same_all(&c, &in_c), "copy onto itself changes nothing")
#elif FN == 4
    mbe_useLastMbeParms(&a, &b);
    VF_CHK(vf_same_all(&a, &in_b) && vf_same_all(&b, &in_b), "exact copy, source kept")
#elif FN == 5
    mbe_setAmbeErasureParms_common(&a, &b);
    s.w0 = 0.0f; s.L = 9; s.K = 0; s.gamma = 0.0f; s.un = 0; s.swn = 0;
    for (int l = 0; l < 57; l++) { s.Ml[l] = 1.0f; s.Vl[l] = 0; s.log2Ml[l] = 0.0f; s.PHIl[l] = in_b.PHIl[l]; s.PSIl[l] = in_b.PSIl[l]; }
    s.localEnergy = 75000.0f; s.amplitudeThreshold = 20480; s.noiseSeed = in_b.noiseSeed;
    for (int i = 0; i < 96; i++) s.noiseOverlap[i] = in_b.noiseOverlap[i];
    for (int i = 0; i < 256; i++) s.previousUw[i] = in_b.previousUw[i];
    VF_CHK(vf_same_all(&a, &s) && vf_same_all(&b, &in_b), "erasure model with the phases and noise of the other state, error tracking kept")
    mbe_setAmbeErasureParms_common(&c, 0);
    s = in_c; s.w0 = 0.0f; s.L = 9; s.K = 0; s.gamma = 0.0f; s.un = 0; s.swn = 0;
    for (int l = 0; l < 57; l++) { s.Ml[l] = 1.0f; s.Vl[l] = 0; s.log2Ml[l] = 0.0f; }
    s.localEnergy = 75000.0f; s.amplitudeThreshold = 20480;
    VF_CHK(vf_same_all(&c, &s), "without another state its own phases and noise stay")
    mbe_setAmbeErasureParms_common(0, &b);
#else
    mbe_ensureAmbeDefaults_common(&a, &b, &c);
    if (fabsf(in_b.mutingThreshold - 0.096f) > 1e-6f) {
        spec_ambe(&s);
        VF_CHK(vf_same_all(&a, &s) && vf_same_all(&b, &s) && vf_same_all(&c, &s), "states of another codec are reset to the AMBE start-up state")
    } else { VF_CHK(vf_same_all(&a, &in_a) && vf_same_all(&b, &in_b) && vf_same_all(&c, &in_c), "AMBE states are left alone") }
    mbe_ensureAmbeDefaults_common(&a, 0, &c); mbe_initAmbeParms_common(0, &b, &c); mbe_initAmbeParms_common(&a, 0, &c); mbe_initAmbeParms_common(&a, &b, 0);
#endif
    (void)s;
}
#include "vf_main.h"
