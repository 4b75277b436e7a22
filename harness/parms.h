/* native generator of plausible decoder states (used only by the search for failing inputs) */
#ifndef VF_PARMS_H
#define VF_PARMS_H
/* phases, energy tracking, error metrics, noise and overlap state identical */
static inline int vf_same_synth(const mbe_parms* a, const mbe_parms* b) {
    int ok = 1;
    for (int l = 0; l < 57; l++) ok &= VF_SAMEF(a->PHIl[l], b->PHIl[l]);
    for (int l = 0; l < 57; l++) ok &= VF_SAMEF(a->PSIl[l], b->PSIl[l]);
    ok &= (a->swn == b->swn) & VF_SAMEF(a->localEnergy, b->localEnergy) & (a->amplitudeThreshold == b->amplitudeThreshold);
    ok &= VF_SAMEF(a->errorRate, b->errorRate) & (a->errorCountTotal == b->errorCountTotal) & (a->errorCount4 == b->errorCount4);
    ok &= VF_SAMEF(a->mutingThreshold, b->mutingThreshold) & VF_SAMEF(a->noiseSeed, b->noiseSeed);
    for (int i = 0; i < 256; i++) ok &= VF_SAMEF(a->previousUw[i], b->previousUw[i]);
    for (int i = 0; i < 96; i++) ok &= VF_SAMEF(a->noiseOverlap[i], b->noiseOverlap[i]);
    return ok;
}
/* every field identical */
static inline int vf_same_voice(const mbe_parms* a, const mbe_parms* b) {
    int ok = VF_SAMEF(a->w0, b->w0) & (a->L == b->L) & (a->K == b->K) & VF_SAMEF(a->gamma, b->gamma) & (a->un == b->un);
    for (int l = 0; l < 57; l++) ok &= a->Vl[l] == b->Vl[l];
    for (int l = 0; l < 57; l++) ok &= VF_SAMEF(a->Ml[l], b->Ml[l]);
    for (int l = 0; l < 57; l++) ok &= VF_SAMEF(a->log2Ml[l], b->log2Ml[l]);
    return ok;
}
static inline int vf_same_all(const mbe_parms* a, const mbe_parms* b) {
    int ok = vf_same_voice(a, b);
    ok &= (a->repeat == b->repeat) & (a->repeatCount == b->repeatCount);
    ok &= vf_same_synth(a, b);
    return ok;
}
#ifdef VF_NATIVE
static inline void vf_rnd_parms(mbe_parms* p) {
    p->w0 = vf_rndf(0.05f, 0.3f);
    p->L = 9 + (int)(vf_rnd() % 48);
    p->K = 3 + (int)(vf_rnd() % 10);
    for (int i = 0; i < 57; i++) {
        p->Vl[i] = (int)(vf_rnd() & 1);
        p->log2Ml[i] = vf_rndf(-2.0f, 9.0f);
        p->Ml[i] = vf_rndf(0.0f, (vf_rnd() & 3) ? 60.0f : 3000.0f);
        p->PHIl[i] = vf_rndf(-3.2f, 3.2f);
        p->PSIl[i] = vf_rndf(-3.2f, 3.2f);
    }
    p->gamma = vf_rndf(-2.0f, 6.0f);
    p->un = (int)(vf_rnd() & 7);
    p->repeat = (int)(vf_rnd() % 6);
    p->repeatCount = (int)(vf_rnd() % 6);
    p->swn = (int)(vf_rnd() % 1000);
    p->localEnergy = vf_rndf(5000.0f, 200000.0f);
    p->amplitudeThreshold = (int)(vf_rnd() % 30000);
    p->errorRate = (vf_rnd() & 1) ? vf_rndf(0.0f, 0.02f) : vf_rndf(0.0f, 0.2f);
    p->errorCountTotal = (int)(vf_rnd() % 16);
    p->errorCount4 = (int)(vf_rnd() % 3);
    p->mutingThreshold = (vf_rnd() & 1) ? 0.096f : 0.0875f;
    for (int i = 0; i < 256; i++) p->previousUw[i] = vf_rndf(-300.0f, 300.0f);
    p->noiseSeed = (vf_rnd() & 3) ? (float)(vf_rnd() % 53125) : -1.0f;
    for (int i = 0; i < 96; i++) p->noiseOverlap[i] = (float)(vf_rnd() % 53125);
}
#endif
#endif
