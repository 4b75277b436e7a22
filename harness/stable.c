/* C24: the decoded speech model stays bounded whatever the bits: inductive invariant of the parameter decoders.
 * CODEC 2450 | 2400 | 4400.  INV(state): 9 <= L <= 56, gain in [G_LO, G_HI], log2 amplitudes in [-A, A], those of the
 * harmonics 1..L within OSC of one another. */
#include "vf.h"
#if CODEC == 2450
#include "ambe3600x2450.c"
#endif
#include "mbelib-neo/mbelib.h"
#include "ambe_common.h"
#include <math.h>
#define NB (CODEC == 4400 ? 88 : 49)
static vf_c88 in_d; static mbe_parms in_cur, in_prev, old_cur, old_prev; static int in_total;
#define VF_INPUTS(X) X(vf_c88, in_d) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(int, in_total)
#if CODEC == 4400
#define A_ 100.0
#define OSC 100.0
#define ML_MAX 1.2676506002282294e30 /* 2^100 */
#else
#define A_ 70.0
#define OSC 60.0
#define ML_MAX 1.1805916207174113e21 /* 2^70 */
#endif
#if CODEC == 2450
#define G_LO -5.0
#define G_HI 18.0
#elif CODEC == 2400
#define G_LO -1.0
#define G_HI 12.0
#endif
static int inv(const mbe_parms* p, int first) {
    int ok = p->L >= 9 && p->L <= 56; float lo, hi;
#if CODEC != 4400
    ok = ok && p->gamma >= (float)G_LO && p->gamma <= (float)G_HI;
#endif
    for (int l = 1; l < 57; l++) ok = ok && p->log2Ml[l] >= (float)-A_ && p->log2Ml[l] <= (float)A_;
    lo = hi = p->log2Ml[1];
    for (int l = 2; l < 57; l++) { if (l <= p->L && p->log2Ml[l] < lo) lo = p->log2Ml[l]; if (l <= p->L && p->log2Ml[l] > hi) hi = p->log2Ml[l]; }
    return ok && (double)hi - (double)lo <= OSC && (!first || p->log2Ml[0] == 0.0f);
}
static int vf_pre(void) {
#ifdef VF_SYM
    return vf_bits01(in_d.v, NB);
#else
    return vf_bits01(in_d.v, NB) && inv(&in_prev, CODEC == 4400) && in_cur.log2Ml[0] == 0.0f;
#endif
}
static void vf_setup(void) { old_cur = in_cur; old_prev = in_prev; }
static int decode(void) {
#if CODEC == 2450
    return mbe_decodeAmbe2450ParmsInternal(in_d.v, &in_cur, &in_prev, in_total);
#elif CODEC == 2400
    return mbe_decodeAmbe2400Parms(in_d.v, &in_cur, &in_prev);
#else
    return mbe_decodeImbe4400Parms(in_d.v, &in_cur, &in_prev);
#endif
}
#define VF_HAS_SYM
static void vf_sym(void) {
#ifdef START
    return;
#endif
#if CODEC == 4400
    static const signed char pos[8] = {0, 1, 2, 3, 4, 5, 85, 86}; int n = 8, b0 = vf_task(0, 0, 255);
#elif CODEC == 2450
    static const signed char pos[7] = {0, 1, 2, 3, 37, 38, 39}; int n = 7, b0 = vf_task(0, 0, 127);
#else
    static const signed char pos[7] = {0, 1, 2, 3, 4, 5, 48}; int n = 7, b0 = vf_task(0, 0, 127);
#endif
    for (int i = 0; i < 88; i++) in_d.v[i] = (char)(i < NB ? vf_sym_bit(1, i) : 0);
    for (int i = 0; i < n; i++) in_d.v[(int)pos[i]] = (char)((b0 >> (n - 1 - i)) & 1);
    in_prev.L = vf_sym_range(2, 9, 56);
    in_cur.log2Ml[0] = 0.0f; if (CODEC == 4400) in_prev.log2Ml[0] = 0.0f;
#ifdef VF_SYM
    vf_cases(2, 9, 56);
    for (int l = 1; l < 57; l++) vf_group(in_prev.log2Ml[l], l);
    if (CODEC != 4400) vf_range(in_prev.log2Ml[0], -A_, A_);
    vf_group_range(-A_, A_, OSC);
#if CODEC != 4400
    vf_range(in_prev.gamma, G_LO, G_HI);
#endif
#endif
}
#ifndef VF_SYM
static int vf_known(int v) { return v; }
static double vf_least(float v) { return v; }
static double vf_most(float v) { return v; }
static double vf_spread(const float* p, int n) { double lo = p[0], hi = p[0]; for (int i = 1; i < n; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; } return hi - lo; }
#endif
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    static const float pi2 = 6.28318530717958647692f; float base, w; int k = (int)(vf_rnd() % 4), c = (int)(vf_rnd() % 57);
    memset(&in_cur, 0, sizeof in_cur); memset(&in_prev, 0, sizeof in_prev);
    in_total = (int)(vf_rnd() % 8) - 1;
    in_prev.w0 = pi2 / 60.0f; in_prev.L = 9 + (int)(vf_rnd() % 48); in_prev.K = 3;
    w = (float)OSC * (float)(vf_rnd() % 1001) / 1000.0f; if (vf_rnd() % 2) w = (float)OSC;
    base = -(float)A_ + (2.0f * (float)A_ - w) * (float)(vf_rnd() % 1001) / 1000.0f;
    if (k == 0) w = base = 0.0f; /* as after start-up */
    for (int l = 1; l < 57; l++) in_prev.log2Ml[l] = base + w * (k == 1 ? (float)(vf_rnd() % 1001) / 1000.0f : k == 2 ? (float)(l >= c) : (float)(l < c));
    if (CODEC != 4400) in_prev.log2Ml[0] = in_prev.log2Ml[1];
#if CODEC != 4400
    in_prev.gamma = k == 0 ? 0.0f : (float)G_LO + (float)(G_HI - G_LO) * (float)(vf_rnd() % 1001) / 1000.0f;
#endif
    for (int i = 0; i < 88; i++) in_d.v[i] = (char)(i < NB ? vf_rnd() & 1 : 0);
    if (vf_rnd() % 4 == 0) { int a = (int)(vf_rnd() % NB), b = (int)(vf_rnd() % NB), v = (int)(vf_rnd() & 1); for (int i = a; i <= b; i++) in_d.v[i] = (char)v; }
}
#endif
/* the 2450 silence frame has w0 = 2 pi (pi/32) by design (same value as JMBE), its upper bands lie above half the sampling rate */
static int silence(void) {
#if CODEC == 2450
    return in_d.v[0] & in_d.v[1] & in_d.v[2] & in_d.v[3] & in_d.v[37] & !in_d.v[38];
#else
    return 0;
#endif
}
static void step(void) {
    int r = decode(), bad = 0;
    if (r != 0) {
        VF_CHK(in_prev.L == old_prev.L && VF_SAMEF(in_prev.gamma, old_prev.gamma), "a rejected frame leaves the previous model alone")
    } else {
        int L = vf_known(in_cur.L);
        VF_CHK(L >= 9 && L <= 56, "9 to 56 harmonics")
        VF_CHK(vf_least(in_cur.w0) >= 0.049 && vf_most(in_cur.w0) <= 0.7, "fundamental frequency in its range")
        if (!silence()) VF_CHK(vf_most(in_cur.w0) * L <= 3.1416, "every harmonic of a voice frame below half the sampling rate")
#if CODEC != 4400
        VF_CHK(vf_least(in_cur.gamma) >= G_LO && vf_most(in_cur.gamma) <= G_HI, "gain stays in its range")
#endif
        for (int l = 1; l <= L; l++) bad |= !(vf_least(in_cur.log2Ml[l]) >= -A_ && vf_most(in_cur.log2Ml[l]) <= A_);
        VF_CHK(!bad, "log2 amplitudes stay in their range")
        bad = 0;
        for (int l = 1; l <= L; l++) bad |= !(vf_least(in_cur.Ml[l]) > 0.0 && vf_most(in_cur.Ml[l]) <= ML_MAX);
        VF_CHK(!bad, "amplitudes are positive and bounded")
#ifdef VF_NOTE
        { double lo = 1e9, hi = -1e9; for (int l = 1; l <= L; l++) { if (vf_least(in_cur.log2Ml[l]) < lo) lo = vf_least(in_cur.log2Ml[l]); if (vf_most(in_cur.log2Ml[l]) > hi) hi = vf_most(in_cur.log2Ml[l]); }
        vf_note("L log2", L, lo, hi); lo = 1e30; hi = 0; for (int l = 1; l <= L; l++) { if (vf_least(in_cur.Ml[l]) < lo) lo = vf_least(in_cur.Ml[l]); if (vf_most(in_cur.Ml[l]) > hi) hi = vf_most(in_cur.Ml[l]); }
        vf_note("Ml", lo, hi, 0); vf_note("spread", vf_spread(in_cur.log2Ml + 1, L), 0, 0); }
#endif
        VF_CHK(vf_spread(in_cur.log2Ml + 1, L) <= OSC, "log2 amplitudes of a frame stay close to one another")
        bad = 0;
        for (int l = 1; l <= L; l++) bad |= !(in_cur.Vl[l] == 0 || in_cur.Vl[l] == 1);
        VF_CHK(!bad, "voicing decisions are 0 or 1")
    }
    bad = 0;
    for (int l = 1; l < 57; l++) bad |= !(vf_least(in_prev.log2Ml[l]) >= -A_ && vf_most(in_prev.log2Ml[l]) <= A_);
    VF_CHK(!bad, "the previous model's log2 amplitudes stay in their range")
    bad = 0;
    for (int l = 1; l < 57; l++) bad |= l <= old_prev.L && !VF_SAMEF(in_prev.log2Ml[l], old_prev.log2Ml[l]);
    VF_CHK(!bad, "the previous model's harmonics are not changed")
    if (CODEC == 4400) VF_CHK(VF_SAMEF(in_cur.log2Ml[0], 0.0f) && VF_SAMEF(in_prev.log2Ml[0], 0.0f), "the element below the first harmonic stays 0")
}
static void vf_call(void) {
#ifdef START
    static mbe_parms a, b, c;
    a = in_cur; b = in_prev; c = in_cur;
#if CODEC == 4400
    mbe_initMbeParms(&a, &b, &c);
#else
    mbe_setAmbeErasureParms_common(&a, &b);
    VF_CHK(inv(&a, 0), "erasure model satisfies the invariant")
    mbe_initAmbeParms_common(&a, &b, &c);
#endif
    VF_CHK(inv(&a, CODEC == 4400) && inv(&b, CODEC == 4400) && inv(&c, CODEC == 4400), "start-up model satisfies the invariant")
    return;
#endif
    step();
#ifdef VF_NATIVE
    for (int n = 0; n < 12; n++) {      /* the same frame again and again: the invariant along a history */
        in_prev = in_cur; old_prev = in_prev; if (!inv(&in_prev, CODEC == 4400)) return;
        step();
    }
#endif
}
#include "vf_main.h"
