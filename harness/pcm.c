/* C14: conversion of decoder float samples to 16-bit PCM, and the 16-bit wrappers of the synthesis functions.
 * FN 1 conversion, 2 speech wrapper, 3 comfort-noise wrapper, 4 silence */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbelib_const.h"
#include "parms.h"
static vf_f160 in_f; static vf_s160 in_s; static mbe_parms in_cur, in_prev; static int in_q; static unsigned in_seed;
#define VF_INPUTS(X) X(vf_f160, in_f) X(vf_s160, in_s) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(int, in_q) X(unsigned, in_seed)
static int vf_pre(void) { int ok = 1; for (int i = 0; i < 160; i++) ok &= in_f.v[i] == in_f.v[i]; return ok && in_cur.L >= 9 && in_cur.L <= 56 && in_prev.L >= 9 && in_prev.L <= 56; }
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev);
    for (int i = 0; i < 160; i++) {
        int k = (int)(vf_rnd() & 7);
        in_f.v[i] = k < 4 ? vf_rndf(-5000.0f, 5000.0f) : k == 4 ? vf_rndf(4446.0f, 4448.0f) : k == 5 ? vf_rndf(-4448.0f, -4446.0f) : k == 6 ? vf_rndf(-2.0f, 2.0f) : vf_rndf(-1e30f, 1e30f);
        if (!(vf_rnd() & 63)) { unsigned u = (vf_rnd() & 1) ? 0x7f800000u : 0xff800000u; memcpy(&in_f.v[i], &u, 4); }
    }
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) {
#ifdef VF_SYM
    in_cur.L = vf_sym_range(1, 9, 56); in_prev.L = vf_sym_range(2, 9, 56);
#endif
}
static int spec_pcm(float x) {
    const float top = 32767.0f * 0.95f;
    float a = 7.0f * x;
    if (a > top) a = top; else if (a < -top) a = -top;
    return (int)a;
}
#ifdef VF_SYM
static vf_f160 o_syn; static mbe_parms o_cur, o_prev, r_cur, r_prev; static int n_syn, n_cn, n_cv, r_q; static float* c_in; static vf_f160 c_f; static vf_s160 o_cv;
#if FN >= 2
void vf_stub_mbe_synthesizeSpeechf(float* a, mbe_parms* c, mbe_parms* p, int q) { n_syn++; r_cur = *c; r_prev = *p; r_q = q; *c = o_cur; *p = o_prev; for (int i = 0; i < 160; i++) a[i] = o_syn.v[i]; }
void vf_stub_mbe_synthesizeComfortNoisef(float* a) { n_cn++; for (int i = 0; i < 160; i++) a[i] = o_syn.v[i]; }
void vf_stub_mbe_floattoshort(float* a, short* o) { n_cv++; for (int i = 0; i < 160; i++) c_f.v[i] = a[i]; for (int i = 0; i < 160; i++) o[i] = o_cv.v[i]; }
#endif
#endif
static void vf_call(void) {
    vf_s160 out = in_s; vf_f160 f = in_f; mbe_parms cur = in_cur, prev = in_prev; int ok;
#if FN == 1
    mbe_floattoshort(f.v, out.v);
    for (int i = 0; i < 160; i++) VF_CHK(out.v[i] == (short)spec_pcm(in_f.v[i]), "sample = float sample times 7, limited to 95% of full scale, truncated")
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(f.v[i], in_f.v[i]);
    VF_CHK(ok, "input samples unchanged")
#elif FN == 2 || FN == 3
#ifdef VF_SYM
    vf_sym_obj(&o_syn, sizeof o_syn, 50); vf_sym_obj(&o_cur, sizeof o_cur, 51); vf_sym_obj(&o_prev, sizeof o_prev, 52); vf_sym_obj(&o_cv, sizeof o_cv, 53);
#if FN == 2
    mbe_synthesizeSpeech(out.v, &cur, &prev, in_q);
    VF_CHK(n_syn == 1 && n_cn == 0 && n_cv == 1, "one synthesis, one conversion")
    VF_CHK(vf_same_all(&r_cur, &in_cur) && vf_same_all(&r_prev, &in_prev), "states handed to the float synthesis")
    VF_CHK(vf_same_all(&cur, &o_cur) && vf_same_all(&prev, &o_prev), "states left by the float synthesis")
#else
    mbe_synthesizeComfortNoise(out.v);
    VF_CHK(n_syn == 0 && n_cn == 1 && n_cv == 1, "one noise frame, one conversion")
#endif
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(c_f.v[i], o_syn.v[i]);
    VF_CHK(ok, "converted samples are the float samples")
    ok = 1; for (int i = 0; i < 160; i++) ok &= out.v[i] == o_cv.v[i];
    VF_CHK(ok, "output is the converted buffer")
#else
    mbe_parms c2 = in_cur, p2 = in_prev;
    mbe_setThreadRngSeed(in_seed);
    if (FN == 2) mbe_synthesizeSpeechf(f.v, &c2, &p2, in_q); else mbe_synthesizeComfortNoisef(f.v);
    mbe_setThreadRngSeed(in_seed);
    if (FN == 2) mbe_synthesizeSpeech(out.v, &cur, &prev, in_q); else mbe_synthesizeComfortNoise(out.v);
    ok = 1; for (int i = 0; i < 160; i++) { int d = out.v[i] - spec_pcm(f.v[i]); ok &= d >= -1 && d <= 1; }
    VF_CHK(ok, "output is the converted buffer")
    VF_CHK(vf_same_all(&cur, &c2) && vf_same_all(&prev, &p2), "states left by the float synthesis")
#endif
#elif FN == 4
    mbe_synthesizeSilencef(f.v); mbe_synthesizeSilence(out.v);
    ok = 1; for (int i = 0; i < 160; i++) ok &= out.v[i] == 0;
    VF_CHK(ok, "silence is all zero (16 bit)")
    ok = 1; for (int i = 0; i < 160; i++) ok &= f.v[i] == 0.0f;
    VF_CHK(ok, "silence is all zero (float)")
#endif
    (void)f; (void)cur; (void)prev;
}
#include "vf_main.h"
