/* C07/C08: AMBE parameter decoding = specification, bit-exact, for all bits and all previous states.
 * AMBE_CODEC 2450|2400; B0: pitch index of this task; float operators are uninterpreted (UF) */
#include "vf.h"
#ifdef VF_INCL
#if AMBE_CODEC == 2450
#include "ambe3600x2450.c"
#else
#include "ambe3600x2400.c"
#endif
#endif
#include "mbelib-neo/mbelib.h"
#include "ambe_spec.h"
#ifdef TOTAL   /* the error-aware entry used by the frame functions */
static int vf_entry(const char* d, mbe_parms* c, mbe_parms* p);
#define FUN vf_entry
#elif AMBE_CODEC == 2450
#define FUN mbe_decodeAmbe2450Parms
#else
#define FUN mbe_decodeAmbe2400Parms
#endif
static vf_c49 in_d;
static mbe_parms in_cur, in_prev, old_cur, old_prev;
#ifdef TOTAL
static int in_total;
static int vf_entry(const char* d, mbe_parms* c, mbe_parms* p) { return mbe_decodeAmbe2450ParmsInternal(d, c, p, in_total); }
#define TONE_OK (in_total < 6)
#else
#define TONE_OK 1
#endif
static vf_c49 in_w; static int in_warm; static mbe_parms w_cur, w_prev;
#ifdef TOTAL
#define VF_IN_TOTAL(X) X(int, in_total)
#else
#define VF_IN_TOTAL(X)
#endif
#define VF_INPUTS(X) VF_IN_TOTAL(X) X(vf_c49, in_d) X(vf_c49, in_w) X(int, in_warm) X(mbe_parms, in_cur) X(mbe_parms, in_prev)
static int vf_pre(void) { return vf_bits01(in_w.v, 49) && vf_bits01(in_d.v, 49) && in_prev.L >= 9 && in_prev.L <= 56; }
static void vf_setup(void) { old_cur = in_cur; old_prev = in_prev; }
#include "parms.h"
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
#ifdef TOTAL
    in_total = (int)(vf_rnd() % 14) - 2;
#endif
    vf_rndbits(in_w.v, 49); memset(&w_cur, 0, sizeof w_cur); memset(&w_prev, 0, sizeof w_prev); vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev); }
#endif
#define VF_HAS_SYM
static void vf_sym(void) { VF_REAL /* task = pitch index; every other bit and the previous harmonic count are symbolic */
    int b0 = vf_task(0, 0, 127);
    for (int i = 0; i < 49; i++) in_d.v[i] = (char)vf_sym_bit(1, i);
    for (int i = 0; i < 7; i++) in_d.v[F_B[0][i]] = (char)((b0 >> (6 - i)) & 1);
    in_prev.L = vf_sym_range(2, 9, 56);
    in_warm = vf_sym_bit(3, 0);
#ifdef VF_SYM
    for (int i = 0; i < 49; i++) in_w.v[i] = i % 3 == 0;
#endif
}
/* frame class: 0 voice, 1 silence, 2 erasure, 7 tone (2450) ; 2400: 3 = tone frame without a playable single tone */
#if AMBE_CODEC == 2450
static int spec_class(void) {
    const char* d = in_d.v;
    int b0 = spec_field(d, 0), sig = 1, u3z = 1, u1 = 1;
    for (int i = 0; i < 6; i++) sig &= d[i];
    for (int i = 45; i < 49; i++) u3z &= !d[i];
    for (int i = 0; i < 4; i++) u1 &= d[12 + i] == d[20 + i];
    if (sig && (u3z || u1) && TONE_OK) return 7;
    if (b0 >= 120 && b0 <= 123) return 2;
    if (b0 == 126 || b0 == 127) return 2;
    return b0 >= 124 ? 1 : 0;
}
static int post_ret(int r) { int c = spec_class(); return r == (c == 1 ? 0 : c); }
static float spec_w0(int b0) { return b0 >= 120 ? (float)(SPEC_M_PI / 32.0f) * (float)(2.0 * SPEC_M_PI) : S_AmbeW0table[b0] * 2.0f * SPEC_M_PI; }
static int spec_L(int b0) { return b0 == 124 ? 15 : b0 == 125 ? 14 : S_AmbeLtable[b0]; }
static float spec_f0(int b0) { return S_AmbeW0table[b0]; }
#define T_VUV S_AmbeVuv
#define SIL_B0 120
#else
static int spec_tone(void) { /* D-STAR tone index; bits 5..7 through the three-bit code */
    static const int t[8][3] = {{1, 0, 0}, {0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {1, 1, 1}, {1, 1, 0}, {1, 0, 1}};
    const char* d = in_d.v;
    int c = 4 * d[6] + 2 * d[7] + d[8];
    return 128 * t[c][0] + 64 * t[c][1] + 32 * t[c][2] + 16 * d[9] + 8 * d[42] + 4 * d[43] + 2 * d[10] + d[11];
}
static int spec_class(void) {
    int t = 1;
    for (int i = 0; i < 6; i++) t &= in_d.v[i];
    return t ? 3 : 0;
}
static int post_ret(int r) {
    int id;
    if (spec_class() == 0) return r == 0;
    id = spec_tone();
    if (id >= 5 && id <= 122) return r == id;
    if (r != 3) return 0;
    return id >= 128 && id <= 163 ? 1 : in_cur.L == 14; /* other indices: treated as silence */
}
static float spec_f0(int b0) { return exp2f(-4.311767578125f - (2.1336e-2f * ((float)b0 + 0.5f))); }
static float spec_w0(int b0) { return spec_f0(b0) * 2.0f * SPEC_M_PI; }
static int spec_L(int b0) { return (int)S_AmbePlusLtable[b0]; }
#define T_VUV S_AmbePlusVuv
#define SIL_B0 128
#endif
static int isv(void) { int c = spec_class(); return c == 0 || c == 1; }
static int B(void) { return spec_field(in_d.v, 0); }
static int post_w0(void) { float w; if (!isv()) return 1; w = spec_w0(B()); return VF_SAMEF(in_cur.w0, w); }
static int post_L(void) { return !isv() || in_cur.L == spec_L(B()); }
static int specV[57];
static int post_V(void) {
    int b0 = B(), L, ok = 1;
    if (!isv()) return 1;
    L = spec_L(b0);
    for (int l = 1; l <= 56; l++) {
        if (l > L) break;
        specV[l] = b0 >= SIL_B0 ? 0 : T_VUV[spec_field(in_d.v, 1)][(int)((float)l * 16.0f * spec_f0(b0))];
        ok &= in_cur.Vl[l] == specV[l];
    }
    return ok;
}
static float spec_g;
static int post_g(void) {
    if (!isv()) return 1;
    spec_g = T_DG[spec_field(in_d.v, 2)] + (0.5f * old_prev.gamma);
    return VF_SAMEF(in_cur.gamma, spec_g);
}
static spec_mag_t SM;
static int post_mag(void) {
    int ok = 1, L;
    if (!isv()) return 1;
    L = spec_L(B());
    spec_mag(in_d.v, L, spec_w0(B()), spec_g, specV, old_prev.L, old_prev.log2Ml, &SM);
    for (int l = 1; l <= L; l++) ok &= VF_SAMEF(in_cur.log2Ml[l], SM.lg[l]);
    return ok;
}
static int post_ml(void) {
    int ok = 1, L;
    if (!isv()) return 1;
    L = spec_L(B());
    for (int l = 1; l <= L; l++) ok &= VF_SAMEF(in_cur.Ml[l], SM.ml[l]);
    return ok;
}
/* frame: parameter decoding leaves the synthesis, smoothing and repeat state alone */
static int post_frame(void) {
    mbe_parms *a = &in_cur, *b = &old_cur;
    int ok = vf_same_synth(a, b) & (a->repeatCount == b->repeatCount) & (a->repeat == old_prev.repeat);
    a = &in_prev; b = &old_prev;
    ok &= vf_same_synth(a, b) & (a->repeatCount == b->repeatCount) & (a->repeat == b->repeat) & (a->L == b->L) & VF_SAMEF(a->w0, b->w0) & VF_SAMEF(a->gamma, b->gamma);
    for (int l = 1; l <= 56; l++) {
        int in = l <= old_prev.L;
        ok &= a->Vl[l] == b->Vl[l];
        ok &= !in | VF_SAMEF(a->log2Ml[l], b->log2Ml[l]);
        ok &= !in | VF_SAMEF(a->Ml[l], b->Ml[l]);
    }
    return ok;
}
#define POST(E) E(post_frame(), "frame")  E(post_ret(VF_RET), "frame class") E(post_w0(), "fundamental") E(post_L(), "number of harmonics") \
   E(post_V(), "voicing decisions") E(post_g(), "gain") E(post_mag(), "log magnitudes") E(post_ml(), "magnitudes")
VF_CONTRACT(int FUN(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_mp), (ambe_d == in_d.v && cur_mp == &in_cur && prev_mp == &in_prev && vf_pre()), POST, VF_A(*cur_mp, *prev_mp))
/* history: an earlier frame may already have been decoded on this thread */
static void warm(void) { w_prev.L = 30; if (in_warm) FUN(in_w.v, &w_cur, &w_prev); }
static void vf_call(void) { warm(); int vf_ret = FUN(in_d.v, &in_cur, &in_prev); POST(VF_CHK) }
#include "vf_main.h"
