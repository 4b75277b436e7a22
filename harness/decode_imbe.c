/* C09: IMBE parameter decoding = specification for every parameter vector and every previous state. */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "parms.h"
#include <math.h>
#include "tables/spec_imbe7200x4400.h"
#define SPI 3.14159265358979323846
static vf_c88 in_d;
static mbe_parms in_cur, in_prev, old_cur, old_prev;
static vf_c88 in_w; static int in_warm; static mbe_parms w_cur, w_prev;
#define VF_INPUTS(X) X(vf_c88, in_d) X(vf_c88, in_w) X(int, in_warm) X(mbe_parms, in_cur) X(mbe_parms, in_prev)
static int vf_pre(void) { return vf_bits01(in_w.v, 88) && vf_bits01(in_d.v, 88) && in_prev.L >= 9 && in_prev.L <= 56; }
static void vf_setup(void) { old_cur = in_cur; old_prev = in_prev; }
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) { vf_rndbits(in_w.v, 88); memset(&w_cur, 0, sizeof w_cur); memset(&w_prev, 0, sizeof w_prev); vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev); }
#endif
static const signed char B0POS[8] = {0, 1, 2, 3, 4, 5, 85, 86};
#define VF_HAS_SYM
static void vf_sym(void) { VF_REAL /* case = pitch field */
    int b0 = vf_task(0, 0, 255);
    for (int i = 0; i < 88; i++) in_d.v[i] = (char)vf_sym_bit(1, i);
    for (int i = 0; i < 8; i++) in_d.v[B0POS[i]] = (char)((b0 >> (7 - i)) & 1);
    in_prev.L = vf_sym_range(2, 9, 56);
    in_warm = vf_sym_bit(3, 0);
#ifdef VF_SYM
    for (int i = 0; i < 88; i++) in_w.v[i] = i % 3 == 0;
#endif
}
static int B(void) { int v = 0; for (int i = 0; i < 8; i++) v = 2 * v + in_d.v[B0POS[i]]; return v; }
static int spec_L(int b0) { return 9254 * ((2 * b0 + 81) / 8) / 10000; }
static int spec_K(int L) { return L < 37 ? (L + 2) / 3 : 12; }
static float spec_w0(int b0) { return (float)(4 * SPI) / (float)((float)b0 + 39.5); }
static int valid(void) { return B() <= 207; }
static char bb[58][12]; /* quantiser values b1..bL+1 as bits */
static void fields(int L) { for (int i = 0; i < 79; i++) bb[S_bo[L - 9][i][0]][S_bo[L - 9][i][1]] = in_d.v[6 + i]; }
static int val(int m, int n) { int v = 0; for (int j = n - 1; j >= 0; j--) v = 2 * v + bb[m][j]; return v; }
static int post_ret(int r) { return valid() ? r == 0 : r == 1; }
static int post_w0(void) { float w; if (!valid()) return VF_SAMEF(in_cur.w0, old_cur.w0); w = spec_w0(B()); return VF_SAMEF(in_cur.w0, w); }
static int post_L(void) {
    if (!valid()) return in_cur.L == old_cur.L && in_cur.K == old_cur.K;
    return in_cur.L == spec_L(B()) && in_cur.K == spec_K(spec_L(B()));
}
static int post_V(void) {
    int ok = 1, L, K;
    if (!valid()) return 1;
    L = spec_L(B()); K = spec_K(L);
    fields(L);
    for (int l = 1; l <= L; l++) {
        int k = K - 1 - (l - 1) / 3;
        ok &= in_cur.Vl[l] == bb[1][k < 0 ? 0 : k];
    }
    return ok;
}
static float sp_lg[57], sp_ml[57];
static void spec_mag(int L) {
    float G[7], R[7], C[7][12], T[58], fl[57], de[57], prev[57], rho, S = 0;
    int ik[57], pL = old_prev.L, m, l;
    fields(L);
    G[1] = S_B2[val(2, 6)];
    for (int i = 2; i <= 6; i++) {
        float n = S_ba[L - 9][i - 2][0], st = S_ba[L - 9][i - 2][1];
        G[i] = st * ((float)val(i + 1, (int)n) - exp2f(n - 1.0f) + 0.5f);
    }
    for (int i = 1; i <= 6; i++) {
        float s = 0;
        for (int j = 1; j <= 6; j++) s = s + ((j == 1 ? 1.0f : 2.0f) * G[j] * cosf((SPI * (float)(j - 1) * ((float)i - 0.5f)) / 6.0f));
        R[i] = s;
    }
    m = 8;
    for (int i = 1; i <= 6; i++) {
        C[i][1] = R[i];
        for (int k = 2; k <= S_ImbeJi[L - 9][i - 1]; k++, m++) {
            int n = S_hoba[L - 9][m - 8];
            C[i][k] = n == 0 ? 0.0f : (S_quantstep[n - 1] * S_standdev[k - 2]) * (((float)val(m, n) - exp2f((float)n - 1.0f)) + 0.5f);
        }
    }
    l = 1;
    for (int i = 1; i <= 6; i++) {
        int J = S_ImbeJi[L - 9][i - 1];
        for (int j = 1; j <= J; j++) {
            float s = 0;
            for (int k = 1; k <= J; k++) s = s + ((k == 1 ? 1.0f : 2.0f) * C[i][k] * cosf((SPI * (float)(k - 1) * ((float)j - 0.5f)) / (float)J));
            T[l++] = s;
        }
    }
    if (L <= 15) rho = 0.4; else if (L <= 24) rho = (0.03 * (float)L) - 0.05; else rho = 0.7;
    for (int i = 0; i <= 56; i++) prev[i] = i > pL && i <= L ? old_prev.log2Ml[pL] : old_prev.log2Ml[i];
    for (l = 1; l <= L; l++) {
        int hi;
        fl[l] = ((float)pL / (float)L) * (float)l;
        ik[l] = (int)fl[l];
        de[l] = fl[l] - (float)ik[l];
        hi = ik[l] + 1 > 56 ? 56 : ik[l] + 1;
        S = S + (((1.0f - de[l]) * prev[ik[l]]) + (de[l] * prev[hi]));
    }
    S = ((rho / (float)L) * S);
    for (l = 1; l <= L; l++) {
        int hi = ik[l] + 1 > 56 ? 56 : ik[l] + 1;
        float c1 = (rho * (1.0f - de[l]) * prev[ik[l]]), c2 = (rho * de[l] * prev[hi]);
        sp_lg[l] = T[l] + c1 + c2 - S;
        sp_ml[l] = exp2f(sp_lg[l]);
    }
}
static int post_mag(void) {
    int ok = 1, L;
    if (!valid()) return 1;
    L = spec_L(B());
    spec_mag(L);
    for (int l = 1; l <= L; l++) ok &= VF_SAMEF(in_cur.log2Ml[l], sp_lg[l]);
    return ok;
}
static int post_ml(void) {
    int ok = 1, L;
    if (!valid()) return 1;
    L = spec_L(B());
    for (int l = 1; l <= L; l++) ok &= VF_SAMEF(in_cur.Ml[l], sp_ml[l]);
    return ok;
}
static int post_frame(void) {
    mbe_parms *a = &in_cur, *b = &old_cur;
    int ok = vf_same_synth(a, b) & (a->repeatCount == b->repeatCount) & (a->repeat == old_prev.repeat) & VF_SAMEF(a->gamma, b->gamma);
    a = &in_prev; b = &old_prev;
    ok &= vf_same_synth(a, b) & (a->repeatCount == b->repeatCount) & (a->repeat == b->repeat) & (a->L == b->L) & (a->K == b->K) & VF_SAMEF(a->w0, b->w0) & VF_SAMEF(a->gamma, b->gamma);
    for (int l = 0; l <= 56; l++) {
        int in = l <= old_prev.L;
        ok &= a->Vl[l] == b->Vl[l];
        ok &= !in | VF_SAMEF(a->log2Ml[l], b->log2Ml[l]);
        ok &= !in | VF_SAMEF(a->Ml[l], b->Ml[l]);
    }
    return ok;
}
#define POST(E) E(post_frame(), "frame") E(post_ret(VF_RET), "frame class") E(post_w0(), "fundamental") E(post_L(), "number of harmonics and bands") \
   E(post_V(), "voicing decisions") E(post_mag(), "log magnitudes") E(post_ml(), "magnitudes")
/* history: an earlier frame may already have been decoded on this thread */
static void warm(void) { w_prev.L = 30; if (in_warm) mbe_decodeImbe4400Parms(in_w.v, &w_cur, &w_prev); }
static void vf_call(void) { warm(); int vf_ret = mbe_decodeImbe4400Parms(in_d.v, &in_cur, &in_prev); POST(VF_CHK) }
#include "vf_main.h"
