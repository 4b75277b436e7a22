/* Specification of the AMBE voice-parameter decoder (both codecs), written from the algorithm equations
 * (TIA-102.BABA half-rate annex numbering) against the frozen spec tables; float operations are IEEE
 * single precision in the order the equations list them. */
#ifndef AMBE_SPEC_H
#define AMBE_SPEC_H
#include <math.h>
#if AMBE_CODEC == 2450
#ifdef VF_SHARE_TABLES
#include "tables/share_ambe3600x2450.h"
#else
#include "tables/spec_ambe3600x2450.h"
#endif
#define T_LM S_AmbeLmprbl
#define T_DG S_AmbeDg
#define T_24 S_AmbePRBA24
#define T_58 S_AmbePRBA58
#define T_H5 S_AmbeHOCb5
#define T_H6 S_AmbeHOCb6
#define T_H7 S_AmbeHOCb7
#define T_H8 S_AmbeHOCb8
static const signed char F_B[9][10] = { /* bit positions, most significant first; -1 terminates */
    {0, 1, 2, 3, 37, 38, 39, -1}, {4, 5, 6, 7, 35, -1}, {8, 9, 10, 11, 36, -1}, {12, 13, 14, 15, 16, 17, 18, 19, 40, -1},
    {20, 21, 22, 23, 41, 42, 43, -1}, {24, 25, 26, 27, 44, -1}, {28, 29, 30, 45, -1}, {31, 32, 33, 46, -1}, {34, 47, 48, -1}};
#else
#ifdef VF_SHARE_TABLES
#include "tables/share_ambe3600x2400.h"
#else
#include "tables/spec_ambe3600x2400.h"
#endif
#define T_LM S_AmbePlusLmprbl
#define T_DG S_AmbePlusDg
#define T_24 S_AmbePlusPRBA24
#define T_58 S_AmbePlusPRBA58
#define T_H5 S_AmbePlusHOCb5
#define T_H6 S_AmbePlusHOCb6
#define T_H7 S_AmbePlusHOCb7
#define T_H8 S_AmbePlusHOCb8
static const signed char F_B[9][10] = {
    {0, 1, 2, 3, 4, 5, 48, -1}, {38, 39, 40, 41, -1}, {6, 7, 8, 9, 42, 43, -1}, {10, 11, 12, 13, 14, 15, 16, 44, 45, -1},
    {17, 18, 19, 20, 21, 46, 47, -1}, {22, 23, 25, 26, -1}, {27, 28, 29, 30, -1}, {31, 32, 33, 34, -1}, {35, 36, 37, -1}};
#endif
static int spec_field(const char* d, int f) {
    int v = 0;
    for (int i = 0; i < 9 && F_B[f][i] >= 0; i++) v = 2 * v + d[F_B[f][i]];
#if AMBE_CODEC == 2400
    if (f == 8) v = 2 * v; /* the least significant bit of b8 is not transmitted */
#endif
    return v;
}
#ifndef SPEC_M_PI
#define SPEC_M_PI 3.14159265358979323846
#define SPEC_SQRT2 1.41421356237309504880
#endif
typedef struct { float lg[57]; float ml[57]; } spec_mag_t;
/* log2 magnitudes and magnitudes of a voice/silence frame.
 * pl: previous L; plog: previous log2 magnitudes (57 entries), already as held in the previous state */
static void spec_mag(const char* d, int L, float w0, float gamma, const int* V, int pL, const float* plog, spec_mag_t* o) {
    float G[9], R[9], C[5][18], T[57], prev[58], fl[57], de[57];
    int ik[57];
    int b3 = spec_field(d, 3), b4 = spec_field(d, 4);
    G[1] = 0;
    for (int i = 0; i < 3; i++) G[2 + i] = T_24[b3][i];
    for (int i = 0; i < 4; i++) G[5 + i] = T_58[b4][i];
    for (int i = 1; i <= 8; i++) {
        float s = 0;
        for (int m = 1; m <= 8; m++) s = s + ((m == 1 ? 1.0f : 2.0f) * G[m] * cosf((SPEC_M_PI * (float)(m - 1) * ((float)i - 0.5f)) / 8.0f));
        R[i] = s;
    }
    float rc = (float)(1.0f / (2.0f * SPEC_SQRT2));
    for (int i = 1; i <= 4; i++) {
        C[i][1] = 0.5f * (R[2 * i - 1] + R[2 * i]);
        C[i][2] = rc * (R[2 * i - 1] - R[2 * i]);
        for (int k = 3; k <= 17; k++) {
            if (k > T_LM[L][i - 1]) break;
            if (k > 6) { C[i][k] = 0; continue; }
            C[i][k] = i == 1 ? T_H5[spec_field(d, 5)][k - 3] : i == 2 ? T_H6[spec_field(d, 6)][k - 3]
                    : i == 3 ? T_H7[spec_field(d, 7)][k - 3] : T_H8[spec_field(d, 8)][k - 3];
        }
    }
    int l = 1;
    for (int i = 1; i <= 4; i++) {
        int J = T_LM[L][i - 1];
        for (int j = 1; j <= J; j++) {
            float s = 0;
            for (int k = 1; k <= J; k++) s = s + ((k == 1 ? 1.0f : 2.0f) * C[i][k] * cosf((SPEC_M_PI * (float)(k - 1) * ((float)j - 0.5f)) / (float)J));
            T[l++] = s;
        }
    }
    /* previous log magnitudes: band 0 is band 1, bands above the previous L repeat the last one */
    for (int i = 1; i <= 56; i++) prev[i] = i > pL && i <= L ? plog[pL] : plog[i];
    prev[0] = prev[1];
    float S43 = 0;
    for (l = 1; l <= L; l++) {
        fl[l] = ((float)pL / (float)L) * (float)l;
        ik[l] = (int)fl[l];
        de[l] = fl[l] - (float)ik[l];
        int hi = ik[l] + 1 > 56 ? 56 : ik[l] + 1;
        S43 = S43 + (((1.0f - de[l]) * prev[ik[l]]) + (de[l] * prev[hi]));
    }
    S43 = ((0.65f / (float)L) * S43);
    float S42 = 0;
    for (l = 1; l <= L; l++) S42 += T[l];
    S42 = S42 / (float)L;
    float BG = gamma - (0.5f * log2f((float)L)) - S42;
    float unvc = 0.2046f / sqrtf(w0);
    for (l = 1; l <= L; l++) {
        int hi = ik[l] + 1 > 56 ? 56 : ik[l] + 1;
        float c1 = (0.65f * (1.0f - de[l]) * prev[ik[l]]);
        float c2 = (0.65f * de[l] * prev[hi]);
        o->lg[l] = T[l] + c1 + c2 - S43 + BG;
        o->ml[l] = V[l] == 1 ? exp2f(o->lg[l]) : unvc * exp2f(o->lg[l]);
    }
}
#endif
