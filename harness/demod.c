/* C06: pseudo-noise demodulation.  CODEC: 1 AMBE 3600 (two entry points), 2 IMBE 7200x4400, 3 IMBE 7100x4400 */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#if CODEC == 1
#define ROWS 4
#define COLS 24
#define FSZ 96
typedef vf_c96 frame_t;
#define SEEDHI 23
#define SEEDLO 12
#elif CODEC == 2
#define ROWS 8
#define COLS 23
#define FSZ 184
typedef vf_c184 frame_t;
#define SEEDHI 22
#define SEEDLO 11
#else
#define ROWS 7
#define COLS 24
#define FSZ 168
typedef vf_c168 frame_t;
#define SEEDHI 18
#define SEEDLO 12
#endif
static frame_t in_fr, old_fr;
#define VF_INPUTS(X) X(frame_t, in_fr)
#define FR(i, j) in_fr.v[(i) * COLS + (j)]
#define OFR(i, j) old_fr.v[(i) * COLS + (j)]
/* number of modulated cells of row i, most significant first; 0 = row not modulated */
static int nmod(int i) {
#if CODEC == 1
    return i == 1 ? 23 : 0;
#elif CODEC == 2
    return i == 0 ? 0 : i < 4 ? 23 : i < 7 ? 15 : 0;
#else
    return i == 1 ? 24 : i == 2 || i == 3 ? 23 : i == 4 || i == 5 ? 15 : 0;
#endif
}
static int vf_pre(void) {
    int ok = 1;
    for (int j = SEEDLO; j <= SEEDHI; j++) ok &= (FR(0, j) == 0) | (FR(0, j) == 1);
    for (int i = 1; i < ROWS; i++) for (int j = 0; j < COLS; j++) if (j < nmod(i)) ok &= (FR(i, j) == 0) | (FR(i, j) == 1);
    return ok;
}
static void vf_setup(void) { old_fr = in_fr; }
static int post_demod(void) {
    unsigned x = 0; int ok = 1;
    for (int j = SEEDHI; j >= SEEDLO; j--) x = 2 * x + (unsigned)OFR(0, j);
    x = (16u * x) & 0xffffu;
    for (int i = 1; i < ROWS; i++)
        for (int j = nmod(i) - 1; j >= 0; j--) {
            x = (173u * x + 13849u) & 0xffffu;
            ok &= FR(i, j) == (char)((unsigned)OFR(i, j) ^ (x >> 15));
        }
    return ok;
}
static int post_rest(void) {
    int ok = 1;
    for (int i = 0; i < ROWS; i++) for (int j = 0; j < COLS; j++) if (j >= nmod(i)) ok &= FR(i, j) == OFR(i, j);
    return ok;
}
#define POST(E) E(post_demod(), "modulated cells are XORed with the seeded pseudo-noise sequence") E(post_rest(), "all other cells untouched")
VF_CONTRACT(void FUN(char fr[ROWS][COLS]), ((char*)fr == in_fr.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(fr)))
#ifndef VF_NATIVE
#include "stub_strtol.h"
#endif
static void vf_call(void) { FUN((char(*)[COLS])in_fr.v); POST(VF_CHK) }
#define VF_HAS_GEN
#ifdef VF_NATIVE
static void vf_gen(void) { vf_rndbits(in_fr.v, FSZ); }
#endif
#include "vf_main.h"
