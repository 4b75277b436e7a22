/* C03-C05: frame-level error correction and packing, over the contracts of the block decoders.
 * FN: 1 AMBE C0, 2 AMBE Data, 3 IMBE7200 C0, 4 IMBE7200 Data, 5 IMBE7100 C0, 6 IMBE7100 Data, 7 7100->7200 order
 * FUN: the public function under contract */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "fec_spec.h"
VF_FEC_CALLEES

#if FN <= 2
#define ROWS 4
#define COLS 24
#define FSZ 96
typedef vf_c96 frame_t;
#elif FN <= 4
#define ROWS 8
#define COLS 23
#define FSZ 184
typedef vf_c184 frame_t;
#else
#define ROWS 7
#define COLS 24
#define FSZ 168
typedef vf_c168 frame_t;
#endif
#if FN <= 2
#define ND 49
typedef vf_c49 data_t;
#else
#define ND 88
typedef vf_c88 data_t;
#endif

static frame_t in_fr, old_fr;
static data_t in_d, old_d;
#define VF_INPUTS(X) X(frame_t, in_fr) X(data_t, in_d)
#define FR(i, j) in_fr.v[(i) * COLS + (j)]
#define OFR(i, j) old_fr.v[(i) * COLS + (j)]
#define OROW(i) (&old_fr.v[(i) * COLS])

/* the cells of the frame array that carry transmitted bits */
static int carried(int i, int j) {
#if FN <= 2
    return i == 0 ? 1 : i == 1 ? j <= 22 : i == 2 ? j <= 10 : j <= 13;
#elif FN <= 4
    return i < 4 ? 1 : i < 7 ? j <= 14 : j <= 6;
#else
    return i == 0 ? j <= 18 : i == 1 ? 1 : i < 4 ? j <= 22 : i < 6 ? j <= 14 : j <= 22;
#endif
}
static int vf_pre(void) {
    int ok = 1;
#if FN == 7
    ok = vf_bits01(in_d.v, ND);
#else
    for (int i = 0; i < ROWS; i++) for (int j = 0; j < COLS; j++) if (carried(i, j)) ok &= (FR(i, j) == 0) | (FR(i, j) == 1);
#endif
    return ok;
}
static void vf_setup(void) { old_fr = in_fr; old_d = in_d; }
/* every frame cell outside row r, [lo,hi] keeps its value */
static int frame_same_except(int r, int lo, int hi) {
    int ok = 1;
    for (int i = 0; i < ROWS; i++) for (int j = 0; j < COLS; j++) if (!(i == r && j >= lo && j <= hi)) ok &= FR(i, j) == OFR(i, j);
    return ok;
}
/* MSB-first data bits d[p..p+n) equal value v */
static int dbits(int p, unsigned v, int n) { int ok = 1; for (int b = 0; b < n; b++) ok &= in_d.v[p + b] == (char)((v >> (n - 1 - b)) & 1u); return ok; }

#if FN == 1 || FN == 3 || FN == 5
static unsigned c0word(void) {
#if FN == 1
    return vf_pack(OROW(0) + 1, 23);
#elif FN == 3
    return vf_pack(OROW(0), 23);
#else
    return vf_pack(OROW(0) + 1, 18); /* shortened: the five missing data bits are zero */
#endif
}
static int post_word(void) {
    unsigned w = c0word(), x = (S_GOL(w) << 11) | (w & 0x7ffu);
#if FN == 1
    return vf_pack(&FR(0, 1), 23) == x;
#elif FN == 3
    return vf_pack(&FR(0, 0), 23) == x;
#else
    return vf_pack(&FR(0, 1), 18) == (x & 0x3ffffu);
#endif
}
static int post_bits(void) { int ok = 1; for (int j = 0; j < COLS; j++) if (carried(0, j)) ok &= (FR(0, j) == 0) | (FR(0, j) == 1); return ok; }
#if FN == 1
static int parity_fix(void) { return spec_gole(c0word()) == 0 && (vf_pop(vf_pack(OROW(0), 24), 24) & 1); }
static int post_par(void) { return FR(0, 0) == (char)(OFR(0, 0) ^ parity_fix()); }
static int post_cnt(int r) { return r == spec_gole(c0word()) + parity_fix(); }
static int post_frame(void) { return frame_same_except(0, 0, 23); }
#elif FN == 3
static int post_par(void) { return 1; }
static int post_cnt(int r) { return r == spec_gole(c0word()); }
static int post_frame(void) { return frame_same_except(0, 0, 22); }
#else
static int post_par(void) { return FR(0, 0) == OFR(0, 0); }
static int post_cnt(int r) { return r == spec_gole(c0word()); }
static int post_frame(void) { return frame_same_except(0, 1, 18); }
#endif
#define POST(E) E(post_bits(), "C0 cells are bits") E(post_word(), "C0 holds the Golay-corrected word") E(post_par(), "extension/parity cell") \
    E(post_cnt(VF_RET), "returned C0 error count") E(post_frame(), "rest of the frame untouched")
VF_CONTRACT(int FUN(char fr[ROWS][COLS]), ((char*)fr == in_fr.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(fr)))
static void vf_call(void) { int vf_ret = FUN((char(*)[COLS])in_fr.v); POST(VF_CHK) }

#elif FN == 7
#include "k_spec.h"
static int b0(void) { const char* d = old_d.v; return d[1] * 128 + d[2] * 64 + d[3] * 32 + d[4] * 16 + d[5] * 8 + d[6] * 4 + d[86] * 2 + d[87]; }
static int post_order(void) {
    /* destination order of the 7200 layout, source positions in the 7100 layout */
    int K = SPEC_K[b0()], ok = 1;
    ok &= in_d.v[87] == old_d.v[0];
    for (int i = 0; i < 12; i++) if (i < K) ok &= in_d.v[48 + i] == old_d.v[44 + i]; /* the K voicing bits */
    ok &= in_d.v[48 + K] == old_d.v[42];
    ok &= in_d.v[49 + K] == old_d.v[43];
    for (int j = 0; j < 41; j++) ok &= in_d.v[j] == old_d.v[j + 1]; /* head */
    for (int m = 0; m < 46; m++) { /* remaining bits, in order */
        int dst = 41 + m < 48 ? 41 + m : 41 + m + K + 2;
        int src = 44 + K + m;
        if (dst < 87 && src < 88) ok &= in_d.v[dst] == old_d.v[src];
    }
    return ok;
}
#define POST(E) E(post_order(), "7100 order rearranged into 7200 order")
VF_CONTRACT(void FUN(char* d), (d == in_d.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(d)))
static void vf_call(void) { FUN(in_d.v); POST(VF_CHK) }

#else
static int post_frame(void) { return frame_same_except(-1, 0, 0); }
static int post_bits(void) { return vf_bits01(in_d.v, ND); }
static int post_data(void) {
    int ok = 1;
#if FN == 2
    ok &= dbits(0, vf_pack(OROW(0) + 12, 12), 12);
    ok &= dbits(12, S_GOL(vf_pack(OROW(1), 23)), 12);
    ok &= dbits(24, vf_pack(OROW(2), 11), 11);
    ok &= dbits(35, vf_pack(OROW(3), 14), 14);
#elif FN == 4
    ok &= dbits(0, vf_pack(OROW(0), 23) >> 11, 12);
    for (int i = 1; i < 4; i++) ok &= dbits(12 * i, S_GOL(vf_pack(OROW(i), 23)), 12);
    for (int i = 4; i < 7; i++) ok &= dbits(48 + 11 * (i - 4), S_HAM(vf_pack(OROW(i), 15)) >> 4, 11);
    ok &= dbits(81, vf_pack(OROW(7), 7), 7);
#else
    ok &= dbits(0, vf_pack(OROW(0) + 12, 7), 7);
    ok &= dbits(7, S_GOL(vf_pack(OROW(1) + 1, 23)), 12);
    ok &= dbits(19, S_GOL(vf_pack(OROW(2), 23)), 12);
    ok &= dbits(31, S_GOL(vf_pack(OROW(3), 23)), 12);
    ok &= dbits(43, S_HAM7(vf_pack(OROW(4), 15)) >> 4, 11);
    ok &= dbits(54, S_HAM7(vf_pack(OROW(5), 15)) >> 4, 11);
    ok &= dbits(65, vf_pack(OROW(6), 23), 23);
#endif
    return ok;
}
static int post_cnt(int r) {
#if FN == 2
    return r == spec_gole(vf_pack(OROW(1), 23));
#elif FN == 4
    int e = 0;
    for (int i = 1; i < 4; i++) e += spec_gole(vf_pack(OROW(i), 23));
    for (int i = 4; i < 7; i++) e += S_HAME(vf_pack(OROW(i), 15));
    return r == e;
#else
    int e = spec_gole(vf_pack(OROW(1) + 1, 23)) + spec_gole(vf_pack(OROW(2), 23)) + spec_gole(vf_pack(OROW(3), 23));
    for (int i = 4; i < 6; i++) e += S_HAM7E(vf_pack(OROW(i), 15));
    return r == e;
#endif
}
#define POST(E) E(post_bits(), "data cells are bits") E(post_data(), "corrected information bits in transmission order") \
    E(post_cnt(VF_RET), "returned error count = sum over protected vectors") E(post_frame(), "frame array untouched")
VF_CONTRACT(int FUN(char fr[ROWS][COLS], char* d), ((char*)fr == in_fr.v && d == in_d.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(d)))
static void vf_call(void) { int vf_ret = FUN((char(*)[COLS])in_fr.v, in_d.v); POST(VF_CHK) }
#endif

#define VF_HAS_GEN
#ifdef VF_NATIVE
static void put(char* row, unsigned w, int n, int maxe) {
    int e = (int)(vf_rnd() % (unsigned)(maxe + 1));
    for (int i = 0; i < e; i++) w ^= 1u << (vf_rnd() % (unsigned)n);
    for (int i = 0; i < n; i++) row[i] = (char)((w >> i) & 1);
}
static void vf_gen(void) {
    vf_rndbits(in_fr.v, FSZ); vf_rndbits(in_d.v, ND);
    int me = (int)(vf_rnd() % 5);
    for (int i = 0; i < ROWS; i++) {
        char* row = &FR(i, 0);
        if (vf_rnd() & 1) continue;
#if FN <= 2
        if (i == 0) { put(row + 1, spec_enc(vf_rnd() & 0xfff), 23, me); row[0] = (char)((vf_pop(vf_pack(row + 1, 23), 23) & 1) ^ (vf_rnd() % 4 == 0)); }
        if (i == 1) put(row, spec_enc(vf_rnd() & 0xfff), 23, me);
#elif FN <= 4
        if (i < 4) put(row, spec_enc(vf_rnd() & 0xfff), 23, me);
        else if (i < 7) put(row, spec_ham(SPEC_H, vf_rnd() & 0x7fff), 15, me);
#else
        if (i == 0) put(row + 1, spec_enc(vf_rnd() & 0x7f), 18, me);
        if (i == 1) put(row + 1, spec_enc(vf_rnd() & 0xfff), 23, me);
        if (i == 2 || i == 3) put(row, spec_enc(vf_rnd() & 0xfff), 23, me);
        if (i == 4 || i == 5) put(row, spec_ham(SPEC_H7100, vf_rnd() & 0x7fff), 15, me);
#endif
    }
}
#endif
#include "vf_main.h"
