/* Specification of the block codes.  Parity-check rows of the two (15,11) codes, as published for the
 * two frame formats; column i of H is the syndrome of a single error at bit i. */
#ifndef FEC_SPEC_H
#define FEC_SPEC_H
#include "golay_spec.h"
static const unsigned SPEC_H[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
static const unsigned SPEC_H7100[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
static unsigned spec_hsyn(const unsigned* h, unsigned w) {
    unsigned s = 0;
    for (int r = 0; r < 4; r++) s |= (unsigned)(vf_pop(w & h[r], 15) & 1) << r;
    return s;
}
static unsigned spec_ham(const unsigned* h, unsigned w) {
    unsigned s = spec_hsyn(h, w), m = 0;
    for (int i = 0; i < 15; i++) {
        unsigned c = 0;
        for (int r = 0; r < 4; r++) c |= ((h[r] >> i) & 1u) << r;
        if (s != 0 && c == s) m |= 1u << i;
    }
    return w ^ m;
}
static int spec_hame(const unsigned* h, unsigned w) { return spec_hsyn(h, w) != 0; }

/* In modular (DFCC) tasks the callee's result is an uninterpreted function of the packed word, exactly
 * the view its contract gives; in plain / native builds it is the spec function itself. */
#if defined(VF_NATIVE) || defined(VF_PLAIN)
#define S_GOL(w) spec_gol(w)
#define S_HAM(w) spec_ham(SPEC_H, w)
#define S_HAME(w) spec_hame(SPEC_H, w)
#define S_HAM7(w) spec_ham(SPEC_H7100, w)
#define S_HAM7E(w) spec_hame(SPEC_H7100, w)
#define VF_FEC_CALLEES
#else
unsigned __CPROVER_uninterpreted_gol(unsigned);
unsigned __CPROVER_uninterpreted_ham(unsigned);
unsigned __CPROVER_uninterpreted_hame(unsigned);
unsigned __CPROVER_uninterpreted_ham7(unsigned);
unsigned __CPROVER_uninterpreted_ham7e(unsigned);
#define S_GOL(w) (__CPROVER_uninterpreted_gol(w) & 0xfffu)
#define S_HAM(w) (__CPROVER_uninterpreted_ham(w) & 0x7fffu)
#define S_HAME(w) ((int)(__CPROVER_uninterpreted_hame(w) & 1u))
#define S_HAM7(w) (__CPROVER_uninterpreted_ham7(w) & 0x7fffu)
#define S_HAM7E(w) ((int)(__CPROVER_uninterpreted_ham7e(w) & 1u))
#define VF_FEC_CALLEES \
int mbe_golay2312(const char* in, char* out) __CPROVER_requires(__CPROVER_r_ok(in, 23) && __CPROVER_w_ok(out, 23) && vf_bits01(in, 23)) \
  __CPROVER_assigns(__CPROVER_object_upto(out, 23)) \
  __CPROVER_ensures(vf_bits01(out, 23) && vf_pack(out, 23) == ((S_GOL(vf_pack(in, 23)) << 11) | (vf_pack(in, 23) & 0x7ffu))) \
  __CPROVER_ensures(__CPROVER_return_value == vf_pop(S_GOL(vf_pack(in, 23)) ^ (vf_pack(in, 23) >> 11), 12)); \
int mbe_hamming1511(const char* in, char* out) __CPROVER_requires(__CPROVER_r_ok(in, 15) && __CPROVER_w_ok(out, 15) && vf_bits01(in, 15)) \
  __CPROVER_assigns(__CPROVER_object_upto(out, 15)) \
  __CPROVER_ensures(vf_bits01(out, 15) && vf_pack(out, 15) == S_HAM(vf_pack(in, 15))) __CPROVER_ensures(__CPROVER_return_value == S_HAME(vf_pack(in, 15))); \
int mbe_7100x4400hamming1511(const char* in, char* out) __CPROVER_requires(__CPROVER_r_ok(in, 15) && __CPROVER_w_ok(out, 15) && vf_bits01(in, 15)) \
  __CPROVER_assigns(__CPROVER_object_upto(out, 15)) \
  __CPROVER_ensures(vf_bits01(out, 15) && vf_pack(out, 15) == S_HAM7(vf_pack(in, 15))) __CPROVER_ensures(__CPROVER_return_value == S_HAM7E(vf_pack(in, 15)));
#endif
static int spec_gole(unsigned w) { return vf_pop(S_GOL(w) ^ ((w >> 11) & 0xfffu), 12); }
#endif
