/* C02: (15,11) Hamming decoding, both parity-check matrices.  FN=1 standard, FN=2 the 7100x4400 variant */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "fec_spec.h"
#if FN == 1
#define FUN mbe_hamming1511
#define H SPEC_H
#else
#define FUN mbe_7100x4400hamming1511
#define H SPEC_H7100
#endif
static vf_c15 in_b, in_o, old_b;
static unsigned g_w;
#define VF_INPUTS(X) X(vf_c15, in_b) X(vf_c15, in_o)
static int vf_pre(void) { return vf_bits01(in_b.v, 15); }
static void vf_setup(void) { old_b = in_b; g_w = vf_pack(in_b.v, 15); }
static unsigned outw(void) { return vf_pack(in_o.v, 15); }
static int post_bits(void) { return vf_bits01(in_o.v, 15); }
static int post_code(void) { return spec_hsyn(H, outw()) == 0; }
static int post_near(int r) { return vf_pop(outw() ^ g_w, 15) == r && (r == 0 || r == 1); }
static int post_cnt(int r) { return (r == 0) == (spec_hsyn(H, g_w) == 0); }
static int post_spec(int r) { return outw() == spec_ham(H, g_w) && r == spec_hame(H, g_w); }
static int post_in(void) { int ok = 1; for (int i = 0; i < 15; i++) ok &= in_b.v[i] == old_b.v[i]; return ok; }
#define POST(E) E(post_bits(), "output cells are bits") E(post_code(), "output is a codeword (zero syndrome)") \
    E(post_near(VF_RET), "output differs from input in exactly the returned number of bits (0 or 1)") \
    E(post_cnt(VF_RET), "0 is returned exactly for codewords") E(post_spec(VF_RET), "agrees with the spec function used by callers") \
    E(post_in(), "input word not modified")
VF_CONTRACT(int FUN(const char* in, char* out), (in == in_b.v && out == in_o.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(out)))
static void vf_call(void) { int vf_ret = FUN(in_b.v, in_o.v); POST(VF_CHK) }
#define VF_HAS_GEN
#ifdef VF_NATIVE
static void vf_gen(void) { vf_rndbits(in_b.v, 15); }
#endif
#include "vf_main.h"
