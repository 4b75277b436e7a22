/* C01: (23,12) Golay decoding.  FN=1 mbe_checkGolayBlock, FN=2 mbe_golay2312, FN=3 spec lemmas */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "golay_spec.h"

#if FN == 1
static long in_w;
static long io_w;
#define VF_INPUTS(X) X(long, in_w)
static int vf_pre(void) { return in_w >= 0 && in_w < (1L << 23); }
static void vf_setup(void) { io_w = in_w; }
static int post_data(long r) { return r == (long)spec_gol((unsigned)in_w); }
#define POST(E) E(post_data(io_w), "packed word becomes the 12 data bits of the nearest codeword")
VF_CONTRACT(void mbe_checkGolayBlock(long int* block), (block == &io_w && io_w == in_w && vf_pre()), POST, VF_A(*block))
static void vf_call(void) { mbe_checkGolayBlock(&io_w); POST(VF_CHK) }
#define VF_HAS_GEN
#ifdef VF_NATIVE
static void vf_gen(void) { in_w = (long)(vf_rnd() & 0x7fffff); }
#endif

#elif FN == 2
static vf_c23 in_b;
static vf_c23 in_o;
static unsigned g_w;
#define VF_INPUTS(X) X(vf_c23, in_b) X(vf_c23, in_o)
static int vf_pre(void) { return vf_bits01(in_b.v, 23); }
static vf_c23 old_b;
static void vf_setup(void) { old_b = in_b; g_w = vf_pack(in_b.v, 23); }
static int post_bits(void) { return vf_bits01(in_o.v, 23); }
static int post_data(void) { return (vf_pack(in_o.v, 23) >> 11) == spec_gol(g_w); }
static int post_par(void) { return (vf_pack(in_o.v, 23) & 0x7ffu) == (g_w & 0x7ffu); }
static int post_cnt(int r) { return r == vf_pop(spec_gol(g_w) ^ (g_w >> 11), 12) && r >= 0 && r <= 3; }
static int post_in(void) { int ok = 1; for (int i = 0; i < 23; i++) ok &= in_b.v[i] == old_b.v[i]; return ok; }
#define POST(E) E(post_bits(), "output cells are bits") E(post_data(), "data bits are those of the nearest codeword") \
    E(post_par(), "parity cells are passed through") E(post_cnt(VF_RET), "returned count = number of data bits changed (0..3)") \
    E(post_in(), "input word not modified")
VF_CONTRACT(int mbe_golay2312(const char* in, char* out), (in == in_b.v && out == in_o.v && vf_pre()), POST, VF_A(__CPROVER_object_whole(out)))
static void vf_call(void) { int vf_ret = mbe_golay2312(in_b.v, in_o.v); POST(VF_CHK) }
#define VF_HAS_GEN
#ifdef VF_NATIVE
static void vf_gen(void) { vf_rndbits(in_b.v, 23); }
#endif

#else /* lemmas over the specification itself */
static unsigned in_x, in_y, in_s;
#define VF_INPUTS(X) X(unsigned, in_x) X(unsigned, in_y) X(unsigned, in_s)
static int vf_pre(void) { return in_x < 4096 && in_y < 4096 && in_s < 2048; }
static void vf_setup(void) {}
static void vf_call(void) {
#ifndef VF_NATIVE
    __CPROVER_assume(vf_pre());
#endif
    VF_ASSERT(spec_par(in_x ^ in_y) == (spec_par(in_x) ^ spec_par(in_y)), "lemma: parity is linear")
    /* the chosen error pattern has weight <= 3: nearest codeword is within distance 3 */
    unsigned d = GT[in_s];
    VF_ASSERT(vf_pop(d, 12) + vf_pop(in_s ^ spec_par(d), 11) <= 3, "lemma: coset leader weight <= 3")
    /* every pattern of weight <= 3 is recovered */
    unsigned e = (in_x << 11) | in_s;
    VF_ASSERT(!(vf_pop(e, 23) <= 3) || GT[spec_par(in_x) ^ in_s] == in_x, "lemma: every error pattern of weight <= 3 is its coset leader")
}
#endif
#include "vf_main.h"
