/* C16: noise generators and their seeding.
 * FN 1 comfort noise, one frame from an arbitrary generator state   2 comfort noise of a thread that never seeded
 * 3 seeding, from any earlier generator state   4 unvoiced noise, running   5 unvoiced noise, cold start, no seed given
 * 6 cold start after seeding */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbe_adaptive.h"
#include "mbe_unvoiced_fft.h"
typedef struct { float v[256]; } vf_f256;
typedef struct { float v[96]; } vf_f96;
static unsigned in_seed, in_a, in_b; static unsigned long long in_s48, in_t48; static vf_f256 in_buf; static vf_f96 in_ov; static float in_ns; static vf_f160 in_out; static int in_n;
#define VF_INPUTS(X) X(unsigned, in_seed) X(unsigned long long, in_s48) X(unsigned long long, in_t48) X(vf_f256, in_buf) X(vf_f96, in_ov) X(float, in_ns) X(vf_f160, in_out) X(unsigned, in_a) X(unsigned, in_b) X(int, in_n)
static int vf_pre(void) {
#if FN == 4
    return in_ns >= 0.0f && in_ns < 4294967296.0f;
#elif FN >= 5
    return in_ns < 0.0f;
#else
    return 1;
#endif
}
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    if (!(vf_rnd() & 7)) in_seed = vf_rnd() & 1;
    in_n = (int)(vf_rnd() & 3);
    for (int i = 0; i < 96; i++) in_ov.v[i] = (float)(vf_rnd() % 53125);
    in_ns = FN == 4 ? (float)(vf_rnd() % 53125) : FN >= 5 ? -1.0f - (float)(vf_rnd() & 1) : 0.0f;
    for (int i = 0; i < 256; i++) in_buf.v[i] = vf_rndf(-5.0f, 5.0f);
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) { VF_REAL}
#define MULT 0x5DEECE66DULL
#define M48 ((1ULL << 48) - 1)
static unsigned spec_seed(unsigned s) { return s ? s : 0x6d25357bu; }
/* java.util.Random.nextFloat() scaled to [-1, 1) and to the level 0.003 of full scale */
static void spec_comfort(unsigned long long* s, float* out) {
    for (int i = 0; i < 160; i++) {
        *s = (*s * MULT + 11) & M48;
        out[i] = ((float)(unsigned)(*s >> 24) / 16777216.0f * 2.0f - 1.0f) * (0.003f * 32767.0f / 7.0f);
    }
}
static void vf_call(void) {
    vf_f160 out = in_out, r; int ok; unsigned long long s = 0;
#ifdef VF_SYM
    unsigned long long* st = (unsigned long long*)vf_static("mbe_comfort_noise_seed48"); int* seeded = (int*)vf_static("mbe_comfort_noise_seeded");
    unsigned* us = (unsigned*)vf_static("mbe_unvoiced_seed_state"); int* uo = (int*)vf_static("mbe_unvoiced_seed_override");
#endif
#if FN == 1
#ifdef VF_SYM
    if (st && seeded) { *st = in_s48; s = in_s48; *seeded = 1; } else
#endif
    { mbe_setThreadRngSeed(in_seed); s = ((unsigned long long)spec_seed(in_seed) ^ MULT) & M48; }
#ifdef VF_NATIVE
    for (int i = 0; i < in_n; i++) { mbe_synthesizeComfortNoisef(out.v); spec_comfort(&s, r.v); }
#endif
    mbe_synthesizeComfortNoisef(out.v); spec_comfort(&s, r.v);
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(out.v[i], r.v[i]);
    VF_CHK(ok, "160 samples of the generator at the comfort level")
#ifdef VF_SYM
    if (st && seeded) { VF_CHK(*st == s && *seeded, "generator advanced by exactly 160 steps") }
    mbe_synthesizeComfortNoisef(out.v); spec_comfort(&s, r.v);
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(out.v[i], r.v[i]);
    VF_CHK(ok, "the next frame continues the sequence")
#endif
#elif FN == 2
#ifdef VF_SYM
    s = (0x12345678ULL ^ MULT) & M48;
    mbe_synthesizeComfortNoisef(out.v); spec_comfort(&s, r.v);
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(out.v[i], r.v[i]);
    VF_CHK(ok, "unseeded thread uses the default seed")
#endif
#elif FN == 3
#ifdef VF_SYM
    if (st) *st = in_t48;
    if (seeded) *seeded = in_n;
    if (us) *us = in_a;
    if (uo) *uo = (int)in_b;
#endif
    mbe_setThreadRngSeed(in_seed);
    s = ((unsigned long long)spec_seed(in_seed) ^ MULT) & M48;
    mbe_synthesizeComfortNoisef(out.v); spec_comfort(&s, r.v);
    ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(out.v[i], r.v[i]);
    VF_CHK(ok, "comfort noise after seeding depends on the seed only")
#elif FN == 4
    vf_f256 b = in_buf; vf_f96 o = in_ov; float ns = in_ns; unsigned x = (unsigned)in_ns % 53125u;
    mbe_generate_noise_with_overlap(b.v, &ns, o.v);
    ok = 1; for (int i = 0; i < 96; i++) ok &= VF_SAMEF(b.v[i], in_ov.v[i]);
    VF_CHK(ok, "head of the buffer is the kept overlap")
    ok = 1; for (int i = 96; i < 256; i++) { ok &= VF_SAMEF(b.v[i], (float)x); x = (171u * x + 11213u) % 53125u; }
    VF_CHK(ok, "tail of the buffer is the generator sequence")
    VF_CHK(VF_SAMEF(ns, (float)x), "generator state advanced by 160 steps")
    ok = 1; for (int i = 0; i < 96; i++) ok &= VF_SAMEF(o.v[i], b.v[160 + i]);
    VF_CHK(ok, "overlap kept for the next frame is the last 96 samples")
#else
    vf_f256 b = in_buf; vf_f96 o = in_ov; float ns = in_ns;
#ifdef VF_SYM
    if (us) *us = in_a;
    if (uo) *uo = FN == 5 ? 0 : (int)in_b;
#else
    if (FN == 5) { float q = -1.0f; mbe_setThreadRngSeed(1); mbe_generate_noise_with_overlap(b.v, &q, o.v); b = in_buf; o = in_ov; } /* a seed serves one cold start */
#endif
    if (FN == 6) mbe_seedUnvoicedNoiseLcg(in_seed);
    if (FN == 6 && in_n & 1) mbe_setThreadRngSeed(in_seed);
    mbe_generate_noise_with_overlap(b.v, &ns, o.v);
    ok = 1; for (int i = 0; i < 256; i++) ok &= VF_SAMEF(b.v[i], 0.0f);
    VF_CHK(ok, "cold start: first buffer is zero")
    ok = 1; for (int i = 0; i < 96; i++) ok &= VF_SAMEF(o.v[i], 0.0f);
    VF_CHK(ok, "cold start: overlap is zero")
#if FN == 6
    VF_CHK(VF_SAMEF(ns, (float)(spec_seed(in_seed) % 53125u)), "cold start: generator starts from the seed")
    ns = -1.0f;
    mbe_generate_noise_with_overlap(b.v, &ns, o.v);
#endif
    VF_CHK(VF_SAMEF(ns, 3147.0f), "cold start without a (new) seed: generator starts from 3147")
#endif
    (void)r; (void)s; (void)ok; (void)out;
}
#include "vf_main.h"
