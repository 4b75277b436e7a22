/* C19: speech synthesis of one frame.
 * FN 1 audible frame   2 muted frame   3 the transform plan: made once per thread, absent when memory runs out */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include "mbe_adaptive.h"
#include "mbe_unvoiced_fft.h"
#include "parms.h"
#include <math.h>
#if FN == 3
#include "oom.h"
#ifdef VF_NATIVE
#include <pthread.h>
#endif
#endif
#define PI 3.14159265358979323846
#define TWO_PI (2.0f * (float)PI)
typedef struct { float v[256]; } vf_f256;
static mbe_parms in_cur, in_prev, in_sm; static vf_f256 in_noise; static vf_f160 in_out; static int in_plan;
#define VF_INPUTS(X) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(mbe_parms, in_sm) X(vf_f256, in_noise) X(vf_f160, in_out) X(int, in_plan)
static int vf_pre(void) { return 1; }
static void vf_setup(void) {}
static int silent_rate(void) { return fabsf(in_cur.mutingThreshold - 0.096f) > 1e-6f; }
/* a frame is muted after too many repeats, or, for IMBE, when its error rate is above the threshold */
static int spec_muted(void) { return in_cur.repeatCount >= 4 || (silent_rate() && in_cur.errorRate > in_cur.mutingThreshold); }
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev);
    if (vf_rnd() & 3) in_cur.w0 = in_prev.w0 * vf_rndf(0.93f, 1.07f);
    if (vf_rnd() & 1) { in_cur.repeatCount &= 3; in_cur.errorRate *= 0.1f; }
    if (!(vf_rnd() & 7)) { int v = (int)(vf_rnd() & 1); for (int l = 0; l < 57; l++) in_cur.Vl[l] = v; }
    if (!(vf_rnd() & 7)) { int v = (int)(vf_rnd() & 1); for (int l = 0; l < 57; l++) in_prev.Vl[l] = v; }
    if (vf_rnd() & 1) for (int l = 0; l < 57; l++) { in_cur.Ml[l] *= 0.02f; in_prev.Ml[l] *= 0.02f; }
#if FN == 3
    if (vf_rnd() & 3) { in_cur.repeatCount = 0; in_cur.errorRate = 0.0f; }
    in_plan = (int)(vf_rnd() & 3);
#endif
}
#endif
#define VF_HAS_SYM
static void vf_sym(void) { VF_REAL
#if FN == 3
    in_cur.L = 9; in_prev.L = 10;
#else
    in_cur.L = vf_sym_range(8, 9, 56);
    in_prev.L = vf_sym_range(1, 9, 56);
#endif
    in_cur.repeatCount = vf_sym_range(2, 0, 7);
    in_cur.errorCountTotal = vf_sym_range(3, 0, 255);
    for (int l = 0; l < 57; l++) { in_cur.Vl[l] = vf_sym_bit(4, l); in_prev.Vl[l] = vf_sym_bit(5, l); in_sm.Vl[l] = vf_sym_bit(6, l); }
#ifdef VF_SYM
    vf_push(6); vf_seal(3);
#endif
    in_plan = FN == 3 ? vf_task(0, 0, 3) : 0;
}
/* ---- contracts of the callees (symbolic runs): arbitrary results, recorded arguments */
#ifdef VF_SYM
static vf_f160 o_uv, o_cn, r_mix; static int n_sm, n_gen, n_cn, n_uv, n_alloc, n_bad, step; static char plan_obj; static mbe_parms *c_, *p_;
void vf_stub_mbe_applyAdaptiveSmoothing(mbe_parms* c, const mbe_parms* p) {
    n_sm++; if (step++ != 0 || c != c_ || p != p_) n_bad++;
    for (int l = 0; l < 57; l++) { c->Vl[l] = in_sm.Vl[l]; c->Ml[l] = in_sm.Ml[l]; }
    c->localEnergy = in_sm.localEnergy; c->amplitudeThreshold = 77;
}
void vf_stub_mbe_generate_noise_with_overlap(float* b, float* s, float* o) {
    n_gen++; if (s != &c_->noiseSeed || o != c_->noiseOverlap) n_bad++;
    *s = 5.0f; o[7] = 3.0f; for (int i = 0; i < 256; i++) b[i] = in_noise.v[i];
}
void vf_stub_mbe_synthesizeComfortNoisef(float* out) { n_cn++; step++; for (int n = 0; n < 160; n++) out[n] = o_cn.v[n]; }
mbe_fft_plan* vf_stub_mbe_fft_plan_alloc(void) { n_alloc++; return (in_plan & 1) || (in_plan == 2 && n_alloc == 1) ? 0 : (mbe_fft_plan*)&plan_obj; }
void vf_stub_mbe_synthesizeUnvoicedFFTWithNoise(float* out, mbe_parms* c, const mbe_parms* p, mbe_fft_plan* pl, const float* nz) {
    n_uv++; step++; if (c != c_ || p != p_ || pl != (mbe_fft_plan*)&plan_obj) n_bad++;
    for (int i = 0; i < 256; i++) if (!VF_SAMEF(nz[i], in_noise.v[i])) n_bad++;
    for (int n = 0; n < 160; n++) { r_mix.v[n] = out[n]; out[n] = o_uv.v[n]; }
    c->previousUw[9] = 11.0f;
}
#endif
/* ---- the specification (JMBE algorithms 127 to 141) */
static float spec_Ws(int n) { return n <= 55 || n >= 265 ? 0.0f : n < 105 ? (float)((n - 55) / 50.0) : n <= 215 ? 1.0f : (float)((265 - n) / 50.0); }
static void spec_osc(float* y, int w, float amp, float phase, float dw) {
    float s = sinf(phase), c = cosf(phase), sd = sinf(dw), cd = cosf(dw);
    for (int n = 0; n < 160; n++) {
        float t;
#ifdef TU_MBELIB_ENABLE_SIMD
        y[n] += (c * spec_Ws(n + w)) * (2.0f * amp);
#else
        y[n] += 2.0f * spec_Ws(n + w) * amp * c;
#endif
        t = (c * cd) - (s * sd); s = (s * cd) + (c * sd); c = t;
    }
}
static int spec_state(mbe_parms* c, mbe_parms* p, const float* nz) {
    int uv = 0, L = c->L, m;
    for (int l = 0; l <= L; l++) if (c->Vl[l] == 0) uv++;
    m = L > p->L ? L : p->L;
    for (int l = 1; l <= 56; l++) {
        if (l > p->L && l <= L) { p->Ml[l] = 0.0f; p->Vl[l] = 1; }
        if (l > L && l <= p->L) { c->Ml[l] = 0.0f; c->Vl[l] = 1; }
    }
    for (int l = 1; l <= 56; l++) {
        float a = fmodf(p->PSIl[l], TWO_PI);
        if (a < 0.0f) a += TWO_PI;
        p->PSIl[l] = a;
        c->PSIl[l] = a + (p->w0 + c->w0) * ((float)(l * 160) / 2.0f);
        c->PHIl[l] = c->PSIl[l];
        if (l > L / 4) c->PHIl[l] += (float)uv * (TWO_PI / 53125.0f * nz[l] - (float)PI) / (float)L;
    }
    return m;
}
static void spec_voiced(const mbe_parms* c, const mbe_parms* p, int m, float* y) {
    float cw = c->w0, pw = p->w0;
    for (int n = 0; n < 160; n++) y[n] = 0.0f;
    for (int l = 1; l <= m; l++) {
        if (c->Vl[l] == 1 || p->Vl[l] == 1) {
            if (l < 8 && c->Vl[l] == 1 && p->Vl[l] == 1 && fabsf(cw - pw) < 0.1f * cw) {
                float d = c->PHIl[l] - p->PHIl[l] - (pw + cw) * (float)(l * 160) / 2.0f;
                float dw = (1.0f / 160.0f) * (d - TWO_PI * floorf((d + (float)PI) / TWO_PI));
                for (int n = 0; n < 160; n++) {
                    float th = p->PHIl[l] + (pw * (float)l + dw) * (float)n + (cw - pw) * (float)(l * n * n) / 320.0f;
                    float a = p->Ml[l] + (float)n / 160.0f * (c->Ml[l] - p->Ml[l]);
                    y[n] += 2.0f * a * cosf(th);
                }
            } else {
                if (p->Vl[l] == 1) spec_osc(y, 160, p->Ml[l], p->PHIl[l], pw * (float)l);
                if (c->Vl[l] == 1) spec_osc(y, 0, c->Ml[l], c->PHIl[l] - cw * (float)l * 160.0f, cw * (float)l);
            }
        }
    }
}
#define LIM (32767.0f * 0.95f / 7.0f)
static float spec_clip(float x) { return x > LIM ? LIM : x < -LIM ? -LIM : x; }
#if FN == 3 && defined(VF_NATIVE)
static vf_f160 t_out[2]; static int t_blocks;
static void* two_frames(void* a) {   /* a fresh thread has no plan yet */
    (void)a;
    for (int k = 0; k < 2; k++) {
        mbe_parms c = in_cur, p = in_prev;
        mbe_setThreadRngSeed(77u);
        if (k == 0) oom_begin(0, in_plan != 0, 0); else oom_all = in_plan & 1;
        mbe_synthesizeSpeechf(t_out[k].v, &c, &p, 3);
        if (k == 0 && in_plan) t_blocks = oom_blocks();
    }
    oom_end();
    return 0;
}
static void frame_ref(vf_f160* y, mbe_fft_plan* plan) {
    mbe_parms c = in_cur, p = in_prev; vf_f256 nz; int m;
    mbe_setThreadRngSeed(77u);
    mbe_applyAdaptiveSmoothing(&c, &p);
    if (spec_muted()) { mbe_synthesizeComfortNoisef(y->v); return; }
    mbe_generate_noise_with_overlap(nz.v, &c.noiseSeed, c.noiseOverlap);
    m = spec_state(&c, &p, nz.v);
    spec_voiced(&c, &p, m, y->v);
    if (plan) mbe_synthesizeUnvoicedFFTWithNoise(y->v, &c, &p, plan, nz.v);
    for (int n = 0; n < 160; n++) y->v[n] = spec_clip(y->v[n]);
}
static int near160(const vf_f160* a, const vf_f160* b) {
    int ok = 1;
    for (int n = 0; n < 160; n++) { float d = a->v[n] - b->v[n]; ok &= (d < 0 ? -d : d) <= 0.5f || (a->v[n] != a->v[n] && b->v[n] != b->v[n]); }
    return ok;
}
#endif
static void vf_call(void) {
    static mbe_parms c, p, sc, sp; static vf_f160 out, y; static vf_f256 nz; int ok, m;
    c = sc = in_cur; p = sp = in_prev; out = in_out;
#ifdef VF_SYM
    c_ = &c; p_ = &p;
    vf_sym_obj(&o_uv, sizeof o_uv, 100); vf_sym_obj(&o_cn, sizeof o_cn, 101);
#if FN == 2
    VF_ASSUME(spec_muted())
#else
    VF_ASSUME(!spec_muted())
#endif
    mbe_synthesizeSpeechf(out.v, &c, &p, 3);
    VF_CHK(n_sm == 1, "adaptive smoothing first, once")
    for (int l = 0; l < 57; l++) { sc.Vl[l] = in_sm.Vl[l]; sc.Ml[l] = in_sm.Ml[l]; }
    sc.localEnergy = in_sm.localEnergy; sc.amplitudeThreshold = 77;
#if FN == 2
    VF_CHK(n_cn == 1 && n_uv == 0 && n_gen == 0 && n_bad == 0, "a muted frame is comfort noise only")
    ok = 1; for (int n = 0; n < 160; n++) ok &= VF_SAMEF(out.v[n], o_cn.v[n]);
    VF_CHK(ok, "comfort noise is not altered")
#else
    sc.noiseSeed = 5.0f; sc.noiseOverlap[7] = 3.0f;
    m = spec_state(&sc, &sp, in_noise.v);
    VF_CHK(n_cn == 0 && n_gen == 1 && n_bad == 0, "one noise buffer from this frame's generator")
#if FN == 3
    if (in_plan) {
        VF_CHK(n_uv == 0, "without a plan there is no unvoiced part")
        for (int l = 0; l < 57; l++) { c.Vl[l] = sc.Vl[l]; }
        c.previousUw[9] = 11.0f; step--;
    }
    /* second frame */
    c = in_cur; p = in_prev; step = 0; n_uv = 0;
    mbe_synthesizeSpeechf(out.v, &c, &p, 3);
    VF_CHK(n_uv == ((in_plan & 1) == 0), "the next frame uses the plan, and tries again when there was none")
    VF_CHK(n_alloc == (in_plan ? 2 : 1), "one plan per thread")
    VF_CHK(n_bad == 0 || in_plan, "callees get this frame's data")
#else
    VF_CHK(n_uv == 1, "unvoiced part added once")
    sc.previousUw[9] = 11.0f;
    spec_voiced(&sc, &sp, m, y.v);
    ok = 1; for (int n = 0; n < 160; n++) ok &= VF_SAMEF(r_mix.v[n], y.v[n]);
    VF_CHK(ok, "voiced part: every voiced harmonic of both frames, faded or interpolated")
    ok = 1; for (int n = 0; n < 160; n++) ok &= VF_SAMEF(out.v[n], spec_clip(o_uv.v[n]));
    VF_CHK(ok, "output clipped at 95 per cent of full scale")
#endif
#endif
#if FN != 3
    ok = 1; for (int l = 0; l < 57; l++) ok &= VF_SAMEF(c.PSIl[l], sc.PSIl[l]) & VF_SAMEF(c.PHIl[l], sc.PHIl[l]) & VF_SAMEF(p.PSIl[l], sp.PSIl[l]);
    VF_CHK(ok, "phases advanced")
    ok = 1; for (int l = 0; l < 57; l++) ok &= (c.Vl[l] == sc.Vl[l]) & (p.Vl[l] == sp.Vl[l]) & VF_SAMEF(c.Ml[l], sc.Ml[l]) & VF_SAMEF(p.Ml[l], sp.Ml[l]);
    VF_CHK(ok, "harmonics missing on one side fade from or to zero")
    VF_CHK(vf_same_all(&c, &sc) && vf_same_all(&p, &sp), "nothing else changes")
#endif
#elif FN == 3
    {   static mbe_fft_plan* plan; pthread_t t;
        if (!plan) plan = mbe_fft_plan_alloc();
        t_blocks = 0;
        pthread_create(&t, 0, two_frames, 0); pthread_join(t, 0);
        frame_ref(&y, in_plan ? 0 : plan);
        VF_CHK(near160(&t_out[0], &y), "without a plan there is no unvoiced part")
        frame_ref(&y, in_plan & 1 ? 0 : plan);
        VF_CHK(near160(&t_out[1], &y), "the next frame uses the plan, and tries again when there was none")
        VF_CHK(t_blocks == 0, "nothing left over from the failed attempt")
    }
    (void)c; (void)p; (void)sc; (void)sp; (void)out; (void)ok;
#else
    { static mbe_fft_plan* plan;
    if (!plan) plan = mbe_fft_plan_alloc();
    mbe_setThreadRngSeed(77u);
    mbe_synthesizeSpeechf(out.v, &c, &p, 3);
    mbe_setThreadRngSeed(77u);
    mbe_applyAdaptiveSmoothing(&sc, &sp);
    if (spec_muted()) mbe_synthesizeComfortNoisef(y.v);
    else {
        mbe_generate_noise_with_overlap(nz.v, &sc.noiseSeed, sc.noiseOverlap);
        m = spec_state(&sc, &sp, nz.v);
        spec_voiced(&sc, &sp, m, y.v);
        mbe_synthesizeUnvoicedFFTWithNoise(y.v, &sc, &sp, plan, nz.v);
        for (int n = 0; n < 160; n++) y.v[n] = spec_clip(y.v[n]);
    }
    ok = 1; for (int n = 0; n < 160; n++) { float d = out.v[n] - y.v[n]; ok &= (d < 0 ? -d : d) <= 0.5f || (out.v[n] != out.v[n] && y.v[n] != y.v[n]); }
    VF_CHK(ok, "voiced part: every voiced harmonic of both frames, faded or interpolated")
    VF_CHK(vf_same_all(&c, &sc) && vf_same_all(&p, &sp), "state after the frame") }
#endif
    (void)ok; (void)m; (void)nz; (void)y; (void)sc; (void)sp;
}
#include "vf_main.h"
