/* C10-C13: one call of a processing entry point = the frame state machine of the specification, for every parameter
 * vector, every error count, every decoder state and whatever the callees return.
 * CODEC 2450 | 2400 | 4400 | 7200 | 7100 ; MODE 0 Dataf, 1 Data (int16), 2 Framef, 3 Frame (int16); FUN entry point.
 * The callees (decode, enhancement, synthesis, tone, comfort noise, block codes, demodulation, int16 conversion) are used
 * through their contracts: recorded arguments and opaque results.  Natively both sides use the real callees. */
#include "vf.h"
#include "mbelib-neo/mbelib.h"
#include <math.h>
#include "parms.h"
#define AMBE (CODEC == 2450 || CODEC == 2400)
#define NB (AMBE ? 49 : 88)
#define FRAMED (MODE >= 2)
#define MAXE 80
static mbe_parms in_cur, in_prev, in_pe;
static vf_c88 in_d; static vf_c184 in_fr; static vf_f160 in_af; static vf_s160 in_as; static vf_c96 in_es; static int in_errs, in_errs2, in_bad; static unsigned in_seed;
#define VF_INPUTS(X) X(mbe_parms, in_cur) X(mbe_parms, in_prev) X(mbe_parms, in_pe) X(vf_c88, in_d) X(vf_c184, in_fr) X(vf_f160, in_af) X(vf_s160, in_as) X(vf_c96, in_es) \
   X(int, in_errs) X(int, in_errs2) X(int, in_bad) X(unsigned, in_seed)
typedef struct { mbe_parms cur, prev, pe; vf_c88 d; vf_c184 fr; vf_f160 af; vf_s160 as; vf_c96 es; int errs, errs2; } run_t;
static run_t I, R;
typedef struct {
    int n_dec, n_enh, n_syn, n_cn, n_tone, n_ds, n_cv, tone_id, total;
    mbe_parms dec_cur, dec_prev, enh, syn_cur, syn_pe, tone_cur;
    vf_c88 dec_d, tone_d; vf_f160 cv;
} rec_t;
static rec_t rec[2];
static int who;
static const int vf_nbits_fr = CODEC == 7200 ? 184 : CODEC == 7100 ? 168 : 96;

static int vf_pre(void) {
    int ok = vf_bits01(in_d.v, NB) && vf_bits01(in_fr.v, vf_nbits_fr) && in_errs2 >= 0 && in_errs2 <= MAXE && in_errs >= 0 && in_errs <= MAXE;
    ok = ok && in_prev.L >= 9 && in_prev.L <= 56 && in_pe.L >= 9 && in_pe.L <= 56 && in_cur.L >= 9 && in_cur.L <= 56;
    return ok;
}
static void vf_setup(void) {}
#ifdef VF_NATIVE
/* directed search: a frame whose code vectors hold few (often no) errors */
#if CODEC == 2450
#define VF_C0(f) mbe_eccAmbe3600x2450C0((char(*)[24])(f))
#define VF_DEM(f) mbe_demodulateAmbe3600x2450Data((char(*)[24])(f))
#elif CODEC == 2400
#define VF_C0(f) mbe_eccAmbe3600x2400C0((char(*)[24])(f))
#define VF_DEM(f) mbe_demodulateAmbe3600x2400Data((char(*)[24])(f))
#elif CODEC == 7200
#define VF_C0(f) mbe_eccImbe7200x4400C0((char(*)[23])(f))
#define VF_DEM(f) mbe_demodulateImbe7200x4400Data((char(*)[23])(f))
#elif CODEC == 7100
#define VF_C0(f) mbe_eccImbe7100x4400C0((char(*)[24])(f))
#define VF_DEM(f) mbe_demodulateImbe7100x4400Data((char(*)[24])(f))
#endif
static void vf_nearly_clean(char* f) {
#ifdef VF_C0
    int W = CODEC == 7200 ? 23 : 24, G = AMBE ? 2 : 4, H = AMBE ? 2 : CODEC == 7200 ? 7 : 6; char t[24];
    VF_C0(f); if (AMBE) VF_C0(f); VF_DEM(f);
    for (int r = 1; r < H; r++) { char* q = f + r * W + (r == 1 && CODEC == 7100); int n = r < G ? 23 : 15;
        if (r < G) mbe_golay2312(q, t); else if (CODEC == 7100) mbe_7100x4400hamming1511(q, t); else mbe_hamming1511(q, t);
        memcpy(q, t, n); }
    VF_DEM(f);
    for (int r = 0; r < H; r++) { int k = (vf_rnd() & 1) ? 0 : (int)(vf_rnd() % 5), o = r == 0 && CODEC == 7100 ? 12 : AMBE && r == 0 ? 12 : r < G ? 11 : 4, n = r == 0 && CODEC == 7100 ? 7 : r < G ? 12 : 11;
        if (k > 3 && (vf_rnd() & 1)) k = 1;
        while (k--) f[r * W + o + vf_rnd() % n] ^= 1; }
#endif
}
#define VF_HAS_FILL
static void vf_fill(void) {
    vf_rnd_parms(&in_cur); vf_rnd_parms(&in_prev); vf_rnd_parms(&in_pe);
    if (AMBE && (vf_rnd() & 7)) in_prev.mutingThreshold = 0.096f;
    vf_rndbits(in_d.v, 88); vf_rndbits(in_fr.v, 184);
    if (AMBE && !(vf_rnd() & 1)) {   /* directed: special pitch indices, tone frames */
        int k = (int)(vf_rnd() % 3);
        for (int i = 0; i < 4; i++) in_d.v[i] = 1;
        if (k) in_d.v[4] = in_d.v[5] = 1;
        if (k == 2) { for (int i = 45; i < 49; i++) in_d.v[i] = 0; for (int i = 0; i < 4; i++) in_d.v[12 + i] = in_d.v[20 + i]; }
        if (FRAMED && !(vf_rnd() & 1)) { static const int p[6] = {23, 22, 21, 20, 19, 18}; for (int i = 0; i < 6; i++) in_fr.v[p[i]] = (char)(vf_rnd() % 8 != 0); }
    }
    if (FRAMED && !(vf_rnd() & 3)) memset(in_fr.v, 0, 184);
    if (FRAMED && (vf_rnd() & 1)) vf_nearly_clean(in_fr.v);
    in_errs2 = (int)(vf_rnd() % 10); in_errs = (int)(vf_rnd() % 5);
    if (!(vf_rnd() & 7)) in_errs2 = (int)(vf_rnd() % 41);
    if (vf_rnd() & 1) { in_prev.repeat = in_prev.repeatCount = (int)(vf_rnd() % 5); }
    for (int i = 0; i < 160; i++) { in_af.v[i] = vf_rndf(-100.0f, 100.0f); }
}
#endif
#define VF_HAS_SYM
#ifdef VF_SYM
static mbe_parms o_dec_cur, o_dec_prev, o_enh, o_syn_cur, o_syn_pe, o_tone; static vf_f160 o_syn, o_cn, o_ton; static vf_s160 o_cv; static vf_c184 o_x;
static void vf_sym(void) {
    vf_sym_obj(&o_dec_cur, sizeof o_dec_cur, 101); vf_sym_obj(&o_dec_prev, sizeof o_dec_prev, 102); vf_sym_obj(&o_enh, sizeof o_enh, 103);
    vf_sym_obj(&o_syn_cur, sizeof o_syn_cur, 104); vf_sym_obj(&o_syn_pe, sizeof o_syn_pe, 105); vf_sym_obj(&o_tone, sizeof o_tone, 106);
    vf_sym_obj(&o_syn, sizeof o_syn, 107); vf_sym_obj(&o_cn, sizeof o_cn, 108); vf_sym_obj(&o_ton, sizeof o_ton, 109); vf_sym_obj(&o_cv, sizeof o_cv, 110);
    for (int i = 0; i < NB; i++) in_d.v[i] = (char)vf_sym_bit(1, i);
    for (int i = 0; i < vf_nbits_fr; i++) in_fr.v[i] = (char)vf_sym_bit(2, i);
    if (!FRAMED) { in_errs2 = vf_sym_range(8, 0, MAXE); in_errs = vf_sym_range(4, 0, MAXE); } else { in_errs2 = 0; in_errs = 0; }
    in_prev.L = vf_sym_range(5, 9, 56); in_pe.L = vf_sym_range(6, 9, 56); in_cur.L = vf_sym_range(7, 9, 56);
    o_dec_cur.L = vf_sym_range(9, 9, 56); o_enh.L = vf_sym_range(10, 9, 56); o_syn_cur.L = vf_sym_range(11, 9, 56); o_syn_pe.L = vf_sym_range(12, 9, 56); o_tone.L = vf_sym_range(13, 9, 56);   /* their contracts: harmonic count stays 9..56 */
#if CODEC == 2450
    { int k = vf_sym_range(3, 0, 3); in_bad = k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 3 : 7; }
#elif CODEC == 2400
    in_bad = vf_sym_range(3, 0, 122); vf_assume(in_bad == 0 || in_bad == 2 || in_bad == 3 || in_bad >= 5);
#else
    in_bad = vf_sym_range(3, 0, 1);
#endif
}
/* ---- contracts of the callees */
static int st_decode(const char* d, mbe_parms* c, mbe_parms* p, int total) {
    rec_t* r = &rec[who]; r->n_dec++; r->dec_cur = *c; r->dec_prev = *p; r->total = total;
    for (int i = 0; i < NB; i++) r->dec_d.v[i] = d[i];
    c->w0 = o_dec_cur.w0; c->L = o_dec_cur.L; c->K = o_dec_cur.K; c->gamma = o_dec_cur.gamma; c->un = o_dec_cur.un; c->repeat = o_dec_cur.repeat;
    for (int l = 0; l < 57; l++) { c->Vl[l] = o_dec_cur.Vl[l]; c->Ml[l] = o_dec_cur.Ml[l]; c->log2Ml[l] = o_dec_cur.log2Ml[l]; p->Ml[l] = o_dec_prev.Ml[l]; p->log2Ml[l] = o_dec_prev.log2Ml[l]; }
    return in_bad;
}
int vf_stub_mbe_decodeAmbe2450ParmsInternal(const char* d, mbe_parms* c, mbe_parms* p, int total) { return st_decode(d, c, p, total); }
int vf_stub_mbe_decodeAmbe2400Parms(const char* d, mbe_parms* c, mbe_parms* p) { return st_decode(d, c, p, 0); }
int vf_stub_mbe_decodeImbe4400Parms(const char* d, mbe_parms* c, mbe_parms* p) { return st_decode(d, c, p, 0); }
void vf_stub_mbe_spectralAmpEnhance(mbe_parms* c) { rec[who].n_enh++; rec[who].enh = *c; *c = o_enh; }
void vf_stub_mbe_synthesizeSpeechf(float* a, mbe_parms* c, mbe_parms* p, int q) {
    rec_t* r = &rec[who]; (void)q; r->n_syn++; r->syn_cur = *c; r->syn_pe = *p; *c = o_syn_cur; *p = o_syn_pe;
    for (int i = 0; i < 160; i++) a[i] = o_syn.v[i];
}
void vf_stub_mbe_synthesizeComfortNoisef(float* a) { rec[who].n_cn++; for (int i = 0; i < 160; i++) a[i] = o_cn.v[i]; }
static void st_tone(float* a, const char* d, mbe_parms* c, int id) {
    rec_t* r = &rec[who]; r->n_tone++; r->tone_id = id; r->tone_cur = *c; *c = o_tone;
    for (int i = 0; i < NB; i++) r->tone_d.v[i] = d[i];
    for (int i = 0; i < 160; i++) a[i] = o_ton.v[i];
}
void vf_stub_mbe_synthesizeTonef(float* a, const char* d, mbe_parms* c) { st_tone(a, d, c, -1); }
void vf_stub_mbe_synthesizeTonefdstar(float* a, const char* d, mbe_parms* c, int id) { st_tone(a, d, c, id); }
void vf_stub_mbe_floattoshort(float* a, short* o) {
    rec_t* r = &rec[who]; r->n_cv++;
    for (int i = 0; i < 160; i++) r->cv.v[i] = a[i];
    for (int i = 0; i < 160; i++) o[i] = o_cv.v[i];
}
static int st_block(int id, const char* in, char* out, int n, int par, int k) {
    vf_uf_bits(id, in, n, o_x.v, n);
    for (int i = 0; i < par; i++) out[i] = in[i];
    for (int i = par; i < n; i++) out[i] = o_x.v[i];
    return vf_uf_int(id, in, n, k);
}
int vf_stub_mbe_golay2312(const char* in, char* out) { return st_block(1, in, out, 23, 11, 2); }
int vf_stub_mbe_hamming1511(const char* in, char* out) { return st_block(2, in, out, 15, 0, 1); }
int vf_stub_mbe_7100x4400hamming1511(const char* in, char* out) { return st_block(3, in, out, 15, 0, 1); }
static void st_demod(char* f, int n) { vf_uf_bits(4, f, n, o_x.v, n); for (int i = 0; i < n; i++) f[i] = o_x.v[i]; }
void vf_stub_mbe_demodulateAmbe3600x2450Data(char f[4][24]) { st_demod(&f[0][0], 96); }
void vf_stub_mbe_demodulateAmbe3600x2400Data(char f[4][24]) { st_demod(&f[0][0], 96); }
void vf_stub_mbe_demodulateImbe7200x4400Data(char f[8][23]) { st_demod(&f[0][0], 184); }
void vf_stub_mbe_demodulateImbe7100x4400Data(char f[7][24]) { st_demod(&f[0][0], 168); }
void vf_stub_mbe_convertImbe7100to7200(char* d) { vf_uf_bits(5, d, 88, o_x.v, 88); for (int i = 0; i < 88; i++) d[i] = o_x.v[i]; }
#else
static void vf_sym(void) {}
#endif

/* ---- the specification */
static void spec_default_voice(mbe_parms* m, float w0, int L, int K) {
    m->w0 = w0; m->L = L; m->K = K; m->gamma = 0.0f; m->un = 0; m->swn = 0; m->repeat = 0; m->repeatCount = 0;
    for (int l = 0; l < 57; l++) { m->Vl[l] = 0; m->Ml[l] = 1.0f; m->log2Ml[l] = 0.0f; }
    m->localEnergy = 75000.0f; m->amplitudeThreshold = 20480;
}
#if AMBE
static void spec_reset(run_t* s) { /* the AMBE start-up state, in all three states */
    mbe_parms* m = &s->prev;
    spec_default_voice(m, (float)((3.14159265358979323846 / 32.0) * (2.0 * 3.14159265358979323846)), 15, 0);
    m->errorRate = 0.0f; m->errorCountTotal = 0; m->errorCount4 = 0; m->mutingThreshold = 0.096f;
    for (int l = 0; l < 57; l++) m->PHIl[l] = m->PSIl[l] = 0.0f;
    for (int i = 0; i < 256; i++) m->previousUw[i] = 0.0f;
    for (int i = 0; i < 96; i++) m->noiseOverlap[i] = 0.0f;
    m->noiseSeed = -1.0f;
    s->cur = *m; s->pe = *m;
}
static void spec_erasure(mbe_parms* m, const mbe_parms* from) {
    int rp = m->repeat, rc = m->repeatCount;
    spec_default_voice(m, 0.0f, 9, 0);
    m->repeat = rp; m->repeatCount = rc;
    for (int l = 0; l < 57; l++) { m->PHIl[l] = from->PHIl[l]; m->PSIl[l] = from->PSIl[l]; }
    for (int i = 0; i < 256; i++) m->previousUw[i] = from->previousUw[i];
    for (int i = 0; i < 96; i++) m->noiseOverlap[i] = from->noiseOverlap[i];
    m->noiseSeed = from->noiseSeed;
}
#endif
static int spec_decode(run_t* s) {
#if defined(VF_SYM)
    return st_decode(s->d.v, &s->cur, &s->prev, CODEC == 2450 ? s->errs2 : 0);
#elif CODEC == 2450
    return mbe_decodeAmbe2450Parms(s->d.v, &s->cur, &s->prev);
#elif CODEC == 2400
    return mbe_decodeAmbe2400Parms(s->d.v, &s->cur, &s->prev);
#else
    return mbe_decodeImbe4400Parms(s->d.v, &s->cur, &s->prev);
#endif
}
#ifdef VF_SYM
#define CALL(f) vf_stub_##f
#else
#define CALL(f) f
#endif
static void put(char* es, int* n, char c) { es[*n] = c; *n = *n + 1; }
static void spec_voice(run_t* s) {
    s->prev = s->cur;
    CALL(mbe_spectralAmpEnhance)(&s->cur);
    CALL(mbe_synthesizeSpeechf)(s->af.v, &s->cur, &s->pe, 3);
}
static void spec_core(run_t* s, int c0, int c0_known, int c4) {
    int n = 0, bad;
    (void)c0; (void)c4; (void)c0_known;
    for (int i = 0; i < s->errs2; i++) put(s->es.v, &n, '=');
#if AMBE
    { float d = s->prev.mutingThreshold - 0.096f; if (fabsf(d) > 1e-6f) spec_reset(s); }
    s->cur.mutingThreshold = 0.096f; s->cur.errorCountTotal = s->errs2; s->cur.errorCount4 = 0;
    s->cur.errorRate = (0.95f * s->prev.errorRate) + (0.001064f * (float)s->errs2);
    bad = spec_decode(s);
    if (bad == 2) {                                          /* erasure */
        put(s->es.v, &n, 'E');
        s->cur.repeat = 0; s->cur.repeatCount = 0;
        spec_erasure(&s->cur, &s->prev);
        CALL(mbe_synthesizeComfortNoisef)(s->af.v);
        s->prev = s->cur; s->pe = s->cur;
#if CODEC == 2450
    } else if (bad == 3 || bad == 7) {                       /* tone */
        int id = 0, valid;
        put(s->es.v, &n, 'T');
        s->cur.repeat = 0; s->cur.repeatCount = 0;
        for (int i = 12; i < 20; i++) id = 2 * id + s->d.v[i];
        valid = (id >= 5 && id <= 122) || (id >= 128 && id <= 163);
        if (bad == 7 && valid) CALL(mbe_synthesizeTonef)(s->af.v, s->d.v, &s->cur);
        else if (bad == 7 && s->prev.repeatCount < 4) {
            mbe_parms m = s->pe;
            CALL(mbe_synthesizeSpeechf)(s->af.v, &m, &s->pe, 3);
            s->pe = m;
        } else { CALL(mbe_synthesizeComfortNoisef)(s->af.v); spec_reset(s); }
#else
    } else if (bad == 3) {
        put(s->es.v, &n, 'T');
        CALL(mbe_synthesizeComfortNoisef)(s->af.v); spec_reset(s);
    } else if (bad != 0) {                                   /* single tone `bad` */
        if (bad >= 7 && bad <= 122 && s->errs < 2 && s->errs2 < 3) {
            CALL(mbe_synthesizeTonefdstar)(s->af.v, s->d.v, &s->cur, bad);
            s->prev = s->cur;
        } else {
            if (s->errs2 > 3) put(s->es.v, &n, 'R');
            CALL(mbe_synthesizeComfortNoisef)(s->af.v); spec_reset(s);
        }
#endif
    } else {
        int rep = s->errs2 > 3;
        if (c0_known && CODEC == 2450) rep = c0 >= 4 || (c0 >= 2 && s->errs2 >= 6);
        if (rep) { s->cur = s->prev; s->cur.repeat++; s->cur.repeatCount++; put(s->es.v, &n, 'R'); }
        else { s->cur.repeat = 0; s->cur.repeatCount = 0; }
        if (s->cur.repeat <= 3) { spec_voice(s); s->pe = s->cur; }
        else { put(s->es.v, &n, 'M'); CALL(mbe_synthesizeComfortNoisef)(s->af.v); spec_reset(s); }
    }
#else
    s->cur.mutingThreshold = 0.0875f; s->cur.errorCountTotal = s->errs2; s->cur.errorCount4 = c0_known ? c4 : 0;
    s->cur.errorRate = (0.95f * s->prev.errorRate) + (0.000365f * (float)s->errs2);
    bad = spec_decode(s);
    {
        int rep = bad == 1, muted;
        if (!rep) rep = c0_known ? (c0 >= 2 && (float)s->errs2 >= 10.0f + (40.0f * s->cur.errorRate)) : s->errs2 > 5;
        if (!rep) { s->cur.repeat = 0; s->cur.repeatCount = 0; }
        else {
            put(s->es.v, &n, 'R');
            if (s->prev.repeatCount >= 4) {
                spec_default_voice(&s->cur, (float)((4.0 * 3.14159265358979323846) / (134.0 + 39.5)), 39, 12);
                s->cur.mutingThreshold = 0.0875f;
            } else { s->cur = s->prev; s->cur.repeat++; s->cur.repeatCount++; }
        }
        muted = s->cur.repeatCount >= 4 || s->cur.errorRate > s->cur.mutingThreshold;
        spec_voice(s);
        s->pe = s->cur;
        if (muted) put(s->es.v, &n, 'M');
    }
#endif
    put(s->es.v, &n, 0);
}
static void spec_frame(run_t* s) {
#if FRAMED
    int c4 = 0;
#if AMBE
    char (*f)[24] = (char (*)[24])s->fr.v;
#if CODEC == 2450
    s->errs = mbe_eccAmbe3600x2450C0(f); CALL(mbe_demodulateAmbe3600x2450Data)(f); s->errs2 = s->errs + mbe_eccAmbe3600x2450Data(f, s->d.v);
#else
    s->errs = mbe_eccAmbe3600x2400C0(f); CALL(mbe_demodulateAmbe3600x2400Data)(f); s->errs2 = s->errs + mbe_eccAmbe3600x2400Data(f, s->d.v);
#endif
#elif CODEC == 7200
    char (*f)[23] = (char (*)[23])s->fr.v; char t[15];
    s->errs = mbe_eccImbe7200x4400C0(f); CALL(mbe_demodulateImbe7200x4400Data)(f); s->errs2 = s->errs + mbe_eccImbe7200x4400Data(f, s->d.v);
    c4 = CALL(mbe_hamming1511)(f[4], t);
#else
    char (*f)[24] = (char (*)[24])s->fr.v; char t[15];
    s->errs = mbe_eccImbe7100x4400C0(f); CALL(mbe_demodulateImbe7100x4400Data)(f); s->errs2 = s->errs + mbe_eccImbe7100x4400Data(f, s->d.v);
    CALL(mbe_convertImbe7100to7200)(s->d.v);
    c4 = CALL(mbe_7100x4400hamming1511)(f[4], t);
#endif
    spec_core(s, s->errs, 1, c4);
#else
    spec_core(s, 0, 0, 0);
#endif
    if (MODE & 1) CALL(mbe_floattoshort)(s->af.v, s->as.v);
}
static void impl(run_t* s) {
#if MODE == 0
    FUN(s->af.v, &s->errs, &s->errs2, s->es.v, s->d.v, &s->cur, &s->prev, &s->pe, 3);
#elif MODE == 1
    FUN(s->as.v, &s->errs, &s->errs2, s->es.v, s->d.v, &s->cur, &s->prev, &s->pe, 3);
#elif MODE == 2
    FUN(s->af.v, &s->errs, &s->errs2, s->es.v, (void*)s->fr.v, s->d.v, &s->cur, &s->prev, &s->pe, 3);
#else
    FUN(s->as.v, &s->errs, &s->errs2, s->es.v, (void*)s->fr.v, s->d.v, &s->cur, &s->prev, &s->pe, 3);
#endif
}
static void init(run_t* s) {
    s->cur = in_cur; s->prev = in_prev; s->pe = in_pe; s->d = in_d; s->fr = in_fr; s->af = in_af; s->as = in_as; s->es = in_es; s->errs = in_errs; s->errs2 = in_errs2;
#ifdef VF_NATIVE
    mbe_setThreadRngSeed(in_seed);
#endif
}
static int p_audio(void) { int ok = 1; if (MODE & 1) { for (int i = 0; i < 160; i++) ok &= I.as.v[i] - R.as.v[i] <= 1 && I.as.v[i] - R.as.v[i] >= -1; } else for (int i = 0; i < 160; i++) ok &= VF_SAMEF(I.af.v[i], R.af.v[i]); return ok; }
static int p_audio_s(void) { int ok = 1; for (int i = 0; i < 160; i++) ok &= I.as.v[i] == R.as.v[i]; return ok; }
static int p_es(void) { int ok = 1; for (int i = 0; i < 96; i++) ok &= I.es.v[i] == R.es.v[i]; return ok; }
static int okL(const mbe_parms* m) { return (m->L >= 9) & (m->L <= 56); }
static int p_errs(void) { return I.errs == R.errs && I.errs2 == R.errs2; }
static int p_d(void) { int ok = 1; for (int i = 0; i < 88; i++) ok &= I.d.v[i] == R.d.v[i]; for (int i = 0; i < 184; i++) ok &= I.fr.v[i] == R.fr.v[i]; return ok; }
static int p_rec(void) {
    rec_t *a = &rec[0], *b = &rec[1]; int ok = 1;
    ok &= (a->n_dec == b->n_dec) & (a->n_enh == b->n_enh) & (a->n_syn == b->n_syn) & (a->n_cn == b->n_cn) & (a->n_tone == b->n_tone) & (a->n_cv == b->n_cv) & (a->tone_id == b->tone_id) & (a->total == b->total);
    for (int i = 0; i < 88; i++) ok &= a->dec_d.v[i] == b->dec_d.v[i];
    for (int i = 0; i < 88; i++) ok &= a->tone_d.v[i] == b->tone_d.v[i];
    for (int i = 0; i < 160; i++) ok &= VF_SAMEF(a->cv.v[i], b->cv.v[i]);
    return ok;
}
#ifdef VF_NATIVE
static int p_f(int x) { (void)x; return 1; }
#define RECP(f, n)
#else
#define RECP(f, n) VF_CHK(vf_same_all(&rec[0].f, &rec[1].f), n)
#endif
static void vf_call(void) {
    init(&I); who = 0;
#if defined(VF_NATIVE) && CODEC == 2450
    {   /* tone frames with 6 or more errors: outside the native oracle (needs the internal decoder) */
        run_t t; memset(&t, 0, sizeof t); init(&t); spec_frame(&t);
        int sig = 1; for (int i = 0; i < 6; i++) sig &= t.d.v[i];
        if (sig && t.errs2 >= 6) return;
    }
    init(&I);
#endif
    impl(&I);
    init(&R); who = 1;
    spec_frame(&R);
    VF_CHK(okL(&I.cur) & okL(&I.prev) & okL(&I.pe), "harmonic counts stay within 9..56")
    VF_CHK(p_errs(), "reported error counts")
    VF_CHK(p_d(), "parameter bits and frame buffer")
    VF_CHK(p_es(), "status string")
#ifdef VF_NATIVE
    VF_CHK(p_audio(), "audio samples")
#else
    VF_CHK((MODE & 1) ? p_audio_s() : p_audio(), "audio samples")
    VF_CHK(p_rec(), "calls made for the frame")
#endif
    RECP(dec_cur, "state handed to parameter decoding") RECP(dec_prev, "history handed to parameter decoding")
    RECP(enh, "state handed to spectral enhancement") RECP(syn_cur, "state handed to speech synthesis") RECP(syn_pe, "history handed to speech synthesis")
    RECP(tone_cur, "state handed to tone synthesis")
    VF_CHK(vf_same_all(&I.cur, &R.cur), "current state after the frame")
    VF_CHK(vf_same_all(&I.prev, &R.prev), "previous state after the frame")
    VF_CHK(vf_same_all(&I.pe, &R.pe), "enhanced previous state after the frame")
}
#include "vf_main.h"
