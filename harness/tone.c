/* C15: tone synthesis. FN 1 mbe_synthesizeTonef (AMBE 2450 tone frame), 2 mbe_synthesizeTonefdstar, valid index,
 * 3 the same with an index outside the table, 4/5 both functions with tones disabled at build time */
#include "vf.h"
#include <math.h>
#include "mbelib-neo/mbelib.h"
#include "parms.h"
static vf_c49 in_d; static mbe_parms in_cur; static vf_f160 in_out; static int in_id;
#define VF_INPUTS(X) X(vf_c49, in_d) X(mbe_parms, in_cur) X(vf_f160, in_out) X(int, in_id)
static int vf_pre(void) {
#if FN == 3
    return in_id < 5 || in_id > 122;
#elif FN == 5
    return 1;
#else
    return vf_bits01(in_d.v, 49);
#endif
}
static void vf_setup(void) {}
#ifdef VF_NATIVE
#define VF_HAS_FILL
static void vf_fill(void) { vf_rnd_parms(&in_cur); in_cur.swn = (int)(vf_rnd() * 2654435761u); in_cur.un = (int)(vf_rnd() * 2654435761u); for (int i = 0; i < 49; i++) in_d.v[i] = (char)(vf_rnd() & 1); for (int i = 0; i < 160; i++) in_out.v[i] = vf_rndf(-9.0f, 9.0f); }
#endif
#define VF_HAS_SYM
static void vf_sym(void) { VF_REAL
#ifdef VF_SYM
    for (int i = 0; i < 49; i++) in_d.v[i] = (char)vf_sym_bit(60, i);
#endif
#if FN == 1
    int id = vf_task(0, 0, 255);   /* case split on the tone index */
    for (int i = 0; i < 8; i++) in_d.v[12 + i] = (char)((id >> (7 - i)) & 1);
#endif
#if FN == 2
    in_id = vf_sym_range(3, 5, 122);
#endif
}
/* dual-tone table (AMBE tone indices 128..163) */
static const short DUAL[36][2] = {
    {1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770},
    {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941}, {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743},
    {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}, {440, 350}, {480, 440}, {620, 480}, {490, 350}};
/* phase advance per sample in units of 2^-32 turns: round(f / 8000 * 2^32), f in quarter hertz */
static unsigned spec_step(int f4) { return (unsigned)(((((unsigned long long)f4) << 32) + 16000ull) / 32000ull); }
static float spec_sine(unsigned ph) { return sinf((float)((double)ph * (2.0 * 3.14159265358979323846 / 4294967296.0) - 3.14159265358979323846 / 2.0)); }
#ifdef TU_DISABLE_AMBE_TONES
#define OFF 1
#else
#define OFF 0
#endif
static int same_rest(const mbe_parms* a, const mbe_parms* b) { mbe_parms t = *a; t.swn = b->swn; t.un = b->un; return vf_same_all(&t, b); }
static void vf_call(void) {
    mbe_parms cur = in_cur; vf_f160 out = in_out; vf_c49 d = in_d; int ok;
#if FN == 1 || FN == 4
    mbe_synthesizeTonef(out.v, d.v, &cur);
    int id = 0, ad = 0;
    for (int i = 0; i < 8; i++) id = 2 * id + in_d.v[12 + i];
    for (int i = 0; i < 6; i++) ad = 2 * ad + in_d.v[6 + i];
    ad = 2 * ad + in_d.v[44];
#else
    int id = in_id, ad = 103;
    mbe_synthesizeTonefdstar(out.v, d.v, &cur, in_id);
#endif
    int single = id >= 5 && id <= 122, dual = (FN == 1 || FN == 4) && id >= 128 && id <= 163;
    if (OFF || !(single || dual)) {
        ok = 1; for (int i = 0; i < 160; i++) ok &= VF_SAMEF(out.v[i], 0.0f);
        VF_CHK(ok, "no tone: silence")
        VF_CHK(vf_same_all(&cur, &in_cur), "no tone: state unchanged")
    } else {
        int k = dual ? id - 128 : 0;
        unsigned s1 = dual ? spec_step(4 * DUAL[k][0]) : spec_step(125 * id), s2 = dual ? spec_step(4 * DUAL[k][1]) : 0;
        unsigned p1 = (unsigned)in_cur.swn, p2 = (unsigned)in_cur.un;
        float gain = (float)ad / 127.0f * (32767.0f * 0.95f / 7.0f);
        for (int n = 0; n < 160; n++) {
            p1 += s1; p2 += s2;
            float x;
            if (dual) x = 0.5f * gain * spec_sine(p1) + 0.5f * gain * spec_sine(p2); else x = gain * spec_sine(p1);
            VF_CHK(VF_SAMEF(out.v[n], x), "sample of the tone")
        }
        VF_CHK((unsigned)cur.swn == p1 && (unsigned)cur.un == p2, "phase carried to the next frame")
        VF_CHK(same_rest(&cur, &in_cur), "rest of the state unchanged")
    }
    ok = 1; for (int i = 0; i < 49; i++) ok &= d.v[i] == in_d.v[i];
    VF_CHK(ok, "parameter bits unchanged")
}
#include "vf_main.h"
