"""behaviour-preserving edits: every listed check has to stay quiet.   refactors.py [ID...]
Runs <this tree>/run.py against a scratch clone of /repo with the edit applied."""
import os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def ref(id, props, *edits): R[id] = (props.split(), edits)

ref("fade-helper", "C19 C22", ("src/core/mbelib.c", "void\nmbe_synthesizeSpeechf(float* aout_buf", '''static int
mbe_fillMissingHarmonics(mbe_parms* a, mbe_parms* b) {
    const int la = a->L, lb = b->L;
    mbe_parms* shorter = la > lb ? b : a;
    const int hi = la > lb ? la : lb;
    for (int k = hi; k > shorter->L; --k) {
        shorter->Vl[k] = 1;
        shorter->Ml[k] = 0.0f;
    }
    return hi;
}

static float
mbe_wrapPhase(float x) {
    const float r = fmodf(x, MBE_TWO_PI);
    return r < 0.0f ? r + MBE_TWO_PI : r;
}

void
mbe_synthesizeSpeechf(float* aout_buf'''), ("src/core/mbelib.c", '''    if (cur_mp->L > prev_mp->L) {
        maxl = cur_mp->L;
        for (l = prev_mp->L + 1; l <= maxl; l++) {
            prev_mp->Ml[l] = 0.0f;
            prev_mp->Vl[l] = 1;
        }
    } else {
        maxl = prev_mp->L;
        for (l = cur_mp->L + 1; l <= maxl; l++) {
            cur_mp->Ml[l] = 0.0f;
            cur_mp->Vl[l] = 1;
        }
    }
''', "    maxl = mbe_fillMissingHarmonics(cur_mp, prev_mp);\n"), ("src/core/mbelib.c", '''        float prev_psil_wrapped = fmodf(prev_mp->PSIl[l], MBE_TWO_PI);
        if (prev_psil_wrapped < 0.0f) {
            prev_psil_wrapped += MBE_TWO_PI;
        }
''', "        const float prev_psil_wrapped = mbe_wrapPhase(prev_mp->PSIl[l]);\n"), ("src/core/mbelib.c", '''        if (l <= (cur_mp->L / 4)) {
            cur_mp->PHIl[l] = cur_mp->PSIl[l];
        } else {''', '''        cur_mp->PHIl[l] = cur_mp->PSIl[l];
        if (l > (cur_mp->L / 4)) {'''), ("src/core/mbelib.c", '''        if (cur_voiced || prev_voiced) {
            /* Use''', '''        if (!cur_voiced && !prev_voiced) {
            continue;
        }
        {
            /* Use'''))
ref("plan-lazy", "C19 C20 C22", ("src/core/mbelib.c", '''    if (MBE_LIKELY(mbe_fft_plan_instance != NULL)) {
        return mbe_fft_plan_instance;
    }
    mbe_fft_plan_instance = mbe_fft_plan_alloc();
    return mbe_fft_plan_instance;''', '''    mbe_fft_plan* p = mbe_fft_plan_instance;
    if (!p) {
        p = mbe_fft_plan_alloc();
        mbe_fft_plan_instance = p;
    }
    return p;'''), ("src/core/mbe_unvoiced_fft.c", '''    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {
        mbe_fft_plan_free(plan);
        return NULL;
    }
''', '''    const int complete = (plan->Uw != NULL) + (plan->Uw_fft != NULL) + (plan->Uw_out != NULL) + (plan->work != NULL);
    if (complete < 4) {
        mbe_fft_plan_free(plan);
        plan = NULL;
        return plan;
    }
'''))
ref("pcm-ternary", "C13 C14 C22", ("src/core/mbelib.c", '''        aout_buf[i] = (short)(audio);
    }
}

/**
 * @brief SSE2''', '''        const int whole = (int)audio;
        aout_buf[i] = (short)whole;
    }
}

/**
 * @brief SSE2'''), ("src/core/mbelib.c", "    mbe_synthesizeSpeechf(float_buf, cur_mp, prev_mp, uvquality);\n    mbe_floattoshort(float_buf, aout_buf);", "    float* const fb = float_buf;\n    mbe_synthesizeSpeechf(fb, cur_mp, prev_mp, uvquality);\n    mbe_floattoshort(fb, aout_buf);"))
ref("tone-unpack", "C15 C22", ("src/core/mbelib.c", '''    for (i = 0; i < 12; i++) {
        u0 = u0 << 1;
        u0 = u0 | (int)ambe_d[i];
    }

    for (i = 12; i < 24; i++) {
        u1 = u1 << 1;
        u1 = u1 | (int)ambe_d[i];
    }

    for (i = 24; i < 35; i++) {
        u2 = u2 << 1;
        u2 = u2 | (int)ambe_d[i];
    }

    for (i = 35; i < 49; i++) {
        u3 = u3 << 1;
        u3 = u3 | (int)ambe_d[i];
    }

    int AD,''', '''    for (i = 0; i < 49; i++) {
        int* const u = i < 12 ? &u0 : i < 24 ? &u1 : i < 35 ? &u2 : &u3;
        *u = (*u * 2) | (int)ambe_d[i];
    }

    int AD,'''), ("src/core/mbelib.c", '''        if (dual_tone) {
            phase2 += step2;
            float s2 = mbe_toneSampleFromPhase(phase2);
            aout_buf[n] = (0.5f * gain * s1) + (0.5f * gain * s2);
        } else {
            aout_buf[n] = gain * s1;
        }
    }
''', '''        if (!dual_tone) {
            aout_buf[n] = gain * s1;
            continue;
        }
        phase2 += step2;
        const float half = 0.5f * gain;
        aout_buf[n] = (half * s1) + (half * mbe_toneSampleFromPhase(phase2));
    }
'''))
ref("noise-loop", "C16 C22", ("src/core/mbe_unvoiced_fft.c", '''    for (int i = MBE_NOISE_OVERLAP; i < MBE_FFT_SIZE; i++) {
        buffer[i] = (float)state;
        state = (171u * state + 11213u) % 53125u;
    }
    *seed = (float)state;
''', '''    float* w = buffer + MBE_NOISE_OVERLAP;
    float* const end = buffer + MBE_FFT_SIZE;
    while (w != end) {
        *w++ = (float)state;
        state = (state * 171u + 11213u) % 53125u;
    }
    *seed = (float)state;
'''), ("src/core/mbe_adaptive.c", '''        float u = ((float)mbe_java_random_next_bits(24) / 16777216.0f) * 2.0f - 1.0f;
        aout_buf[i] = u * gain;
''', '''        const uint32_t r = mbe_java_random_next_bits(24);
        const float half = (float)r / 16777216.0f;
        aout_buf[i] = (half + half - 1.0f) * gain;
'''))
ref("smooth-split", "C17 C22", ("src/core/mbe_adaptive.c", '''    for (int l = 1; l <= L; l++) {
        if (M[l] > VM) {
            V[l] = 1; /* Force voiced when amplitude exceeds threshold */
        }
    }

    /* Algorithm #114: Calculate amplitude measure */
    float Am = 0.0f;
    for (int l = 1; l <= L; l++) {
        Am += M[l];
    }
''', '''    float Am = 0.0f;
    for (int l = 1; l <= L; l++) {
        V[l] = (M[l] > VM) ? 1 : V[l];
        Am += M[l];
    }
'''))
ref("golay-loop", "C01 C03 C04 C05 C22", ("src/ecc/ecc.c", '''    for (i = 0; i < 12; i++) {
        if ((block_u & mask) != 0u) {
            eccexpected ^= golayGenerator[i];
        }
        mask >>= 1;
    }
''', '''    for (i = 11; i >= 0; i--) {
        eccexpected ^= ((block_u >> (22 - i)) & 1u) ? golayGenerator[i] : 0;
    }
    (void)mask;
'''), ("src/ecc/ecc.c", '''    errs = 0;
    for (i = 22; i >= 11; i--) {
        if (out[i] != in[i]) {
            errs++;
        }
    }
    return errs;
''', '''    errs = 12;
    for (i = 11; i < 23; i++) {
        errs -= (out[i] == in[i]);
    }
    return errs;
'''))
ref("hamming-helper", "C02 C04 C05 C22", ("src/ecc/ecc.c", "int\nmbe_hamming1511(const char* in, char* out) {", '''static int
hamming_syndrome(uint32_t block, const int* gen) {
    int s = 0;
    for (int i = 3; i >= 0; i--) {
        uint32_t x = block & (uint32_t)gen[i] & 0x7fffu;
        x ^= x >> 8;
        x ^= x >> 4;
        x ^= x >> 2;
        x ^= x >> 1;
        s = (s << 1) | (int)(x & 1u);
    }
    return s;
}

int
mbe_hamming1511(const char* in, char* out) {'''), ("src/ecc/ecc.c", '''    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)hammingGenerator[i]);
        int stmp2 = (stmp & 1);
        for (j = 0; j < 14; j++) {
            stmp >>= 1;
            stmp2 ^= (stmp & 1);
        }
        syndrome |= (stmp2 << i);
    }
''', "    syndrome = hamming_syndrome(block, hammingGenerator);\n    (void)j;\n"), ("src/ecc/ecc.c", '''    syndrome = 0;
    for (i = 0; i < 4; i++) {
        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);
        int stmp2 = (stmp & 1);
        for (j = 0; j < 14; j++) {
            stmp >>= 1;
            stmp2 ^= (stmp & 1);
        }
        syndrome |= (stmp2 << i);
    }
''', "    syndrome = hamming_syndrome(block, imbe7100x4400hammingGenerator);\n    (void)j;\n"))

A25 = "src/ambe/ambe3600x2450.c"
ref("ambe-bits", "C07 C10 C22", (A25, "/**\n * @brief Internal AMBE 2450 parameter decode", '''static int
ambe_field(const char* d, int first, int count, int last, int tail) {
    int v = 0;
    while (count-- > 0) {
        v = (v << 1) | d[first++];
    }
    while (tail-- > 0) {
        v = (v << 1) | d[last++];
    }
    return v;
}

/**
 * @brief Internal AMBE 2450 parameter decode'''), (A25, '''    b3 = 0;
    b3 |= ambe_d[12] << 8;
    b3 |= ambe_d[13] << 7;
    b3 |= ambe_d[14] << 6;
    b3 |= ambe_d[15] << 5;
    b3 |= ambe_d[16] << 4;
    b3 |= ambe_d[17] << 3;
    b3 |= ambe_d[18] << 2;
    b3 |= ambe_d[19] << 1;
    b3 |= ambe_d[40];
''', "    b3 = ambe_field(ambe_d, 12, 8, 40, 1);\n"), (A25, '''    for (k = 3; k <= Ji[1]; k++) {
        if (k > 6) {
            Cik[1][k] = 0;
        } else {
            Cik[1][k] = AmbeHOCb5[b5][k - 3];
''', '''    for (k = Ji[1]; k >= 3; k--) {
        Cik[1][k] = 0;
        if (k <= 6) {
            Cik[1][k] = AmbeHOCb5[b5][k - 3];
'''), (A25, '''        if (cur_mp->Vl[l] == 1) {
            cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
        } else {
            cur_mp->Ml[l] = unvc * exp2f(cur_mp->log2Ml[l]);
        }
''', '''        const float mag = exp2f(cur_mp->log2Ml[l]);
        cur_mp->Ml[l] = (cur_mp->Vl[l] != 1) ? (unvc * mag) : mag;
'''), (A25, '''    if (cur_mp->L > prev_mp->L) {
        for (l = (prev_mp->L) + 1; l <= cur_mp->L; l++) {
            prev_mp->Ml[l] = prev_mp->Ml[prev_mp->L];
            prev_mp->log2Ml[l] = prev_mp->log2Ml[prev_mp->L];
        }
    }
    prev_mp->log2Ml[0] = prev_mp->log2Ml[1];
    prev_mp->Ml[0] = prev_mp->Ml[1];
''', '''    const float lastMl = prev_mp->Ml[prev_mp->L];
    const float lastLog = prev_mp->log2Ml[prev_mp->L];
    for (l = cur_mp->L; l > prev_mp->L; l--) {
        prev_mp->log2Ml[l] = lastLog;
        prev_mp->Ml[l] = lastMl;
    }
    prev_mp->Ml[0] = prev_mp->Ml[1];
    prev_mp->log2Ml[0] = prev_mp->log2Ml[1];
'''))
ref("ambe-switch", "C10 C13 C21 C22", (A25, '''    for (i = 0; i < *errs2; i++) {
        *err_str = '=';
        err_str++;
    }

    //it should''', '''    const int total = *errs2;
    for (i = total; i > 0; --i) {
        *err_str++ = '=';
    }

    //it should'''), (A25, "    } else if (bad == 3 || bad == 7) {\n        // Tone Frame\n        *err_str = 'T';\n        err_str++;\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;\n", "    } else if (bad == 7 || bad == 3) {\n        // Tone Frame\n        cur_mp->repeatCount = 0;\n        cur_mp->repeat = 0;\n        *err_str++ = 'T';\n"), (A25, '''            repeat_required = ((c0_errors >= 4) || ((c0_errors >= 2) && (*errs2 >= 6)));''', '''            repeat_required = c0_errors >= ((total < 6) ? 4 : 2);'''), (A25, '''    *errs = 0;
    *errs2 = 0;
    *errs = mbe_eccAmbe3600x2450C0(ambe_fr);
    mbe_demodulateAmbe3600x2450Data(ambe_fr);
    *errs2 = *errs;
    *errs2 += mbe_eccAmbe3600x2450Data(ambe_fr, ambe_d);
''', '''    const int c0 = mbe_eccAmbe3600x2450C0(ambe_fr);
    mbe_demodulateAmbe3600x2450Data(ambe_fr);
    *errs = c0;
    *errs2 = c0 + mbe_eccAmbe3600x2450Data(ambe_fr, ambe_d);
'''))
U = "src/core/mbe_unvoiced_fft.c"
ref("unvoiced-fuse", "C20 C19 C22", (U, '''    for (int l = 1; l <= L; l++) {
        a_min[l] = (int)ceilf((l - 0.5f) * multiplier);
        b_max[l] = (int)ceilf((l + 0.5f) * multiplier);
        /* Clamp to valid bin range */
        if (a_min[l] < 0) {
            a_min[l] = 0;
        }
        if (b_max[l] > MBE_FFT_SIZE / 2) {
            b_max[l] = MBE_FFT_SIZE / 2;
        }
    }

    /* Algorithm #120: Calculate band-level scaling for unvoiced bands
     * Uses SIMD-optimized magnitude accumulation when available */
    for (int l = 1; l <= L; l++) {
        if (cur_mp->Vl[l] == 0) { /* Unvoiced band */
            int bin_count = b_max[l] - a_min[l];
            float numerator = mbe_magnitude_squared_sum(Uw_fft, a_min[l], b_max[l]);
''', '''    (void)a_min;
    (void)b_max;
    for (int l = 1; l <= L; l++) {
        const int lo0 = (int)ceilf(multiplier * ((float)l - 0.5f));
        const int hi0 = (int)ceilf(multiplier * ((float)l + 0.5f));
        const int lo = lo0 < 0 ? 0 : lo0;
        const int hi = hi0 < MBE_FFT_SIZE / 2 ? hi0 : MBE_FFT_SIZE / 2;
        if (!cur_mp->Vl[l]) { /* Unvoiced band */
            int bin_count = hi - lo;
            float numerator = mbe_magnitude_squared_sum(Uw_fft, lo, hi);
'''), (U, "                for (int bin = a_min[l]; bin < b_max[l]; bin++) {\n                    dftBinScalor[bin] = scalor;\n                }", "                int bin = lo;\n                do {\n                    dftBinScalor[bin++] = scalor;\n                } while (bin < hi);"), (U, '''        float w = (win_idx >= -105 && win_idx <= 105) ? mbe_synthesisWindow_fast(win_idx) : 0.0f;
        Uw[i] = noise_buffer[i] * w;''', '''        Uw[i] = mbe_synthesisWindow(win_idx) * noise_buffer[i];'''))
ref("enhance-table", "C18 C17 C22", ("src/core/mbelib.c", '''        float c = 1.0f, s = 0.0f;
        for (l = 1; l <= L; ++l) {
            float cn = (c * c_step) - (s * s_step);
            float sn = (s * c_step) + (c * s_step);
            c = cn;
            s = sn;
            cos_tab[l] = c;
        }''', '''        float sin_tab[57];
        cos_tab[0] = 1.0f;
        sin_tab[0] = 0.0f;
        for (l = 0; l < L; ++l) {
            cos_tab[l + 1] = (cos_tab[l] * c_step) - (sin_tab[l] * s_step);
            sin_tab[l + 1] = (sin_tab[l] * c_step) + (cos_tab[l] * s_step);
        }'''), ("src/core/mbelib.c", '''            if ((8 * l) <= L) {
                /* no-op for low harmonics */
            } else if (Wl[l] > 1.2f) {
                cur_mp->Ml[l] = 1.2f * cur_mp->Ml[l];
            } else if (Wl[l] < 0.5f) {
                cur_mp->Ml[l] = 0.5f * cur_mp->Ml[l];
            } else {
                cur_mp->Ml[l] = Wl[l] * cur_mp->Ml[l];
            }''', '''            float w = Wl[l];
            if (w > 1.2f) {
                w = 1.2f;
            } else if (w < 0.5f) {
                w = 0.5f;
            }
            if (l > L / 8) {
                cur_mp->Ml[l] *= w;
            }'''))
I71 = "src/imbe/imbe7100x4400.c"
ref("imbe7100-demod", "C06 C05 C12 C22", (I71, '''    for (i = 1; i < 101; i++) {
        pr[i] = (173 * pr[i - 1]) + 13849 - (65536 * (((173 * pr[i - 1]) + 13849) / 65536));
    }''', '''    for (i = 1; i < 101; i++) {
        pr[i] = (unsigned short)(173u * pr[i - 1] + 13849u);
    }'''), (I71, '''    j = 0;
    tmpstr[7] = 0;
    for (i = 18; i > 11; i--) {
        tmpstr[j] = (imbe[0][i] + 48);
        j++;
    }
    seed = strtol(tmpstr, NULL, 2);
''', '''    (void)tmpstr;
    seed = 0;
    for (i = 18; i > 11; i--) {
        seed = (unsigned short)(2 * seed + imbe[0][i]);
    }
'''), (I71, '''    //copy new format back to imbe_d

    for (i = 0; i < 88; i++) {
        imbe_d[i] = tmp_imbe[i];
    }''', '''    memcpy(imbe_d, tmp_imbe, sizeof tmp_imbe);'''), (I71, "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))

A24 = "src/ambe/ambe3600x2400.c"
I72 = "src/imbe/imbe7200x4400.c"
ref("predict-helper", "C07 C24 C22", (A25, '''        Sum43 = Sum43
                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
''', '''        Sum43 += ambe2450_interpolate(prev_mp, intkl[l], deltal[l]);
'''), (A25, '''        c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
        // inverse log to generate spectral amplitudes
        if (cur_mp->Vl[l] == 1) {
            cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
        } else {
            cur_mp->Ml[l] = unvc * exp2f(cur_mp->log2Ml[l]);
        }
''', '''        const int k0 = intkl[l];
        const int k1 = (k0 < 56) ? (k0 + 1) : 56;
        float v;
        c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[k0]);
        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[k1]);
        v = Tl[l] + c1 + c2 - Sum43 + BigGamma;
        cur_mp->log2Ml[l] = v;
        v = exp2f(v);
        cur_mp->Ml[l] = (cur_mp->Vl[l] != 1) ? unvc * v : v;
'''), (A25, "/**\n * @brief Internal AMBE 2450 parameter decode", '''static float
ambe2450_interpolate(const mbe_parms* p, int k, float d) {
    int up = k + 1;
    if (k >= 56) {
        up = 56;
    }
    const float low = ((float)1 - d) * p->log2Ml[k];
    const float high = d * p->log2Ml[up];
    return low + high;
}

/**
 * @brief Internal AMBE 2450 parameter decode'''))
ref("predict-reassoc", "C08 C24", (A24, '''        c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
''', '''        c1 = ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]] * (float)0.65;
        c2 = deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56] * (float)0.65;
'''))
ref("imbe-rho-helper", "C09 C24 C22", (I72, '''    if (cur_mp->L <= 15) {
        rho = 0.4;
    } else if (cur_mp->L <= 24) {
        rho = (0.03 * (float)cur_mp->L) - 0.05;
    } else {
        rho = 0.7;
    }
''', '''    rho = imbe_predictionGain(cur_mp->L);
'''), (I72, "/**\n * @brief Decode IMBE 4400 parameters from demodulated bitstream", '''static float
imbe_predictionGain(int L) {
    if (L > 24) {
        return 0.7f;
    }
    return (L > 15) ? (float)((0.03 * (float)L) - 0.05) : 0.4f;
}

/**
 * @brief Decode IMBE 4400 parameters from demodulated bitstream'''), (I72, '''        c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
        c2 = (rho * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
''', '''        const float* log2Prev = &prev_mp->log2Ml[intkl[l]];
        const float above = (intkl[l] < 56) ? log2Prev[1] : log2Prev[0];
        c1 = (rho * ((float)1 - deltal[l]) * log2Prev[0]);
        c2 = (rho * deltal[l] * above);
        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
'''))

def run(id):
    props, edits = R[id]
    w = "/tmp/rf_" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    os.makedirs(w + "/_build/dev-debug", exist_ok=True)
    if os.path.isdir("/repo/_build/dev-debug/include"): shutil.copytree("/repo/_build/dev-debug/include", w + "/_build/dev-debug/include")
    for f, a, b in edits:
        s = open(w + "/" + f).read()
        if s.count(a) != 1: sys.exit("%s: %d matches for %r" % (id, s.count(a), a[:60]))
        open(w + "/" + f, "w").write(s.replace(a, b))
    r = subprocess.run("cmake --preset dev-debug -S . -B %s.b -G Ninja && ninja -C %s.b && ctest --test-dir %s.b -j4" % (w, w, w), shell=True, cwd=w, capture_output=True, text=True)
    print(id, "tests", "ok" if r.returncode == 0 else "FAIL\n" + (r.stdout + r.stderr)[-1500:], flush=True)
    shutil.rmtree(w + ".b", ignore_errors=True)
    for p in os.environ.get("RF_PROPS", "").split() or props:
        t = time.time()
        r = subprocess.run([sys.executable, HERE + "/run.py", p], env=dict(os.environ, VF_REPO=w), capture_output=True, text=True)
        l = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "undecided" in x or "tasks" in x]
        print("  %s exit %d %.0fs %s" % (p, r.returncode, time.time() - t, " | ".join(l)[:300]), flush=True)
    shutil.rmtree(w, ignore_errors=True)

for i in sys.argv[1:] or R: run(i)
