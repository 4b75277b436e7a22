prop("C01", "Golay(23,12) decoding corrects every word to the nearest codeword",
 "For every 23-bit received word, decoding yields the 12 data bits of the unique codeword of the cyclic (23,12) Golay code (generator x^11+x^10+x^6+x^5+x^4+x^2+1, data in the high 12 bits) at Hamming distance at most 3, so any pattern of up to three bit errors is repaired. The returned count is exactly the number of data bits changed (0 to 3), the low 11 cells are passed through unchanged, and the input array is not modified.",
 ["inputs"], "all 2^23 received words, both the packed-word and the bit-array entry point",
 "test_ecc samples a few hundred single- to triple-error words; a wrong entry in the 2048-entry correction table or a wrong generator row only shows for particular syndromes.",
 ["src/ecc/ecc.c", "src/ecc/ecc_const.c"], [("mbe_checkGolayBlock", "src/ecc/ecc.c"), ("mbe_golay2312", "src/ecc/ecc.c"), ("golayMatrix / golayGenerator", "src/ecc/ecc_const.c")],
 level_note="Proof for all 2^23 words of the compiled source against a spec generated from the generator polynomial; lemmas show the spec is nearest-codeword decoding. Cells must hold 0/1.", observe=["mbe_golay2312", "mbe_checkGolayBlock"])
prop("C02", "Hamming(15,11) decoding corrects every word, in both code variants",
 "For every 15-bit received word and for both parity-check matrices (the standard one and the 7100x4400 one), the output is a codeword that differs from the input in exactly the returned number of bits. The returned number is 0 exactly when the input already was a codeword and 1 otherwise, and the input array is not modified.",
 ["inputs"], "all 2^15 received words for each of the two codes",
 "Tests try selected single-error words; each of the 15 table slots per code must be right for every codeword.",
 ["src/ecc/ecc.c", "src/ecc/ecc_const.c"], [("mbe_hamming1511", "src/ecc/ecc.c"), ("mbe_7100x4400hamming1511", "src/ecc/ecc.c")],
 level_note="Proof for all 2^15 words per code. The four parity-check rows are part of the specification.", observe=["mbe_hamming1511", "mbe_7100x4400hamming1511"])
prop("C03", "AMBE 3600 frame error correction and parameter packing",
 "For every 4x24 AMBE frame (both the 2400 and 2450 entry points), first-vector correction Golay-corrects cells 1..23 of row 0 and, only when that word is error free, repairs the extra parity cell 0 to even parity, returning the data-bit corrections (or 1 for a parity repair) and touching nothing else. Data extraction produces the 49 parameter bits: row 0 cells 23..12 as received, the 12 Golay-corrected bits of row 1 (cells 22..0), row 2 cells 10..0 and row 3 cells 13..0, most significant first. It returns the number of data bits corrected in row 1 and does not modify the frame.",
 ["inputs"], "every assignment of bits to the 4x24 frame",
 "Golden tests push a handful of frames; bit order, the parity rule and the error count must hold for all 2^72 transmitted patterns.",
 ["src/ambe/ambe_common.c", "src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c"], [("mbe_eccAmbe3600C0_common", "src/ambe/ambe_common.c"), ("mbe_eccAmbe3600Data_common", "src/ambe/ambe_common.c")],
 level_note="Proof for all frames; the Golay decoder is used through its contract (the one C01 discharges).")
prop("C04", "IMBE 7200x4400 frame error correction and parameter packing",
 "For every 8x23 IMBE frame, first-vector correction replaces row 0 by its Golay-corrected word, returns the number of data bits corrected and touches nothing else. Data extraction produces the 88 parameter bits in order: row 0 cells 22..11 as they stand, the corrected 12 data bits of rows 1 to 3, the corrected 11 data bits of rows 4 to 6, and row 7 cells 6..0. It returns the sum of the corrections reported for rows 1 to 6 and leaves the frame unmodified.",
 ["inputs"], "every assignment of bits to the 8x23 frame",
 "Tests cover a few frames; the packing and count must hold for all 2^144 patterns.",
 ["src/imbe/imbe7200x4400.c"], [("mbe_eccImbe7200x4400C0", "src/imbe/imbe7200x4400.c"), ("mbe_eccImbe7200x4400Data", "src/imbe/imbe7200x4400.c")],
 level_note="Proof for all frames over the block-code contracts discharged by C01 and C02.")
prop("C05", "IMBE 7100x4400 error correction, packing and reordering to 7200 layout",
 "For every 7x24 frame, first-vector correction Golay-corrects the shortened 18-bit word in row 0 cells 18..1 (missing data bits zero), returns the decoder's count and touches nothing else; data extraction emits row 0 cells 18..12, corrected data of row 1 (cells 23..1), rows 2 and 3, the corrected 11 data bits (7100 Hamming variant) of rows 4 and 5, and row 6 cells 22..0, returning the sum of corrections for rows 1 to 5. Reordering to the 7200 layout moves bit 0 to position 87, places the K voicing bits (source 44..) at 48.. followed by source bits 42 and 43, and keeps all other bits in sequence, where K follows from the 8-bit pitch field (positions 1-6, 86, 87) by the standard rule. It is a permutation of the 88 bits for every pitch value.",
 ["inputs"], "every assignment of bits to the 7x24 frame and to the 88-bit vector, all 256 pitch values",
 "No test exercises the reordering for more than a few pitch values; the split point depends on pitch.",
 ["src/imbe/imbe7100x4400.c"], [("mbe_eccImbe7100x4400C0", "src/imbe/imbe7100x4400.c"), ("mbe_eccImbe7100x4400Data", "src/imbe/imbe7100x4400.c"), ("mbe_convertImbe7100to7200", "src/imbe/imbe7100x4400.c")],
 level_note="Proof for all inputs; K is specified by exact rational arithmetic; strtol is modelled exactly for base-2 strings.")
prop("C06", "Pseudo-noise demodulation applies the exact seeded bit sequence",
 "For every frame of each codec (AMBE 2400, AMBE 2450, IMBE 7200x4400, IMBE 7100x4400), demodulation XORs the modulated rows, most significant cell first and row after row, with the top bits of the sequence x0 = 16*seed, x(n+1) = (173*x(n)+13849) mod 65536, where the seed is the information part of row 0 (12 bits; 7 bits for 7100x4400). AMBE modulates row 1 (23 cells); IMBE 7200 rows 1-3 (23 cells) and 4-6 (15 cells); IMBE 7100 row 1 (24 cells), rows 2-3 (23 cells) and 4-5 (15 cells). Every other cell is left unchanged, hence applying it twice restores the frame.",
 ["inputs"], "every seed and every content of the modulated cells",
 "Tests compare a few demodulated frames; all 4096 seeds and all positions matter, and a slip in one index only shows for particular seeds.",
 ["src/ambe/ambe_common.c", "src/imbe/imbe7200x4400.c", "src/imbe/imbe7100x4400.c"], [("mbe_demodulateAmbe3600Data_common", "src/ambe/ambe_common.c"), ("mbe_demodulateImbe7200x4400Data", "src/imbe/imbe7200x4400.c"), ("mbe_demodulateImbe7100x4400Data", "src/imbe/imbe7100x4400.c")],
 level_note="Proof for all frames against an independent recurrence; strtol is modelled exactly for base-2 strings.")
prop("C07", "AMBE 3600x2450 parameter decoding follows the vocoder equations",
 "For every 49-bit parameter vector and every previous state with 9 to 56 harmonics, mbe_decodeAmbe2450Parms returns 7 for a verified tone frame, 2 for an erasure/reserved pitch index and 0 for voice or silence; the error-aware form used by the frame functions classifies alike, except that no frame with six or more known bit errors is a tone frame. For voice and silence it sets fundamental, number of harmonics, voicing decisions, gain, log magnitudes and magnitudes to the values the half-rate vocoder equations and annex tables give, computed from the transmitted indices and the previous frame's harmonic count, gain and log magnitudes. Phases, energy/error tracking, noise state, repeat counts and the previous frame's valid bands are left alone, and the result does not depend on which frames were decoded earlier on the thread other than through the states passed in.",
 ["inputs", "history"], "all 2^49 parameter vectors x previous harmonic count 9..56 x all previous log magnitudes and gains, cold and warm internal caches",
 "Golden vectors touch a few pitch/gain/codebook indices; 128 pitch values times codebooks times previous harmonic counts cannot be sampled, and a wrong codebook cell or band split shows only for particular indices.",
 ["src/ambe/ambe3600x2450.c", "src/ambe/ambe_common.c", "src/internal/ambe3600x2450_const.h"], [("mbe_decodeAmbe2450Parms", "src/ambe/ambe3600x2450.c"), ("mbe_decodeAmbe2450ParmsInternal", "src/ambe/ambe3600x2450.c"), ("ambe2450_get_dct_cache", "src/ambe/ambe3600x2450.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source for all inputs (case split on the 128 pitch indices); float operators are uninterpreted on non-constant operands, so the code is shown to compute the specified expression; the quantiser tables are frozen copies. Own prover lib/irsym.py is trusted.")
prop("C08", "AMBE 3600x2400 parameter decoding follows the vocoder equations",
 "For every 49-bit parameter vector and every previous state with 9 to 56 harmonics, mbe_decodeAmbe2400Parms returns the D-STAR tone index 5..122 for a single-tone frame, 3 for any other tone-class frame (which becomes a silence model unless it is a dual tone 128..163), and 0 for voice. For voice it sets fundamental, harmonic count, voicing, gain, log magnitudes and magnitudes to the values the vocoder equations and tables give from the transmitted indices and the previous frame. Phases, energy/error tracking, noise state, repeat counts and the previous frame's valid bands are left alone, and the result does not depend on earlier frames other than through the states passed in.",
 ["inputs", "history"], "all 2^49 parameter vectors x previous harmonic count 9..56 x all previous log magnitudes and gains, cold and warm internal caches",
 "Tests decode a few D-STAR frames; the tone index code and the codebook/band-split combinations are not sampled.",
 ["src/ambe/ambe3600x2400.c", "src/ambe/ambe_common.c", "src/internal/ambe3600x2400_const.h"], [("mbe_decodeAmbe2400Parms", "src/ambe/ambe3600x2400.c"), ("ambe_get_dct_cache", "src/ambe/ambe3600x2400.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source for all inputs (case split on the 128 pitch indices); float operators uninterpreted on non-constant operands; tables are frozen copies. Own prover lib/irsym.py is trusted.")
prop("C09", "IMBE 4400 parameter decoding follows the vocoder equations",
 "For every 88-bit parameter vector and every previous state with 9 to 56 harmonics, mbe_decodeImbe4400Parms returns 1 exactly when the 8-bit pitch index exceeds 207 and otherwise returns 0 with fundamental 4*pi/(b0+39.5), the harmonic count L and band count K that follow from it, voicing per band of three harmonics, and log magnitudes and magnitudes equal to the values the full-rate equations give from the dequantised gain vector and DCT coefficients (bit allocation per L) and the log-magnitude prediction from the previous frame with coefficient 0.4, 0.03L-0.05 or 0.7. Phases, gain, energy/error tracking, noise state, repeat counts and the previous frame's valid bands are left alone, and earlier frames matter only through the states passed in.",
 ["inputs", "history"], "all 2^88 parameter vectors x previous harmonic count 9..56 x all previous log magnitudes, cold and warm internal caches",
 "The bit allocation differs for each of 48 harmonic counts; tests see a handful of them.",
 ["src/imbe/imbe7200x4400.c", "src/internal/imbe7200x4400_const.h"], [("mbe_decodeImbe4400Parms", "src/imbe/imbe7200x4400.c"), ("imbe_get_dct_cache", "src/imbe/imbe7200x4400.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source for all inputs (case split on the 256 pitch indices); float operators uninterpreted on non-constant operands; tables are frozen copies; strtol is modelled exactly for base-2 strings. Own prover lib/irsym.py is trusted.")
IRNOTE = "Proof over LLVM IR of the real source; callees are used through recorded, opaque contracts. Own prover lib/irsym.py is trusted."
prop("C10", "AMBE 2450 frame state machine: repeat, mute, erasure and tone handling",
 "For every AMBE 2450 frame or parameter vector, error counts and decoder states, one processing call does exactly this. A wrong muting threshold in the previous state first resets all states to the start-up state. The smoothed error rate becomes 0.95*previous + 0.001064*errors. An erasure frame outputs comfort noise and stores an erasure state keeping phases and noise memory. A valid tone frame outputs the tone; an invalid tone index repeats the previous enhanced speech model while fewer than 4 repeats are counted, else comfort noise and reset. A voice frame is repeated (previous parameters, repeat counters up by one) when more than 3 errors are reported, or, for full frames, when the first vector has 4 or more errors, or 2 or more with at least 6 in total. The fourth consecutive repeat outputs comfort noise and resets; otherwise repeat counters clear and the speech model is enhanced, synthesised and remembered. The status string is one '=' per error followed by E, T, R, M as they apply, zero terminated.",
 ["inputs", "history"], "all parameter vectors/frames, error counts 0..80, all previous, current and enhanced states, all results of the decoding and synthesis steps; float and int16, parameter and frame entry points",
 "State machines depend on history (repeat counters, thresholds, previous models); tests drive a few short sequences and never a full frame with each error split.",
 ["src/ambe/ambe3600x2450.c", "src/ambe/ambe_common.c", "src/core/mbelib.c"], [("mbe_processAmbe2450Dataf", "src/ambe/ambe3600x2450.c"), ("mbe_processAmbe3600x2450Framef", "src/ambe/ambe3600x2450.c"), ("mbe_setAmbeErasureParms_common", "src/ambe/ambe_common.c")],
 technique=TECH_IR, level_note=IRNOTE, observe=["audio buffer", "err_str", "errs", "errs2", "cur_mp", "prev_mp", "prev_mp_enhanced"])
prop("C11", "AMBE 2400 (D-STAR) frame state machine: repeat, mute and tone handling",
 "For every AMBE 2400 frame or parameter vector, error counts and decoder states, one processing call does exactly this. A wrong muting threshold in the previous state first resets all states to the start-up state; the smoothed error rate becomes 0.95*previous + 0.001064*errors. A single tone 7..122 with fewer than 2 first-vector errors and fewer than 3 errors in total is rendered as that tone and the current state is remembered; any other tone-class frame outputs comfort noise and resets all states (status R for a single tone with more than 3 errors, T for other tone frames). A voice frame with more than 3 errors is repeated from the previous parameters with the repeat counters up by one; on the fourth consecutive repeat comfort noise is output and all states reset; otherwise the counters clear and the speech model is enhanced, synthesised and remembered. The status string is one '=' per error followed by these letters, zero terminated.",
 ["inputs", "history"], "all parameter vectors/frames, error counts 0..80, all states, all results of the decoding and synthesis steps; float and int16, parameter and frame entry points",
 "State machines depend on history and on the exact error split; tests drive a few short sequences.",
 ["src/ambe/ambe3600x2400.c", "src/ambe/ambe_common.c", "src/core/mbelib.c"], [("mbe_processAmbe2400Dataf", "src/ambe/ambe3600x2400.c"), ("mbe_processAmbe3600x2400Framef", "src/ambe/ambe3600x2400.c")],
 technique=TECH_IR, level_note=IRNOTE, observe=["audio buffer", "err_str", "errs", "errs2", "cur_mp", "prev_mp", "prev_mp_enhanced"])
prop("C12", "IMBE frame state machine: repetition, model reset and mute marking",
 "For every IMBE frame (7200x4400 and 7100x4400) or 4400 parameter vector, error counts and decoder states, one processing call does exactly this. Muting threshold is 0.0875 and the smoothed error rate becomes 0.95*previous + 0.000365*errors. The frame is repeated from the previous parameters (repeat counters up by one) when the pitch index is reserved, or, for full frames, when the first vector has 2 or more errors and the total reaches 10 + 40*error rate, or, for bare parameter vectors, when more than 5 errors are reported; after four consecutive repeats the model is replaced by the default 39-harmonic voice model. Otherwise the repeat counters clear. The model is then stored as previous, enhanced, synthesised, and stored as enhanced previous. For full frames the fifth code vector's Hamming errors are recorded as errorCount4. The status string is one '=' per error, R for a repeat and M when repeats reach 4 or the error rate exceeds the threshold, zero terminated.",
 ["inputs", "history"], "all frames and parameter vectors, error counts 0..80, all states, all results of the decoding and synthesis steps; float and int16, parameter and frame entry points",
 "Repeat thresholds depend on the error split and on the smoothed error history; tests sample a few sequences.",
 ["src/imbe/imbe7200x4400.c", "src/imbe/imbe7100x4400.c", "src/core/mbelib.c"], [("mbe_processImbe4400Dataf", "src/imbe/imbe7200x4400.c"), ("mbe_processImbe7200x4400Framef", "src/imbe/imbe7200x4400.c"), ("mbe_processImbe7100x4400Framef", "src/imbe/imbe7100x4400.c")],
 technique=TECH_IR, level_note=IRNOTE, observe=["audio buffer", "err_str", "errs", "errs2", "cur_mp", "prev_mp", "prev_mp_enhanced"])
prop("C13", "Frame entry points compose the pipeline; int16 and float variants agree",
 "For every codec and every frame, a frame entry point corrects the first vector, demodulates, corrects and extracts the parameters (7100x4400 also reorders them), reports the first-vector corrections and their sum with the remaining corrections, and then processes exactly those parameters. The int16 entry points produce the same status string, error counts and decoder states as the float ones, and their samples are the float entry point's samples passed once through the 16-bit conversion.",
 ["inputs", "history"], "all frames, parameter vectors, error counts 0..80 and decoder states, for the AMBE 2450, AMBE 2400, IMBE 7200x4400 and IMBE 7100x4400 entry points",
 "Tests compare float and int16 output for single frames from a fresh decoder; equality must hold in every state and every branch.",
 ["src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/imbe/imbe7200x4400.c", "src/imbe/imbe7100x4400.c"], [("mbe_processAmbe3600x2450Frame", "src/ambe/ambe3600x2450.c"), ("mbe_processAmbe3600x2400Frame", "src/ambe/ambe3600x2400.c"), ("mbe_processImbe7200x4400Frame", "src/imbe/imbe7200x4400.c"), ("mbe_processImbe7100x4400Frame", "src/imbe/imbe7100x4400.c")],
 technique=TECH_IR, level_note=IRNOTE)
prop("C14", "16-bit output is the float signal times 7, limited and truncated",
 "For every buffer of 160 non-NaN float samples (infinities included), conversion to 16-bit writes exactly trunc(clamp(7*x, -0.95*32767, 0.95*32767)) for each sample, in the scalar and in the SIMD build alike, and leaves the input alone. The 16-bit speech synthesis and comfort-noise functions run their float counterpart exactly once on the same states, leave the states as the float function leaves them, and output the converted float samples. The silence functions write 160 zero samples.",
 ["inputs"], "all float buffers, all decoder states and float results",
 "Tests convert one ramp and a few extremes; a lane mix-up, a saturation slip or a boundary error at the limit needs particular values in particular positions.",
 ["src/core/mbelib.c", "src/core/mbe_adaptive.c"], [("mbe_floattoshort", "src/core/mbelib.c"), ("mbe_synthesizeSpeech", "src/core/mbelib.c"), ("mbe_synthesizeComfortNoise", "src/core/mbe_adaptive.c"), ("mbe_synthesizeSilence", "src/core/mbelib.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source for all inputs, scalar and SSE2 builds; comparisons are decided by an order theory of IEEE values. NEON code is not covered. Own prover lib/irsym.py is trusted.")
prop("C15", "Tone frames render the indexed tone, phase-continuous across frames",
 "For every 49-bit AMBE 2450 tone frame, the tone index is bits 12..19 and the amplitude index AD is bits 6..11 and 44. Index 5..122 renders one sinusoid at 31.25*index Hz, index 128..163 two sinusoids of half amplitude at the frequencies of the dual-tone table (DTMF, KNOX, call progress), with amplitude AD/127 of the soft-clip level 0.95*32767/7. The phases start where the previous frame's ended (accumulators swn and un advance by round(f/8000*2^32) per sample) and are stored back. D-STAR tones 5..122 are rendered the same way with AD 103. Any other index, and every tone when tones are disabled at build time, yields 160 zero samples and leaves the state alone. Nothing else in the state and no parameter bit changes.",
 ["inputs", "history"], "all 2^49 parameter vectors, all D-STAR indices (any int), all phase accumulators and states; builds with and without tones",
 "Tests render a handful of tone indices; 154 valid indices times 128 amplitudes and arbitrary carried phases are not sampled.",
 ["src/core/mbelib.c"], [("mbe_synthesizeTonef", "src/core/mbelib.c"), ("mbe_synthesizeTonefdstar", "src/core/mbelib.c"), ("mbe_renderTonef", "src/core/mbelib.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source for all inputs (case split on the 256 tone indices); sinf is uninterpreted; the dual-tone table is a frozen copy. Own prover lib/irsym.py is trusted.")
prop("C16", "Noise generators are exact, seedable and continue across frames",
 "From any generator state, comfort noise emits 160 samples of the 48-bit generator s' = (0x5DEECE66D*s + 11) mod 2^48, each the top 24 bits mapped to [-1,1) and scaled by 0.003*32767/7, and leaves the state advanced by exactly 160 steps, so the sequence continues into the next frame; a thread that never seeded starts from seed 0x12345678. After mbe_setThreadRngSeed(s) the comfort noise depends on s only (0 selects 0x6d25357b), whatever was generated before. Unvoiced noise is the generator x' = (171x + 11213) mod 53125: each frame's 256-sample buffer is the 96 samples kept from the previous frame followed by 160 new ones, whose last 96 are kept, with the state advanced by 160; a cold start (negative state) gives a zero buffer, and starts from the thread's seed mod 53125 once if one was given, otherwise from 3147.",
 ["inputs", "history"], "every 48-bit state, every seed, every LCG state, every kept overlap: inductive over any number of frames",
 "Tests compare a few seeds; an error at one generator state or in the hand-over between frames shows only in long runs.",
 ["src/core/mbelib.c", "src/core/mbe_adaptive.c", "src/core/mbe_unvoiced_fft.c"], [("mbe_synthesizeComfortNoisef", "src/core/mbe_adaptive.c"), ("mbe_setThreadRngSeed", "src/core/mbelib.c"), ("mbe_generate_noise_with_overlap", "src/core/mbe_unvoiced_fft.c"), ("mbe_seedUnvoicedNoiseLcg", "src/core/mbe_unvoiced_fft.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the real source from every generator state (so for any number of frames). Own prover lib/irsym.py is trusted.")

prop("C17", "Adaptive smoothing follows its energy, threshold and muting rules",
 "For every frame state: with rate r, total errors t and energy e = max(0.95*prev + 0.05*RM0, 10000) (prev = previous local energy, 75000 if below 10000; RM0 = pre-enhancement energy handed over for exactly this state, used once and left untouched when it belongs to another state, else the sum of M_l^2), smoothing sets localEnergy = e; every unvoiced band whose amplitude exceeds Vm is made voiced, Vm = unlimited if r <= 0.005 and t <= 4, 45.255*e^(3/8)/exp(277.26 r) if r <= 0.0125 and errorCount4 == 0, else 1.414*e^(3/8); the amplitude threshold is 20480 if r <= 0.005 and t <= 6, else 6000 - 300 t + previous threshold (20480 if not positive), saturated to int; when the amplitude sum exceeds it, every amplitude is scaled by threshold/sum; nothing else changes. Smoothing is required iff r > 0.0125 or t > 4, error-rate muting iff r > the frame's muting threshold, repeat muting iff repeatCount reached the limit, and a null state needs none of them.",
 ["inputs", "history"], "every harmonic count 0..56, every amplitude, voicing, rate, energy, threshold and count (one symbolic proof per harmonic count)",
 "The rules only matter under channel errors with particular energies; tests reach one or two branches with one amplitude set.",
 ["src/core/mbe_adaptive.c"], [("mbe_applyAdaptiveSmoothing", "src/core/mbe_adaptive.c"), ("mbe_requiresMuting", "src/core/mbe_adaptive.c"), ("mbe_requiresAdaptiveSmoothing", "src/core/mbe_adaptive.c"), ("mbe_isMaxFrameRepeat", "src/core/mbe_adaptive.c")],
 technique=TECH_IR, level_note=IRNOTE)
prop("C18", "Spectral enhancement weights amplitudes by formula and preserves energy",
 "For every frame state: enhancement multiplies each harmonic with 8l > L and M_l != 0 by sqrt(M_l)*(0.96*pi*(1+r^2-2*r*cos(w0 l))/(w0*R0*(1-r^2)))^(1/4) clipped to [0.5, 1.2], where R0 = sum M_l^2 and r = sum M_l^2*cos(w0 l)/R0, then rescales all amplitudes by sqrt(R0/sum of new squares) so the frame energy is kept; with w0 = 0 or R0 = 0 the amplitudes stay as they are; the energy before enhancement is handed to this frame's adaptive smoothing, and nothing else changes. Holds in scalar and SIMD builds.",
 ["inputs", "configurations"], "every harmonic count 0..56, every amplitude vector and fundamental; scalar and SIMD source variants",
 "A wrong weight or missing clip changes loudness or timbre slightly on particular spectra only; tests check a few spectra with loose tolerances.",
 ["src/core/mbelib.c", "src/core/mbe_adaptive.c"], [("mbe_spectralAmpEnhance", "src/core/mbelib.c"), ("mbe_setPreEnhRm0", "src/core/mbe_adaptive.c")],
 technique=TECH_IR, level_note=IRNOTE)
prop("C20", "Unvoiced synthesis shapes noise per band and overlap-adds without gaps",
 "For every fundamental and harmonic count a decoder can produce and every amplitude, voicing, noise and carried frame: unvoiced synthesis windows 256 noise samples with the 211-point trapezoid, takes one 256-point real transform, scales bins ceil((l-1/2)*256*w0/2pi)..ceil((l+1/2)*256*w0/2pi)-1 of each unvoiced band l to 146.17696*M_l/rms of the band (0 for an empty band), zeroes every other bin (voiced bands, below the first, above the last), transforms back, adds (w(n)*prev(n+128) + w(n-160)*cur(n-32))/(w(n)^2 + w(n-160)^2) to each of the 160 output samples, keeps the new frame for the next call and changes nothing else. A plan that cannot be fully allocated is no plan; every block and the transform set-up are released exactly once. Holds in scalar and SIMD builds.",
 ["inputs", "history", "crash points", "configurations"], "all 459 (fundamental, harmonic count) pairs of the codecs and start-up states, all other inputs symbolic; every allocation failing in turn; the real transform itself is an assumed contract here (C23)",
 "Band-edge rounding differs per fundamental (each of some 450 pitches has its own edges), so a rounding or boundary slip is heard on some pitches only; tests use two or three.",
 ["src/core/mbe_unvoiced_fft.c"], [("mbe_synthesizeUnvoicedFFTWithNoise", "src/core/mbe_unvoiced_fft.c"), ("mbe_wola_combine", "src/core/mbe_unvoiced_fft.c"), ("mbe_synthesisWindow", "src/core/mbe_unvoiced_fft.c"), ("mbe_fft_plan_alloc", "src/core/mbe_unvoiced_fft.c")],
 technique=TECH_IR, level_note=IRNOTE)

prop("C19", "Speech synthesis mutes, fades, interpolates and clips as specified",
 "For any two consecutive frame states (9 to 56 harmonics each, any amplitudes, phases, voicing, fundamentals), synthesis applies adaptive smoothing once and first; a frame with repeatCount >= 4, or (unless its muting threshold is AMBE's 0.096) with error rate above its threshold, becomes comfort noise only and leaves the model alone; otherwise harmonics present in only one frame are given amplitude 0 and voiced in the other, previous phases are wrapped to [0,2pi), phases advance by (w0prev+w0cur)*80*l with jitter numUv*(2pi*noise_l/53125 - pi)/L above L/4, the voiced part is, for each harmonic voiced in either frame, either the interpolated harmonic (l < 8, voiced in both, |w0cur-w0prev| < 0.1*w0cur: linear amplitude, quadratic phase) or the previous oscillator faded out plus the current one faded in with the synthesis window, the unvoiced part of this frame's noise is added exactly once (omitted when no plan could be allocated; a thread makes one plan, and retries after a failure), and the output is clipped at 0.95*32767/7. Nothing else of either state changes. Holds in scalar and SIMD builds.",
 ["inputs", "history", "crash points", "configurations"], "all inputs symbolic, including both harmonic counts and all voicing bits, in one proof per source variant; callees under their own contracts (C16, C17, C20)",
 "Fades, phase hand-over and muting depend on pairs of frames; tests run a few steady sequences, and the golden output covers the first frame only.",
 ["src/core/mbelib.c", "src/internal/mbelib_const.h"], [("mbe_synthesizeSpeechf", "src/core/mbelib.c"), ("mbe_add_voiced_block4", "src/core/mbelib.c"), ("mbe_get_fft_plan", "src/core/mbelib.c")],
 technique=TECH_IR, level_note=IRNOTE)

prop("C21", "Start-up, reset, erasure and copy of decoder states give the exact defined state",
 "Whatever the states contained, initialisation sets all three to the codec's start-up state in every field: IMBE w0=4pi/173.5, L=39, K=12, muting threshold 0.0875; AMBE w0=2pi*pi/32, L=15, K=0, threshold 0.096; both with Ml=1, log2Ml=0, phases 0, unvoiced bands, gamma 0, local energy 75000, amplitude threshold 20480, zero error and repeat counters, noise seed -1, zero noise overlap and previous frame. Moving or reusing a state copies every field exactly and leaves the source alone, also onto itself. An erasure writes w0=0, L=9, K=0, unit amplitudes, reset energy and threshold, the phases and noise of the other state, and keeps error tracking. AMBE entry defaults reset states that carry another codec's muting threshold and leave AMBE states untouched; null arguments do nothing.",
 ["inputs", "history"], "every content of every field of the states involved (all symbolic)",
 "A state field that survives a reset or is dropped by a copy changes what is heard frames later; tests compare a few fields after one initialisation.",
 ["src/core/mbelib.c", "src/ambe/ambe_common.c"], [("mbe_initMbeParms", "src/core/mbelib.c"), ("mbe_moveMbeParms", "src/core/mbelib.c"), ("mbe_initAmbeParms_common", "src/ambe/ambe_common.c"), ("mbe_setAmbeErasureParms_common", "src/ambe/ambe_common.c"), ("mbe_ensureAmbeDefaults_common", "src/ambe/ambe_common.c")],
 technique=TECH_IR, level_note=IRNOTE)

prop("C23", "The bundled FFT computes the 256-point real transform and releases its memory",
 "For every input vector, pffft_transform_ordered on a 256-point real set-up is a linear map: each of the 256x256 coefficients of forward (spectrum X0, X128, Re X1, Im X1, ...) and backward transforms is within 2e-6 of the exact discrete Fourier value, rounding adds at most 4e-4 times the largest input magnitude, and the input is kept. Set-up and 64-byte aligned blocks work for every alignment the allocator may return: blocks are aligned, lie inside the memory obtained, and are released exactly once. Set-up returns null exactly when an allocation failed, with nothing left allocated. Holds in the scalar and the SIMD build.",
 ["inputs", "crash points", "configurations"], "all 256-component inputs (exact linear-form propagation, no sampling), every allocation failing in turn, all four 16-byte allocator alignments modulo 64, scalar and SSE code",
 "A wrong twiddle or permutation in one butterfly only shows for inputs exciting it; the tests never check a transform, and the golden output carries zero noise.",
 ["src/external/pffft/pffft.c"], [("pffft_transform_ordered", "src/external/pffft/pffft.c"), ("pffft_new_setup", "src/external/pffft/pffft.c"), ("pffft_aligned_malloc", "src/external/pffft/pffft.c")],
 technique=TECH_IR, level_note="Proof over LLVM IR of the current sources: every output is propagated as a linear form of the inputs with an exact real coefficient and an accumulated first-order rounding bound; sin/cos of constants are evaluated. In-place and other sizes are outside the contract.")

prop("C24", "The decoded speech model stays bounded, whatever the history of received bits",
 "Decoding never lets the inter-frame prediction run away. From every previous model with 9 to 56 harmonics, log2 amplitudes within [-A, A] and within S of one another, and gain within its range (start-up and erasure models are such), an accepted frame of any bits gives again such a model: 9 to 56 harmonics, each log2 amplitude within [-A, A], all within S of one another, AMBE gain within [-5, 18] (2450) or [-1, 12] (D-STAR), A = 70 and S = 60 for AMBE, A = S = 100 for IMBE. Its amplitudes are positive, finite and at most 2^70 (AMBE) or 2^100 (IMBE), its voicing decisions are 0 or 1, its fundamental lies in [0.049, 0.7], and every harmonic of a voice frame lies below half the sampling rate. A rejected frame leaves the previous model alone, an accepted one only extends it above its last harmonic. By induction this holds after any number of frames, valid, corrupted or hostile.",
 ["inputs", "histories"], "all 2^49 or 2^88 parameter bits and every previous model in the invariant, rounding included: linear range analysis of every result, one case per pitch index and previous harmonic count; inductive, so any number of frames",
 "Each test decodes a few frames from the start-up state; a prediction whose mean is no longer removed, or whose gain is not below one for some harmonic count, grows without bound only over many frames of unfortunate bits.",
 ["src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/imbe/imbe7200x4400.c"], [("mbe_decodeAmbe2450ParmsInternal", "src/ambe/ambe3600x2450.c"), ("mbe_decodeAmbe2400Parms", "src/ambe/ambe3600x2400.c"), ("mbe_decodeImbe4400Parms", "src/imbe/imbe7200x4400.c"), ("mbe_initMbeParms", "src/core/mbelib.c")],
 technique=TECH_IR.split(";")[0] + "; results bounded by linear forms over the ranged previous model with rounding bounds, as an inductive invariant.", level_note="Proof over LLVM IR of the current sources: every result is propagated as a linear form of the previous log2 amplitudes and gain plus the quantiser values (chosen by undecided bits), with accumulated rounding bounds; exp2/sqrt by monotonicity with a relative error allowance of 4e-7. 2450 silence frames have their bands partly above half the sampling rate by design. That the frame state machines only copy such models between the states is C10-C12 and C21.")

TECH_FRAME = "Frame contracts (assigns / ownership clauses) of every library function, discharged function by function as a least fixpoint of write/keep/return summaries over the LLVM IR of the current sources; counterexamples replayed as thread histories under ThreadSanitizer."
prop("C22", "Threads do not influence one another: no shared mutable library state",
 "No function of the library writes, or hands out for writing, any object shared between threads: every function assigns only memory reached through its own arguments, its locals, heap blocks it owns and the calling thread's own (thread-local) objects, whose addresses it never publishes; objects with static storage that are not thread-local are never written, and only thread-safe C library functions are called. Hence any number of threads, each with its own decoder states, produce under every schedule exactly the audio, parameters, status strings and noise sequences the same calls produce alone, and mbe_setThreadRngSeed affects the calling thread only. Holds with and without SIMD and with tones disabled.",
 ["schedule", "configurations"], "every function, every write and every static object of the sources in three build configurations; no bound on threads, calls or schedules",
 "The tests run one thread; a cache, generator state or scratch buffer that stops being per-thread passes all of them and corrupts audio only when threads interleave.",
 ["src/core/mbelib.c", "src/core/mbe_adaptive.c", "src/core/mbe_unvoiced_fft.c", "src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/imbe/imbe7200x4400.c", "src/internal/mbe_compiler.h"],
 [("MBE_THREAD_LOCAL", "src/internal/mbe_compiler.h"), ("mbe_setThreadRngSeed", "src/core/mbelib.c"), ("mbe_get_fft_plan", "src/core/mbelib.c"), ("imbe_get_dct_cache", "src/imbe/imbe7200x4400.c"), ("mbe_seedComfortNoiseRng", "src/core/mbe_adaptive.c")],
 technique=TECH_FRAME, level_note="Proof over the IR of all sources, summaries computed by lib/frame.py; the thread-safety of the listed C library functions is assumed. Caller obligation: states are not shared between threads. Native thread histories under ThreadSanitizer are witnesses only.")
