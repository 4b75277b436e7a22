from lib.vfengine import FrameJob, Job, SymJob
P = {}
ECC = ["ecc", "ecc_const"]

P["C01"] = dict(functions=["mbe_checkGolayBlock", "mbe_golay2312"], jobs=[
    Job("golay.block", "golay.c", "mbe_checkGolayBlock", tus=ECC, defs=["FN=1"], unwind=30, fallback="plain"),
    Job("golay.2312", "golay.c", "mbe_golay2312", tus=ECC, defs=["FN=2"], unwind=30, fallback="plain"),
    Job("golay.lemmas", "golay.c", None, tus=[], defs=["FN=3"], unwind=30, native=False)])
P["C02"] = dict(functions=["mbe_hamming1511", "mbe_7100x4400hamming1511"], jobs=[
    Job("hamming.std", "hamming.c", "mbe_hamming1511", tus=ECC, defs=["FN=1"], unwind=20, fallback="plain"),
    Job("hamming.7100", "hamming.c", "mbe_7100x4400hamming1511", tus=ECC, defs=["FN=2"], unwind=20, fallback="plain")])

FEC = ["mbe_golay2312", "mbe_hamming1511", "mbe_7100x4400hamming1511"]
def fec(name, fn, fun, tus, repl):
    return Job(name, "fec_frame.c", fun, replace=repl, tus=tus + ECC, defs=["FN=%d" % fn, "FUN=" + fun], unwind=100, fallback="plain")
A24 = ["ambe2400", "ambe_common", "core", "adaptive", "unvoiced"]
G, HM, H7 = FEC
P["C03"] = dict(functions=["mbe_eccAmbe3600x2400C0", "mbe_eccAmbe3600x2450C0", "mbe_eccAmbe3600x2400Data", "mbe_eccAmbe3600x2450Data",
                           "mbe_eccAmbe3600C0_common (inlined)", "mbe_eccAmbe3600Data_common (inlined)"], jobs=[
    fec("ambe2400.c0", 1, "mbe_eccAmbe3600x2400C0", ["ambe2400", "ambe_common"], [G]),
    fec("ambe2450.c0", 1, "mbe_eccAmbe3600x2450C0", ["ambe2450", "ambe_common"], [G]),
    fec("ambe2400.data", 2, "mbe_eccAmbe3600x2400Data", ["ambe2400", "ambe_common"], [G]),
    fec("ambe2450.data", 2, "mbe_eccAmbe3600x2450Data", ["ambe2450", "ambe_common"], [G])])
P["C04"] = dict(functions=["mbe_eccImbe7200x4400C0", "mbe_eccImbe7200x4400Data"], jobs=[
    fec("imbe7200.c0", 3, "mbe_eccImbe7200x4400C0", ["imbe7200"], [G]),
    fec("imbe7200.data", 4, "mbe_eccImbe7200x4400Data", ["imbe7200"], [G, HM])])
P["C05"] = dict(functions=["mbe_eccImbe7100x4400C0", "mbe_eccImbe7100x4400Data", "mbe_convertImbe7100to7200"], jobs=[
    fec("imbe7100.c0", 5, "mbe_eccImbe7100x4400C0", ["imbe7100"], [G]),
    fec("imbe7100.data", 6, "mbe_eccImbe7100x4400Data", ["imbe7100"], [G, H7]),
    fec("imbe7100.order", 7, "mbe_convertImbe7100to7200", ["imbe7100"], [])])
def dem(name, codec, fun, tus):
    return Job(name, "demod.c", fun, tus=tus, defs=["CODEC=%d" % codec, "FUN=" + fun], unwind=130, fallback="plain")
P["C06"] = dict(functions=["mbe_demodulateAmbe3600x2400Data", "mbe_demodulateAmbe3600x2450Data", "mbe_demodulateImbe7200x4400Data", "mbe_demodulateImbe7100x4400Data"], jobs=[
    dem("demod.ambe2400", 1, "mbe_demodulateAmbe3600x2400Data", ["ambe2400", "ambe_common"]),
    dem("demod.ambe2450", 1, "mbe_demodulateAmbe3600x2450Data", ["ambe2450", "ambe_common"]),
    dem("demod.imbe7200", 2, "mbe_demodulateImbe7200x4400Data", ["imbe7200"]),
    dem("demod.imbe7100", 3, "mbe_demodulateImbe7100x4400Data", ["imbe7100"])])

P["C07"] = dict(functions=["mbe_decodeAmbe2450Parms", "mbe_decodeAmbe2450ParmsInternal"], jobs=[
    SymJob("decode.ambe2450", "decode_ambe.c", "mbe_decodeAmbe2450Parms", tus=["ambe2450", "ambe_common"], defs=["AMBE_CODEC=2450"],
           tasks=[(b,) for b in reversed(range(128))]),
    SymJob("decode.ambe2450.errors", "decode_ambe.c", "mbe_decodeAmbe2450ParmsInternal", tus=["ambe_common"], defs=["AMBE_CODEC=2450", "TOTAL=1", "VF_INCL"], incl=["ambe2450"],
           tasks=[(b,) for b in reversed(range(128))])])
P["C08"] = dict(functions=["mbe_decodeAmbe2400Parms"], jobs=[
    SymJob("decode.ambe2400", "decode_ambe.c", "mbe_decodeAmbe2400Parms", tus=["ambe2400", "ambe_common"], defs=["AMBE_CODEC=2400"],
           tasks=[(b,) for b in reversed(range(128))])])
P["C09"] = dict(functions=["mbe_decodeImbe4400Parms"], jobs=[
    SymJob("decode.imbe", "decode_imbe.c", "mbe_decodeImbe4400Parms", tus=["imbe7200"], tasks=[(b,) for b in reversed(range(256))])])

# ---- frame state machines (harness/process.c)
def proc(codec, mode, fun, tus, need):
    return SymJob("process.%s" % fun[11:], "process.c", fun, tus=tus + ["core", "adaptive"] + ECC, defs=["CODEC=%d" % codec, "MODE=%d" % mode, "FUN=" + fun],
                  timeout=400, need=need, inv=False)
N_SYN = ["mbe_spectralAmpEnhance", "mbe_synthesizeSpeechf"]
T24, T25, T72, T71 = ["ambe2400", "ambe_common"], ["ambe2450", "ambe_common"], ["imbe7200"], ["imbe7200", "imbe7100"]
D24, D25, D44 = ["mbe_decodeAmbe2400Parms"] + N_SYN, ["mbe_decodeAmbe2450ParmsInternal"] + N_SYN, ["mbe_decodeImbe4400Parms"] + N_SYN
J_DATA = {2450: [proc(2450, 0, "mbe_processAmbe2450Dataf", T25, D25), proc(2450, 1, "mbe_processAmbe2450Data", T25, D25)],
          2400: [proc(2400, 0, "mbe_processAmbe2400Dataf", T24, D24), proc(2400, 1, "mbe_processAmbe2400Data", T24, D24)],
          4400: [proc(4400, 0, "mbe_processImbe4400Dataf", T72, D44), proc(4400, 1, "mbe_processImbe4400Data", T72, D44)]}
J_FRAME = {2450: [proc(2450, 2, "mbe_processAmbe3600x2450Framef", T25, D25), proc(2450, 3, "mbe_processAmbe3600x2450Frame", T25, D25)],
           2400: [proc(2400, 2, "mbe_processAmbe3600x2400Framef", T24, D24), proc(2400, 3, "mbe_processAmbe3600x2400Frame", T24, D24)],
           4400: [proc(7200, 2, "mbe_processImbe7200x4400Framef", T72, D44), proc(7200, 3, "mbe_processImbe7200x4400Frame", T72, D44),
                  proc(7100, 2, "mbe_processImbe7100x4400Framef", T71, D44), proc(7100, 3, "mbe_processImbe7100x4400Frame", T71, D44)]}
def fns(*l): return [j.enforce for x in l for j in x]
P["C10"] = dict(functions=fns(J_DATA[2450], J_FRAME[2450]), jobs=J_DATA[2450] + J_FRAME[2450])
P["C11"] = dict(functions=fns(J_DATA[2400], J_FRAME[2400]), jobs=J_DATA[2400] + J_FRAME[2400])
P["C12"] = dict(functions=fns(J_DATA[4400], J_FRAME[4400]), jobs=J_DATA[4400] + J_FRAME[4400])
J_INT = [j for k in J_DATA for j in J_DATA[k] if "DATAF" not in j.name.upper()]
P["C13"] = dict(functions=fns(J_INT, *J_FRAME.values()), jobs=J_INT + J_FRAME[2450] + J_FRAME[2400] + J_FRAME[4400])

# ---- 16-bit output
CORE = ["core", "adaptive", "unvoiced"]
def simd(on): return ["TU_MBELIB_ENABLE_SIMD"] if on else []
P["C14"] = dict(functions=["mbe_floattoshort", "mbe_synthesizeSpeech", "mbe_synthesizeComfortNoise", "mbe_synthesizeSilencef", "mbe_synthesizeSilence"], jobs=[
    SymJob("pcm.%s%s" % (n, ".simd" if v else ""), "pcm.c", fn, tus=CORE, defs=["FN=%d" % k] + simd(v), tasks=[()], inv=False)
    for k, n, fn in ((1, "convert", "mbe_floattoshort"), (2, "speech", "mbe_synthesizeSpeech"), (3, "noise", "mbe_synthesizeComfortNoise"), (4, "silence", "mbe_synthesizeSilencef"))
    for v in ((0, 1) if k == 1 else (0,))])

# ---- tones
P["C15"] = dict(functions=["mbe_synthesizeTonef", "mbe_synthesizeTonefdstar"], jobs=[
    SymJob("tone.%s" % n, "tone.c", fn, tus=CORE, defs=["FN=%d" % k] + off, tasks=t, inv=False)
    for k, n, fn, off, t in ((1, "ambe", "mbe_synthesizeTonef", [], [(a,) for a in range(256)]), (2, "dstar", "mbe_synthesizeTonefdstar", [], [()]), (3, "dstar.invalid", "mbe_synthesizeTonefdstar", [], [()]),
        (4, "ambe.off", "mbe_synthesizeTonef", ["TU_DISABLE_AMBE_TONES"], [()]), (5, "dstar.off", "mbe_synthesizeTonefdstar", ["TU_DISABLE_AMBE_TONES"], [()]))])

# ---- noise generators
P["C16"] = dict(functions=["mbe_synthesizeComfortNoisef", "mbe_setThreadRngSeed", "mbe_seedComfortNoiseRng", "mbe_seedUnvoicedNoiseLcg", "mbe_generate_noise_with_overlap"], jobs=[
    SymJob("noise.%s" % n, "noise.c", fn, tus=CORE, defs=["FN=%d" % k], tasks=[()], inv=False)
    for k, n, fn in ((1, "comfort", "mbe_synthesizeComfortNoisef"), (2, "comfort.unseeded", "mbe_synthesizeComfortNoisef"), (3, "seed", "mbe_setThreadRngSeed"),
        (4, "lcg", "mbe_generate_noise_with_overlap"), (5, "lcg.cold", "mbe_generate_noise_with_overlap"), (6, "lcg.seeded", "mbe_seedUnvoicedNoiseLcg"))])

# ---- adaptive smoothing
P["C17"] = dict(functions=["mbe_applyAdaptiveSmoothing", "mbe_setPreEnhRm0", "mbe_requiresAdaptiveSmoothing", "mbe_requiresMuting", "mbe_isMaxFrameRepeat"], jobs=[
    SymJob("smooth.%s" % n, "smooth.c", fn, tus=CORE, defs=["FN=%d" % k], tasks=[(l,) for l in range(57)] if k < 4 else [(9,)], inv=False)
    for k, n, fn in ((1, "handed", "mbe_applyAdaptiveSmoothing"), (2, "other", "mbe_applyAdaptiveSmoothing"), (3, "none", "mbe_applyAdaptiveSmoothing"), (4, "decisions", "mbe_requiresMuting"))])

# ---- spectral amplitude enhancement
P["C18"] = dict(functions=["mbe_spectralAmpEnhance", "mbe_setPreEnhRm0"], jobs=[
    SymJob("enhance%s" % (".simd" if v else ""), "enhance.c", "mbe_spectralAmpEnhance", tus=CORE, defs=simd(v), tasks=[(l,) for l in range(57)], inv=False) for v in (0, 1)])

# ---- unvoiced synthesis
OOM = ("WRAP_malloc", "WRAP_calloc", "WRAP_free")
PITCH = [(0, i) for i in range(120)] + [(1, i) for i in range(126)] + [(2, i) for i in range(208)] + [(3, i) for i in range(5)]
FFT = ["pffft_aligned_malloc", "pffft_new_setup", "pffft_transform_ordered"]
P["C20"] = dict(functions=["mbe_synthesizeUnvoicedFFTWithNoise", "mbe_synthesizeUnvoicedFFT", "mbe_wola_combine", "mbe_wola_combine_fast (inlined)", "mbe_synthesisWindow", "mbe_fft_plan_alloc", "mbe_fft_plan_free"], jobs=[
    SymJob("unvoiced.%s%s" % (n, ".simd" if v else ""), "unvoiced.c", fn, tus=CORE, defs=["FN=%d" % k] + simd(v), tasks=t, inv=False, need=nd, native=k != 3, native_defs=OOM if k == 4 else ())
    for k, n, fn, t, nd in ((1, "frame", "mbe_synthesizeUnvoicedFFTWithNoise", PITCH, FFT), (2, "window", "mbe_wola_combine", [(3, 0)], []),
        (3, "ownnoise", "mbe_synthesizeUnvoicedFFT", [(3, 0)], ["mbe_generate_noise_with_overlap", "mbe_synthesizeUnvoicedFFTWithNoise"]), (4, "memory", "mbe_fft_plan_alloc", [(a, 0) for a in range(10)], ["pffft_aligned_malloc"]))
    for v in ((0, 1) if k < 3 else (0,))])

# ---- speech synthesis
SPK = ["mbe_applyAdaptiveSmoothing", "mbe_generate_noise_with_overlap", "mbe_synthesizeUnvoicedFFTWithNoise"]
P["C19"] = dict(functions=["mbe_synthesizeSpeechf", "mbe_add_voiced_block4 (inlined)", "mbe_get_fft_plan (inlined)", "mbe_clipFloatBuffer (inlined)"], jobs=[
    SymJob("speech.%s%s" % (n, ".simd" if v else ""), "speech.c", "mbe_synthesizeSpeechf", tus=CORE, defs=["FN=%d" % k] + simd(v), tasks=t, inv=False, need=nd, native_defs=OOM if k == 3 else (), timeout=400)
    for k, n, t, nd in ((1, "frame", [()], SPK), (2, "muted", [()], ["mbe_synthesizeComfortNoisef"]), (3, "plan", [(a,) for a in range(4)], SPK + ["mbe_fft_plan_alloc"]))
    for v in ((0, 1) if k == 1 else (0,))])

# ---- states
P["C21"] = dict(functions=["mbe_initMbeParms", "mbe_initAmbeParms_common", "mbe_moveMbeParms", "mbe_useLastMbeParms", "mbe_setAmbeErasureParms_common", "mbe_ensureAmbeDefaults_common"], jobs=[
    SymJob("state.%s" % n, "state.c", fn, tus=CORE + ["ambe_common", "ecc", "ecc_const"], defs=["FN=%d" % k], tasks=[()], inv=False)
    for k, n, fn in ((1, "imbe", "mbe_initMbeParms"), (2, "ambe", "mbe_initAmbeParms_common"), (3, "move", "mbe_moveMbeParms"), (4, "uselast", "mbe_useLastMbeParms"),
        (5, "erasure", "mbe_setAmbeErasureParms_common"), (6, "ensure", "mbe_ensureAmbeDefaults_common"))])

# ---- FFT library
P["C23"] = dict(functions=["pffft_transform_ordered", "pffft_new_setup", "pffft_destroy_setup", "pffft_aligned_malloc", "pffft_aligned_free", "rffti1_ps, rfftf1_ps, rfftb1_ps, pffft_transform_internal, pffft_zreorder, radf*/radb* (inlined)"], jobs=[
    SymJob("fft.%s%s" % (n, ".simd" if v else ""), "fft.c", fn, tus=["pffft", "fftpack"], defs=["FN=%d" % k] + simd(v), tasks=t, inv=False, native_defs=OOM if k > 2 else ())
    for k, n, fn, t in ((1, "forward", "pffft_transform_ordered", [(0, b) for b in range(4)]), (2, "inverse", "pffft_transform_ordered", [(0, b) for b in range(4)]),
        (3, "setup", "pffft_new_setup", [(a, b) for a in range(5) for b in range(4)]), (4, "blocks", "pffft_aligned_malloc", [(0, b) for b in range(4)]))
    for v in (0, 1)])

# ---- stability of the parameter recursion
STABLE = (("ambe2450", "mbe_decodeAmbe2450ParmsInternal", 2450, ["ambe_common"], ["ambe2450"], 128), ("ambe2400", "mbe_decodeAmbe2400Parms", 2400, ["ambe2400", "ambe_common"], [], 128),
          ("imbe", "mbe_decodeImbe4400Parms", 4400, ["imbe7200"], [], 256))
P["C24"] = dict(functions=["mbe_decodeAmbe2450ParmsInternal", "mbe_decodeAmbe2400Parms", "mbe_decodeImbe4400Parms", "mbe_initMbeParms", "mbe_initAmbeParms_common", "mbe_setAmbeErasureParms_common"], jobs=[
    SymJob("stable.%s" % n, "stable.c", fn, tus=tus + CORE + ["ecc", "ecc_const"], defs=["CODEC=%d" % c], incl=inc, tasks=[(b,) for b in reversed(range(k))]) for n, fn, c, tus, inc, k in STABLE] + [
    SymJob("start.%s" % n, "stable.c", f, tus=tus + CORE + ["ecc", "ecc_const"], defs=["CODEC=%d" % c, "START"], incl=inc, tasks=[()], inv=False) for (n, _, c, tus, inc, k), f in
    zip(STABLE, ("mbe_initAmbeParms_common, mbe_setAmbeErasureParms_common",) * 2 + ("mbe_initMbeParms",))])

# ---- threads
P["C22"] = dict(functions=["every function of src/, in three build configurations"], conf_secs=3.0, jobs=[
    FrameJob("frames.%s" % n, "threads.c", defs=d, native_defs=["NAT_TSAN"]) for n, d in (("scalar", []), ("simd", ["TU_MBELIB_ENABLE_SIMD"]), ("notones", ["TU_DISABLE_AMBE_TONES"]))])

# ---- what each proof leaves unchecked (copied into the evidence)
LIBM_A = "cosf, sinf, sqrtf, powf, exp2f, logf ... are uninterpreted but deterministic functions; their accuracy is not checked"
FP_A = "floating-point operators are exact-identity terms: two sides agree when they perform the same IEEE operations (or provably value-preserving variants of them)"
REAL_A = "where the evidence counts float_identities_decided_over_the_reals, those values were compared as polynomials over the reals (constants to 1e-6), i.e. rounding was treated as mathematical"
PREV_A = "precondition: the previous state's harmonic count is 9..56 (every start-up, erasure and decoded state satisfies it: post-condition of C07-C09 and C21)"
PROC_A = "callees replaced by their contracts: parameter decoding (C07-C09), enhancement (C18), speech synthesis (C19), comfort noise and tone synthesis (C15, C16) are arbitrary functions of the state and bits they are given, with the frame conditions those properties prove"
ERR_A = "error counts handed in by the caller are 0..80 (a frame cannot report more than 27); larger ones would overrun any status buffer"
A = {"C03": ["the Golay decoder is replaced by its contract (proved under C01)"],
 "C04": ["the Golay and Hamming decoders are replaced by their contracts (proved under C01, C02)"],
 "C05": ["the Golay and Hamming decoders are replaced by their contracts (proved under C01, C02)"],
 "C07": [PREV_A, LIBM_A, FP_A, REAL_A], "C08": [PREV_A, LIBM_A, FP_A, REAL_A], "C09": [PREV_A, LIBM_A, FP_A, REAL_A],
 "C10": [PROC_A, ERR_A, FP_A], "C11": [PROC_A, ERR_A, FP_A], "C12": [PROC_A, ERR_A, FP_A], "C13": [PROC_A, ERR_A, FP_A, "error counts are those the error-correction code returns for the frame; err_str has room for one character per error plus three"],
 "C14": [FP_A, "input samples are not NaN"], "C15": [LIBM_A, FP_A, REAL_A], "C16": [FP_A, REAL_A],
 "C17": [LIBM_A, FP_A, "precondition: L is 0..56"], "C18": [LIBM_A, FP_A, "precondition: L is 0..56", "energy preservation is stated as the formula of the rescaling, not as a rounding bound"],
 "C19": [PREV_A, LIBM_A, FP_A, REAL_A, "callees replaced by their contracts: smoothing (C17), noise (C16), unvoiced synthesis (C20)"],
 "C20": [LIBM_A, FP_A, "fundamentals are the finitely many a decoder can produce (120 AMBE 2450, 126 AMBE 2400, 208 IMBE pitch indices and the start-up/erasure values), each its own case",
         "the FFT is an arbitrary function of its input buffer here (its numerical contract is C23)"],
 "C22": ["the listed C library functions are thread-safe (table in lib/frame.py)", "callers pass different state and output buffers on different threads"],
 "C23": ["rounding of the transform is bounded by standard error analysis (u = 2^-24 per operation, inputs scaled to magnitude 1); overflow of inputs above 1e36 is outside the bound",
         "only the 256-point real ordered transform used by the library is under contract; other sizes, complex and unordered transforms and zconvolve are not"]}
A["C24"] = ["libm's exp2f, sqrtf are monotonic to within a relative error of 4e-7", "rounding bounds (u = 2^-24 per operation) are accumulated in double precision", "the previous state satisfies the invariant and IMBE states keep the element below the first harmonic at 0 (C21, C09)"]
for k in A: P[k]["assumptions"] = A[k]
