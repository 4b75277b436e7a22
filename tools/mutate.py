"""mutation campaign: mutate.py PROP N [seed]   random small edits in the functions a property is anchored in; those that build and
pass the repository's tests are given to the check.  Prints caught / quiet per mutant (quiet ones are looked at by hand)."""
import os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
M = {"C01": {"ecc/ecc.c": ["mbe_checkGolayBlock", "mbe_golay2312"], "ecc/ecc_const.c": None},
 "C02": {"ecc/ecc.c": ["mbe_hamming1511", "mbe_7100x4400hamming1511", "ham1511_lut", "ham1511_7100_lut"]},
 "C03": {"ambe/ambe_common.c": ["mbe_eccAmbe3600C0_common", "mbe_eccAmbe3600Data_common"]},
 "C04": {"imbe/imbe7200x4400.c": ["mbe_eccImbe7200x4400C0", "mbe_eccImbe7200x4400DataInternal", "mbe_eccImbe7200x4400Data"]},
 "C05": {"imbe/imbe7100x4400.c": ["mbe_eccImbe7100x4400C0", "mbe_eccImbe7100x4400DataInternal", "mbe_convertImbe7100to7200"]},
 "C06": {"imbe/imbe7100x4400.c": ["mbe_demodulateImbe7100x4400Data"], "imbe/imbe7200x4400.c": ["mbe_demodulateImbe7200x4400Data"], "ambe/ambe_common.c": ["mbe_demodulateAmbe3600Data_common"]},
 "C07": {"ambe/ambe3600x2450.c": ["mbe_decodeAmbe2450ParmsInternal", "ambe2450_get_dct_cache"], "internal/ambe3600x2450_const.h": None},
 "C08": {"ambe/ambe3600x2400.c": ["mbe_decodeAmbe2400Parms", "ambe_get_dct_cache"], "internal/ambe3600x2400_const.h": None},
 "C09": {"imbe/imbe7200x4400.c": ["mbe_decodeImbe4400Parms", "imbe_get_dct_cache"], "internal/imbe7200x4400_const.h": None},
 "C10": {"ambe/ambe3600x2450.c": ["mbe_processAmbe2450Dataf_internal", "ambe2450_is_valid_tone_id", "mbe_processAmbe2450Dataf", "mbe_processAmbe3600x2450Framef"]},
 "C11": {"ambe/ambe3600x2400.c": ["mbe_processAmbe2400Dataf", "mbe_processAmbe2400Dataf_internal", "mbe_processAmbe3600x2400Framef"]},
 "C12": {"imbe/imbe7200x4400.c": ["mbe_processImbe4400Dataf_withC0", "mbe_processImbe4400Dataf", "mbe_processImbe7200x4400Framef"], "imbe/imbe7100x4400.c": ["mbe_processImbe7100x4400Framef"]},
 "C13": {"imbe/imbe7200x4400.c": ["mbe_processImbe7200x4400Framef", "mbe_processImbe7200x4400Frame", "mbe_processImbe4400Data"], "imbe/imbe7100x4400.c": ["mbe_processImbe7100x4400Framef", "mbe_processImbe7100x4400Frame"],
         "ambe/ambe3600x2450.c": ["mbe_processAmbe3600x2450Framef", "mbe_processAmbe3600x2450Frame", "mbe_processAmbe2450Data"], "ambe/ambe3600x2400.c": ["mbe_processAmbe3600x2400Framef", "mbe_processAmbe3600x2400Frame", "mbe_processAmbe2400Data"]},
 "C14": {"core/mbelib.c": ["mbe_floattoshort", "mbe_floattoshort_sse2", "mbe_floattoshort_scalar", "mbe_synthesizeSpeech", "mbe_synthesizeSilencef", "mbe_synthesizeSilence"]},
 "C15": {"core/mbelib.c": ["mbe_synthesizeTonef", "mbe_synthesizeTonefdstar", "mbe_renderTonef", "mbe_lookupToneFreqs", "mbe_tonePhaseStep", "mbe_toneSampleFromPhase"]},
 "C16": {"core/mbe_adaptive.c": ["mbe_seedComfortNoiseRng", "mbe_java_random_next_bits", "mbe_synthesizeComfortNoisef"], "core/mbe_unvoiced_fft.c": ["mbe_seedUnvoicedNoiseLcg", "mbe_generate_noise_with_overlap"], "core/mbelib.c": ["mbe_setThreadRngSeed"]},
 "C17": {"core/mbe_adaptive.c": ["mbe_applyAdaptiveSmoothing", "mbe_setPreEnhRm0", "mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"]},
 "C18": {"core/mbelib.c": ["mbe_spectralAmpEnhance"]},
 "C19": {"core/mbelib.c": ["mbe_synthesizeSpeechf", "mbe_add_voiced_block4", "mbe_get_fft_plan", "mbe_clipFloatBuffer"], "internal/mbelib_const.h": None},
 "C20": {"core/mbe_unvoiced_fft.c": ["mbe_synthesizeUnvoicedFFTWithNoise", "mbe_wola_combine_fast", "mbe_wola_combine", "mbe_magnitude_squared_sum", "pffft_bin_scale", "mbe_fft_plan_alloc", "mbe_fft_plan_free", "mbe_synthesisWindow"]},
 "C21": {"core/mbelib.c": ["mbe_initMbeParms", "mbe_moveMbeParms", "mbe_useLastMbeParms"], "ambe/ambe_common.c": ["mbe_initAmbeParms_common", "mbe_setAmbeErasureParms_common", "mbe_ensureAmbeDefaults_common"]},
 "C23": {"external/pffft/pffft.c": ["pffft_new_setup", "pffft_aligned_malloc", "pffft_aligned_free", "pffft_destroy_setup", "rffti1_ps", "rfftf1_ps", "rfftb1_ps", "radf4_ps", "radb4_ps", "radf2_ps", "radb2_ps", "pffft_real_finalize", "pffft_real_preprocess", "pffft_transform_internal", "pffft_zreorder", "decompose"]}}

def ranges(text, fns):
    if fns is None: return [(0, len(text))]
    r = []
    for f in fns:
        for m in re.finditer(r'(?m)^[^\n;]*\b%s\b[^;{]*\{' % re.escape(f), text):
            i = m.end(); d = 1
            while i < len(text) and d: d += {'{': 1, '}': -1}.get(text[i], 0); i += 1
            r.append((m.end(), i))
    return r

def sites(text, rs):
    clean = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    clean = re.sub(r'(?m)^\s*#(?:[^\n\\]|\\\n)*', lambda m: ' ' * 0 + re.sub(r'[^\n]', ' ', m.group(0)), clean)
    for m in re.finditer(r'(?s)#ifdef (AMBE|IMBE|MBE)_DEBUG.*?#endif', text): clean = clean[:m.start()] + re.sub(r'[^\n]', ' ', clean[m.start():m.end()]) + clean[m.end():]
    for m in re.finditer(r'(?s)#elif defined\(__ARM_NEON\).*?#endif', text): clean = clean[:m.start()] + re.sub(r'[^\n]', ' ', clean[m.start():m.end()]) + clean[m.end():]
    out = []
    for a, b in rs:
        seg = clean[a:b]
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', seg):
            n = int(m.group(1)); out += [(a + m.start(1), a + m.end(1), str(n + 1)), (a + m.start(1), a + m.end(1), str(max(0, n - 1)))][: 2 if n else 1]
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+(?:[eE][-+]?\d+)?)(f?)(?!\w)', seg):
            v = float(m.group(1)); out.append((a + m.start(1), a + m.end(1), repr(v * 1.01 if v else 0.01)))
        for x, y in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), (' && ', ' || '), (' || ', ' && '), (' * ', ' + '), ('++', '--'), (' += ', ' = '), (' += ', ' -= '), (' ^ ', ' | '), (' << ', ' >> ')):
            for m in re.finditer(re.escape(x), seg): out.append((a + m.start(), a + m.end(), y))
        for m in re.finditer(r'(?m)^\s+([^\n{}=;]*(?:=|\()[^\n{};]*;)[ \t]*$', seg):
            if not re.match(r'(return|break|int|float|const|char|uint|static|unsigned|__m128|for|long)', m.group(1).strip()): out.append((a + m.start(1), a + m.end(1), ';'))
        for m in re.finditer(r'\bcur_mp\b', seg): out.append((a + m.start(), a + m.end(), 'prev_mp'))
        for m in re.finditer(r'\bprev_mp\b', seg): out.append((a + m.start(), a + m.end(), 'cur_mp'))
    return out

def main():
    p, n = sys.argv[1], int(sys.argv[2]); rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    w = "/tmp/mut_" + p; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    os.makedirs(w + "/_build/dev-debug", exist_ok=True)
    if os.path.isdir("/repo/_build/dev-debug/include"): shutil.copytree("/repo/_build/dev-debug/include", w + "/_build/dev-debug/include")
    cfg = [("a", "dev-debug", ""), ("b", "dev-debug", "-DMBELIB_ENABLE_SIMD=ON")]
    for k, pr, o in cfg: subprocess.run("cmake --preset %s -S . -B %s.%s -G Ninja %s && ninja -C %s.%s" % (pr, w, k, o, w, k), shell=True, cwd=w, capture_output=True)
    texts = {f: open(w + "/" + S + f).read() for f in M[p]}
    allsites = [(f, x) for f, fns in M[p].items() for x in sites(texts[f], ranges(texts[f], fns))]
    rnd.shuffle(allsites); done = tried = 0; caught = 0
    per = {}
    for f, (a, b, new) in allsites:
        if done >= n: break
        t = texts[f]; ln = t.count("\n", 0, a) + 1
        if M[p][f] is None and per.get(f, 0) >= max(1, n // 4): continue
        open(w + "/" + S + f, "w").write(t[:a] + new + t[b:]); tried += 1
        ok = True
        for k, pr, o in cfg:
            r = subprocess.run("ninja -C %s.%s && timeout 60 ctest --test-dir %s.%s -j8 --timeout 20" % (w, k, w, k), shell=True, cwd=w, capture_output=True)
            if r.returncode: ok = False; break
        if ok:
            done += 1; per[f] = per.get(f, 0) + 1; s = time.time()
            r = subprocess.run([sys.executable, HERE + "/run.py", p], env=dict(os.environ, VF_REPO=w), capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]; caught += r.returncode == 1
            line = t[t.rfind("\n", 0, a) + 1:t.find("\n", a)].strip()
            print("%s %s:%d [%s]->[%s] | %s | exit %d %.0fs %s" % ("CAUGHT" if r.returncode == 1 else "QUIET ", f, ln, t[a:b].strip(), new.strip(), line[:110], r.returncode, time.time() - s, "nowit" if v and "no-failing" in v[0] else ""), flush=True)
            if r.returncode != 1: print("      " + " | ".join(x for x in r.stdout.splitlines() if "UNDEC" in x or "undecided" in x)[:300], flush=True)
        open(w + "/" + S + f, "w").write(t)
    print("%s: %d mutants tried, %d pass the tests, %d caught" % (p, tried, done, caught), flush=True)
    for k, _, _ in cfg: shutil.rmtree(w + "." + k, ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
main()
