"""Driver: compiles /repo's current sources with goto-cc, attaches the contracts in
/verif/harness, discharges every obligation with CBMC, replays counterexamples natively."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)

SRC = {
    "ecc": "src/ecc/ecc.c", "ecc_const": "src/ecc/ecc_const.c",
    "ambe_common": "src/ambe/ambe_common.c", "ambe2400": "src/ambe/ambe3600x2400.c",
    "ambe2450": "src/ambe/ambe3600x2450.c", "imbe7200": "src/imbe/imbe7200x4400.c",
    "imbe7100": "src/imbe/imbe7100x4400.c", "core": "src/core/mbelib.c",
    "adaptive": "src/core/mbe_adaptive.c", "unvoiced": "src/core/mbe_unvoiced_fft.c",
    "pffft": "src/external/pffft/pffft.c", "fftpack": "src/external/pffft/fftpack.c",
}
EXTRA = []   # sources a change may add
for _d, _, _fs in sorted(os.walk(os.path.join(REPO, "src"))):
    for _f in sorted(_fs):
        _p = os.path.relpath(os.path.join(_d, _f), REPO)
        if _f.endswith(".c") and _p not in SRC.values(): SRC["x:" + _p] = _p; EXTRA.append("x:" + _p)
INC = ["include", ".", "src/internal", "src/external/pffft"]


def pffft_defs(defs):
    """as in CMakeLists.txt: the bundled FFT is scalar unless the project's SIMD option is on"""
    return [] if "MBELIB_ENABLE_SIMD" in defs or "TU_MBELIB_ENABLE_SIMD" in defs else ["-DPFFFT_SIMD_DISABLE=1"]


class EngineError(Exception):
    pass


class Job:
    """One verification task: function(s) under contract in one harness configuration."""
    def __init__(self, name, harness, enforce=None, replace=(), tus=(), defs=(), unwind=None, cbmc=(),
                 timeout=300, plain=False, shim=False, fallback=None, native_defs=(), what="", remove=(),
                 native=True, unwindset=None, search=True, slice=True, bounded=None, incl=(), objbits=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def variant(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Job(**d)


class SymJob:
    """One harness discharged by lib/irsym.py over the LLVM IR of the current sources; `tasks` is a case split whose
    union is the whole input space (each task: the integer parameters of vf_task)."""
    sym = True
    def __init__(self, name, harness, enforce=None, tus=(), defs=(), tasks=((),), timeout=200, native_defs=(), native=True,
                 search=True, incl=(), stubs=(), need=(), maxsteps=40_000_000, procs=8, inv=True):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.replace = tuple(stubs)
        self.native_defs = tuple(native_defs) + tuple("WRAP_" + x for x in stubs)


class FrameJob:
    """Frame conditions of every function of the library in one build configuration (lib/frame.py)"""
    sym = False; frame = True
    def __init__(self, name, harness, defs=(), native_defs=(), native=True, search=True, timeout=60, incl=(), enforce="every function of src/"):
        self.__dict__.update(locals()); del self.__dict__["self"]; self.replace = (); self.tus = sorted(SRC)


class Result:
    def __init__(self):
        self.status = "error"; self.obligations = 0; self.discharged = 0; self.failed = []
        self.time = 0.0; self.solver = 0.0; self.log = ""; self.trace = None; self.job = None; self.used = ""


class Engine:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.lock = threading.Lock(); self.objlocks = {}
        self.procs = set(); self.deadline = 1e9
        self._version_header()

    def close(self):
        for p in list(self.procs):
            try: os.killpg(p.pid, 9)
            except Exception: pass
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def _version_header(self):
        d = os.path.join(self.tmp, "gen", "mbelib-neo"); os.makedirs(d)
        src = open(os.path.join(REPO, "include/mbelib-neo/version.h.in")).read()
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"project\([^)]*VERSION\s+([0-9.]+)", cm, re.S)
        self.version = m.group(1) if m else "0.0.0"
        src = re.sub(r"@[A-Za-z_]*VERSION[A-Za-z_]*@|\$\{[A-Za-z_]*VERSION[A-Za-z_]*\}", self.version, src)
        open(os.path.join(d, "version.h"), "w").write(src)

    def incs(self, shim=False):
        r = []
        if shim: r.append("-I" + os.path.join(LIB, "shim"))
        r += ["-I" + os.path.join(REPO, i) for i in INC]
        r += ["-I" + os.path.join(self.tmp, "gen"), "-I" + LIB, "-I" + HARN, "-I" + REPO + "/src/core",
              "-I" + REPO + "/src/ambe", "-I" + REPO + "/src/imbe", "-I" + REPO + "/src/ecc"]
        return r

    def run(self, cmd, timeout, cwd=None, mem_gb=12):
        def lim():
            import resource
            os.setpgrp()
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        native = mem_gb is None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                             preexec_fn=os.setpgrp if native else lim)
        with self.lock: self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except Exception: pass
            out, _ = p.communicate()
            return 124, out.decode("utf-8", "replace") + "\nTIMEOUT"
        finally:
            with self.lock: self.procs.discard(p)

    def tu_obj(self, key, shim, defs, native):
        src = SRC.get(key, key)
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        tag = hashlib.sha1(repr((path, shim, tuple(defs), native)).encode()).hexdigest()[:12]
        out = os.path.join(self.tmp, "%s_%s.o" % (os.path.basename(path), tag))
        with self.lock:
            l = self.objlocks.setdefault(out, threading.Lock())
        with l:
            if os.path.exists(out): return out
            if native:
                cmd = native + pffft_defs(defs) + ["-c", path, "-o", out + ".tmp"] + self.incs() + ["-D" + d for d in defs]
                rc, o = self.run(cmd, 240, mem_gb=None)
            else:
                cmd = ["goto-cc", "-c", path, "-o", out + ".tmp"] + self.incs(shim) + ["-D" + d for d in defs]
                rc, o = self.run(cmd, 120)
            if rc != 0: raise EngineError("compile %s: %s" % (path, o[-3000:]))
            os.rename(out + ".tmp", out)
            return out

    # ---------------------------------------------------------------- proving
    def goto_binary(self, job):
        tag = hashlib.sha1((job.name + repr(job.defs) + repr(job.plain) + repr(job.replace)).encode()).hexdigest()[:12]
        base = os.path.join(self.tmp, "j_" + tag)
        hdefs = ["-D" + d for d in job.defs] + (["-DVF_PLAIN"] if job.plain else [])
        hobj = base + "_h.o"
        rc, o = self.run(["goto-cc", "-c", os.path.join(HARN, job.harness), "-o", hobj] + self.incs(job.shim) + hdefs, 120)
        if rc: raise EngineError("harness compile %s: %s" % (job.harness, o[-3000:]))
        tudefs = [d[3:] for d in job.defs if d.startswith("TU_")]
        objs = [self.tu_obj(t, job.shim, tudefs, None) for t in job.tus]
        a, b = base + "_a.gb", base + "_b.gb"
        rc, o = self.run(["goto-cc", "--function", "harness", hobj] + objs + ["-o", a], 120)
        if rc: raise EngineError("link: " + o[-3000:])
        if job.remove:
            args = []
            for f in job.remove: args += ["--remove-function-body", f]
            rc, o = self.run(["goto-instrument"] + args + [a, b], 120)
            if rc: raise EngineError("remove body: " + o[-2000:])
            os.rename(b, a)
        if job.plain or not job.enforce:
            return a
        cmd = ["goto-instrument", "--dfcc", "harness", "--enforce-contract", job.enforce]
        for r in job.replace: cmd += ["--replace-call-with-contract", r]
        rc, o = self.run(cmd + [a, b], 240)
        if rc: raise EngineError("goto-instrument: " + o[-3000:])
        return b

    def prove_once(self, job, unwind, trace=False):
        r = Result(); r.job = job; t = time.time()
        gb = self.goto_binary(job)
        cmd = ["cbmc", "--json-ui", "--unwinding-assertions"]
        if unwind: cmd += ["--unwind", str(unwind)]
        if job.unwindset: cmd += ["--unwindset", job.unwindset]
        if job.slice and not trace: cmd += ["--slice-formula"]
        if job.objbits: cmd += ["--object-bits", str(job.objbits)]
        cmd += list(job.cbmc)
        if trace: cmd += ["--trace"]
        r.cmd = " ".join(cmd + ["<linked goto binary of %s>" % "+".join((job.harness,) + tuple(job.tus))])
        lim = job.timeout if self.tier != "quick" else min(job.timeout, max(5, 600 - (time.time() - self.t0)))
        rc, out = self.run(cmd + [gb], lim)
        r.time = time.time() - t
        if rc == 124:
            r.status = "timeout"; r.log = "timeout after %ds" % job.timeout; return r
        try:
            js = json.loads(out)
        except Exception:
            r.status = "error"; r.log = out[-3000:]; return r
        msgs = []; res = None
        for m in js:
            if "messageText" in m:
                msgs.append(m["messageText"])
                mm = re.match(r"Runtime (?:Solver|decision procedure)\s*:\s*([0-9.e+-]+)s", m["messageText"])
                if mm: r.solver += float(mm.group(1))
            if "result" in m: res = m["result"]
        r.log = "\n".join(msgs[-30:])
        if res is None:
            r.status = "error"; return r
        reach = None; unw = False
        for p in res:
            if p.get("description") == "VF_REACH":
                reach = p["status"]; 
                continue
            r.obligations += 1
            if p["status"] == "SUCCESS": r.discharged += 1
            else:
                kind = "unwind" if ("unwinding assertion" in p.get("description", "") or ".unwind." in p.get("property", "") or "recursion" in p.get("property","")) else "ob"
                if kind == "unwind": unw = True
                if p["status"] != "FAILURE": kind = "unknown"
                r.failed.append((kind, p.get("property", "?"), p.get("description", ""),
                                 p.get("sourceLocation", {}), p.get("trace")))
        obs = [f for f in r.failed if f[0] == "ob"]
        if unw and not trace: r.status = "unwind"
        elif obs: r.status = "fail"
        elif r.failed: r.status = "error"; r.log = "obligations with status neither SUCCESS nor FAILURE"
        elif r.obligations == 0: r.status = "vacuous"; r.log = "no obligations generated"
        elif reach == "SUCCESS": r.status = "vacuous"; r.log = "precondition unsatisfiable / end of harness unreachable"
        elif reach is None and "VF_NO_REACH" not in job.defs: r.status = "error"; r.log = "no reachability probe"
        else: r.status = "ok"
        return r

    # ---------------------------------------------------------------- IR-level prover (lib/irsym.py)
    CLANG = ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-ffp-contract=off", "-w", "-DVF_SYM"]

    def ir(self, path, defs, tag):
        out = os.path.join(self.tmp, "ir_%s_%s.ll" % (os.path.basename(path), hashlib.sha1(repr((path, tuple(defs), tag)).encode()).hexdigest()[:12]))
        with self.lock: l = self.objlocks.setdefault(out, threading.Lock())
        with l:
            if os.path.exists(out): return out
            rc, o = self.run(self.CLANG + pffft_defs(defs) + self.incs() + ["-D" + d for d in defs] + [path, "-o", out + ".a"], 120)
            if rc: raise EngineError("compile %s: %s" % (path, o[-3000:]))
            rc, o = self.run(["opt", "-S", "-passes=sroa", out + ".a", "-o", out + ".b"], 120)
            if rc: raise EngineError("opt %s: %s" % (path, o[-3000:]))
            os.rename(out + ".b", out)
        return out

    def prove_sym(self, job):
        r = Result(); r.job = job; t = time.time()
        try:
            tudefs = [d[3:] for d in job.defs if d.startswith("TU_")]
            lls = [self.ir(os.path.join(HARN, job.harness), list(job.defs), "h")]
            for k in list(job.tus) + EXTRA:
                src = SRC.get(k, k); lls.append(self.ir(src if os.path.isabs(src) else os.path.join(REPO, src), tudefs, "t"))
            base = os.path.join(self.tmp, "sym_" + hashlib.sha1((job.name + repr(job.defs)).encode()).hexdigest()[:12])
            rc, o = self.run(["llvm-link", "-S"] + lls + ["-o", base + ".ll"], 120)
            if rc: raise EngineError("llvm-link: " + o[-3000:])
            json.dump({"ll": base + ".ll", "hll": lls[0], "tasks": [list(x) for x in job.tasks], "out": base + ".out", "timeout": job.timeout,
                       "procs": job.procs, "maxsteps": job.maxsteps, "deadline": min(self.deadline, max(20, 480 - (time.time() - self.t0)) if self.tier == "quick" else 3000), "hard": self.deadline < 1e9}, open(base + ".json", "w"))
            total = 60 + job.timeout * (1 + (len(job.tasks) - 1) // job.procs)
            rc, o = self.run([sys.executable, os.path.join(LIB, "irsym.py"), base + ".json"], total, mem_gb=24)
            if rc or not os.path.exists(base + ".out"): raise EngineError("prover: rc=%d %s" % (rc, o[-2000:]))
            out = json.load(open(base + ".out"))
        except EngineError as e:
            r.log = str(e); r.time = time.time() - t; return r
        r.tasks = len(out); stubbed = set(); r.sym = []; r.labels = {}; r.usedfns = set(); errs = []; r.casts = 0; r.safety = 0
        seen = {}
        for x in out:
            if x["error"]: errs.append("%s: %s" % (x["params"], x["error"]))
            r.obligations += x.get("proved", 0) + len(x.get("failed", [])) + len(x.get("mem", [])); r.discharged += x.get("proved", 0)
            r.safety += x.get("memchecks", 0)
            r.solver += x.get("time", 0); r.casts += x.get("casts", 0); r.real = getattr(r, "real", 0) + x.get("real", 0)
            r.usedfns |= set(u[1:] for u in x.get("used", [])); stubbed |= set(x.get("stubbed", []))
            for k, v in x.get("labels", {}).items(): r.labels[k] = r.labels.get(k, 0) + v
            for kind, lst in (("post", x.get("failed", [])), ("memory safety", x.get("mem", []))):
                for lbl, model in lst:
                    nm = kind + ":" + lbl
                    r.sym.append((nm, x["params"], model))
                    if nm in seen: seen[nm].append(x["params"]); continue
                    seen[nm] = [x["params"]]
                    r.failed.append(("ob", nm, "%s (case %s) %s" % (lbl, x["params"], " ; ".join(x.get("notes", [])[:2])), {}, None))
        # data-structure invariant of the library's static state: one and the same constant content after every case
        st = {}
        for x in out:
            for y in x.get("statics") or []: st.setdefault(re.split("[=:]", y)[0], set()).add(y)
        r.statics = {k: sorted(v) for k, v in st.items()}
        miss = [x for x in job.need if x not in stubbed]
        r.weak = bool(miss)
        if miss and not any(x["error"] for x in out): errs.append("callee(s) %s used through their contract are not called any more: failed obligations count only with a failing input" % ", ".join(miss))
        if job.inv and not r.failed and not errs:
            for k, v in st.items():
                if len(v) > 1 or any(y.endswith(":varies") for y in v): errs.append("static state %s depends on earlier input: history independence not established" % k)
        r.cmd = "clang -S -emit-llvm; opt -passes=sroa; llvm-link; lib/irsym.py"
        r.log = "\n".join(errs[:8] + ["%s fails in %d case(s), first %s" % (k, len(v), v[0]) for k, v in seen.items()])
        if r.failed: r.status = "fail"
        elif errs: r.status = "error"
        elif r.obligations == 0: r.status = "vacuous"
        else: r.status = "ok"
        r.time = time.time() - t
        return r

    def prove_frame(self, job):
        """assigns clauses of all functions; ownership of all static storage"""
        from lib import frame
        r = Result(); r.job = job; t = time.time(); r.cmd = "clang -S -emit-llvm; opt -passes=sroa; llvm-link; lib/frame.py"
        try:
            tudefs = [d[3:] for d in job.defs if d.startswith("TU_")]
            lls = [self.ir(os.path.join(REPO, SRC[k]), tudefs, "t") for k in job.tus]
            out = os.path.join(self.tmp, "fr_" + hashlib.sha1(job.name.encode()).hexdigest()[:12] + ".ll")
            rc, o = self.run(["llvm-link", "-S"] + lls + ["-o", out], 120)
            if rc: raise EngineError("llvm-link: " + o[-3000:])
            obs, und = frame.Frame(open(out).read()).obligations()
        except (EngineError, RecursionError, ValueError, KeyError, AttributeError, IndexError, OSError) as e:
            r.log = "%s: %s" % (type(e).__name__, e); r.time = time.time() - t; return r
        r.obligations = len(obs); r.discharged = sum(1 for x in obs if x[1]); r.solver = r.time = time.time() - t
        r.labels = {}
        for x in obs: k = x[0].split(":")[0]; r.labels[k] = r.labels.get(k, 0) + 1
        r.failed = [("ob", n, txt, {}, None) for n, ok, txt in sorted(obs, key=lambda x: x[0].startswith("assigns")) if not ok]
        r.log = "\n".join(und + ["%s: %s" % (f[1], f[2]) for f in r.failed])
        r.status = "fail" if r.failed else "error" if und else "ok" if obs else "vacuous"
        return r

    def hinted_search(self, r, log):
        """search for a failing input in the neighbourhood the failed obligations describe"""
        job = r.job; picks = {}
        for nm, params, model in r.sym: picks.setdefault((nm,), []).append((params, model))
        cand = []
        for k in picks: cand += picks[k][:1]
        for k in picks: cand += picks[k][1:3]
        exe = self.native_build(job)
        def one(ic):
            i, (params, model) = ic
            for pins in (1, 0):
                hp = os.path.join(self.tmp, "hint_%s_%d_%d" % (os.path.basename(exe), i, pins))
                with open(hp, "w") as f:
                    for k, v in enumerate(params): f.write("task %d 0 0 %d\n" % (k, v))
                    for x in (model if pins else []):
                        if x[0] in ("bit", "rng"): f.write("%s %d %d 0 %d\n" % (x[0], x[1], x[2], x[3]))
                        elif isinstance(x[2], int) and isinstance(x[3], int): f.write("in %d %d %d %d\n" % tuple(x[1:5]))
                outp = hp + ".out"
                rc, o = self.run(["env", "VF_HINTS=" + hp, exe, "search", str(self.seed * 1000 + i), "1.5", outp], 60, mem_gb=None)
                m = re.search(r"SEARCH n=(\d+) ok=(\d+)", o)
                log.append("search near failed case %s: %s" % (params, m.group(0) if m else "rc=%d %s" % (rc, o[-300:])))
                if rc not in (0, 124) and os.path.exists(outp):
                    return {"inputs": open(outp).read(), "native_output": o[-4000:], "source": "native search in the failed case of the obligation"}
            return None
        with ThreadPoolExecutor(4) as ex:
            for w in ex.map(one, enumerate(cand[:8])):
                if w: return w
        return None

    def prove(self, job):
        if getattr(job, "sym", False): return self.prove_sym(job)
        if getattr(job, "frame", False): return self.prove_frame(job)
        t = time.time()
        try:
            u = job.unwind; r = None
            for k in range(3):
                r = self.prove_once(job, u)
                if r.status != "unwind": break
                u = (u or 50) * 3
            if r.status == "unwind": r.status = "error"; r.log = "loop bound not closed up to unwind %d" % (u // 3)
        except EngineError as e:
            r = Result(); r.job = job; r.status = "error"; r.log = str(e)
        r.unwind = job.unwind
        r.time = time.time() - t
        if r.status != "ok" and job.fallback is not None:
            fbs = job.fallback if isinstance(job.fallback, (list, tuple)) else [job.fallback]
            for fb in fbs:
                if fb == "plain": fb = job.variant(plain=True, fallback=None, replace=())
                r2 = self.prove(fb)
                if r2.status == "ok":
                    r2.used = "fallback:%s (primary %s: %s)" % (fb.name, r.status, "; ".join(f[1] for f in r.failed[:4]) or r.log[-200:])
                    r2.time += r.time; return r2
                if r2.status == "fail" and r.status != "fail": r = r2
        return r

    # ---------------------------------------------------------------- native side
    NCC = ["gcc", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

    def native_build(self, job, trace_inc=None):
        ncc = list(self.NCC)
        if "NAT_TSAN" in job.native_defs: ncc = [x.replace("address,undefined", "thread") for x in ncc if "recover" not in x] + ["-DVF_TSAN"]
        if "NAT_FCAST" in job.native_defs: ncc.append("-fsanitize=float-cast-overflow")
        tudefs = [d[3:] for d in job.defs if d.startswith("TU_")]
        defs = [d for d in job.defs] + list(job.native_defs) + ["VF_NATIVE"]
        tag = hashlib.sha1(repr((job.harness, defs, bool(trace_inc), trace_inc)).encode()).hexdigest()[:12]
        exe = os.path.join(self.tmp, "n_" + tag)
        with self.lock: l = self.objlocks.setdefault(exe, threading.Lock())
        with l:
            if os.path.exists(exe): return exe
            inclkeys = set(job.incl)
            wrap = []
            for d in job.native_defs:
                if d.startswith("WRAP_"): wrap.append("-Wl,--wrap=" + d[5:])
            keys = [k for k in SRC if k not in inclkeys]
            with ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(lambda k: self.tu_obj(k, False, tudefs, ncc), keys))
            cmd = ncc + [os.path.join(HARN, job.harness)] + objs + ["-o", exe + ".tmp"] + self.incs() + ["-D" + d for d in defs] + wrap
            if trace_inc: cmd += ["-DVF_TRACE", "-I" + trace_inc]
            rc, o = self.run(cmd + ["-lm"], 240, mem_gb=None)
            if rc: raise EngineError("native build: " + o[-3000:])
            os.rename(exe + ".tmp", exe)
        return exe

    @staticmethod
    def c_value(path, v, out):
        n = v.get("name")
        if n == "struct":
            for m in v["members"]: Engine.c_value(path + "." + m["name"], m["value"], out)
        elif n == "array":
            for e in v["elements"]: Engine.c_value(path + "[%d]" % e["index"], e["value"], out)
        elif n == "float":
            b = v.get("binary")
            if b and len(b) == 32: out.append("%s = vf_bf(0x%08xu);" % (path, int(b, 2)))
        elif n in ("integer", "boolean") or "binary" in v:
            b = v.get("binary")
            if b:
                x = int(b, 2)
                if b[0] == "1" and not str(v.get("type", "")).startswith("unsigned") and len(b) > 1 and str(v.get("data", "")).startswith("-"):
                    x -= 1 << len(b)
                out.append("%s = %d%s;" % (path, x, "" if abs(x) < 2**31 else "LL" if x < 0 else "ULL"))

    def trace_replay(self, job, log):
        """re-run the failing job with a trace; replay the counterexample on the gcc-built code"""
        r = self.prove_once(job, (job.unwind or 0) or None, trace=True)
        fails = [f for f in r.failed if f[0] == "ob" and f[4]]
        if not fails: log.append("no counterexample trace from the verifier (%s)" % r.status); return None
        for f in fails[:4]:
            lines = []; seen = {}
            for st in f[4]:
                if st.get("stepType") != "assignment": continue
                lhs = st.get("lhs", "")
                fn = st.get("sourceLocation", {}).get("function", "")
                if fn != "vf_havoc": continue
                lhs = re.sub(r"\[(\d+)l?\]", r"[\1]", lhs)
                if lhs.startswith("vf_tmp_"): continue
                if not re.match(r"^[A-Za-z_]\w*([.\[].*)?$", lhs): continue
                seen[lhs] = st.get("value", {})
            for k, v in seen.items(): self.c_value(k, v, lines)
            d = tempfile.mkdtemp(dir=self.tmp)
            open(os.path.join(d, "vf_trace_inputs.h"), "w").write("\n".join(lines) + "\n")
            exe = self.native_build(job, trace_inc=d)
            outp = os.path.join(d, "inputs.txt")
            rc, o = self.run([exe, "trace", outp], 120, mem_gb=None)
            log.append("replay of counterexample for %s: rc=%d %s" % (f[1], rc, o[-1500:]))
            if rc not in (0, 77, 124) and os.path.exists(outp):
                return {"inputs": open(outp).read(), "native_output": o[-4000:], "source": "verifier counterexample", "obligation": f[1]}
        return None

    def search(self, job, secs, log, par=2, seed0=None):
        exe = self.native_build(job)
        tot = [0, 0]
        def one(i):
            outp = os.path.join(self.tmp, "s_%s_%d_%d" % (os.path.basename(exe), i, time.time_ns()))
            rc, o = self.run([exe, "search", str((seed0 or self.seed) * 100 + i), str(secs), outp], secs + 60, mem_gb=None)
            m = re.search(r"SEARCH n=(\d+) ok=(\d+)", o)
            if m:
                with self.lock: tot[0] += int(m.group(1)); tot[1] += int(m.group(2))
            if rc not in (0, 124) and os.path.exists(outp):
                return {"inputs": open(outp).read(), "native_output": o[-4000:], "source": "directed native search"}
            if rc not in (0, 124): log.append("search exit %d: %s" % (rc, o[-800:]))
            return None
        with ThreadPoolExecutor(par) as ex: rs = list(ex.map(one, range(par)))
        log.append("native search %s: %d executions, %d satisfied the precondition" % (job.name, tot[0], tot[1]))
        for x in rs:
            if x: return x, tot
        return None, tot


def find_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN: property=(\S+) job=(\S+) obligation=(\S+) (.*)", l)
            if m and m.group(1) == prop: r.append(m.groups()[1:])
    return r


def run_property(prop, spec, tier, seed):
    """spec: dict(jobs=[Job], functions=[...], trusted=[...], assumptions=[...], search=secs, note)"""
    eng = Engine(prop, tier, seed)
    code = 0; violations = 0
    try:
        jobs = spec["jobs"](tier) if callable(spec["jobs"]) else spec["jobs"]
        print("[%s] %d proof tasks, %d workers" % (prop, len(jobs), NCPU), flush=True)
        results = [None] * len(jobs)
        conf = {"executions": 0, "pre_ok": 0}
        log = []; witness = None; wjob = None
        seen = set(); sj = []
        for j in jobs:
            key = (j.harness, tuple(d for d in j.defs if not d.startswith("VFSPLIT")), tuple(j.native_defs))
            if j.search and j.native and key not in seen: seen.add(key); sj.append(j)
        sj = sj[:spec.get("max_search", 16)]
        def conform(secs):
            nonlocal witness, wjob
            def one(j):
                try: return j, eng.search(j, secs, log, par=1)
                except EngineError as e: log.append("native: %s" % e); return j, (None, [0, 0])
            with ThreadPoolExecutor(NCPU) as ex:
                for j, (w, tot) in ex.map(one, sj):
                    conf["executions"] += tot[0]; conf["pre_ok"] += tot[1]
                    if w and not witness: witness, wjob = w, j
        # conformance of the contracts with the compiled code; a failing input shortens the time given to the proof
        conform(spec.get("conf_secs", 1.0) * (5 if tier == "thorough" else 1))
        if witness: eng.deadline = 45
        def go(i):
            results[i] = eng.prove(jobs[i]); r = results[i]
            if os.environ.get("VF_VERBOSE") or r.status != "ok":
                print("  %-44s %-8s obligations %d/%d  %.1fs %s" % (jobs[i].name, r.status, r.discharged, r.obligations, r.time,
                      "; ".join("%s [%s]" % (f[1], f[2][:80]) for f in r.failed[:4]) if r.status != "ok" else r.used), flush=True)
        order = sorted(range(len(jobs)), key=lambda i: -getattr(jobs[i], "timeout", 0))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, order))
        bad = [r for r in results if r.status == "fail"]
        und = [r for r in results if r.status not in ("ok", "fail")]
        if not bad:
            if und and not witness: conform(20.0 if len(und) < len(results) else 40.0)
        elif witness: pass
        else:
            for r in bad[:6]:
                j = r.job
                if not j.native or getattr(j, "frame", False): continue
                try: witness = eng.hinted_search(r, log) if getattr(j, "sym", False) else eng.trace_replay(j, log)
                except EngineError as e: log.append(str(e))
                if witness: wjob = j; break
            if not witness:
                for r in bad[:4]:
                    j = r.job
                    if not (j.native and j.search): continue
                    try: witness, tot = eng.search(j, 8.0, log, par=4)
                    except EngineError as e: log.append(str(e)); continue
                    if witness: wjob = j; break
        known = find_known(prop)
        newbad = []
        for r in bad:
            obs = [f for f in r.failed if f[0] == "ob"]
            un = [f for f in obs if not any(k[0] == r.job.name and k[1] == f[1] for k in known)]
            if un: newbad.append(r)
            else:
                for k in known:
                    if k[0] == r.job.name: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        if bad and not newbad: witness = None
        if newbad and not witness and all(getattr(r, "weak", False) for r in newbad):
            und += newbad; newbad = []
        if newbad or witness:
            code = 1; violations = max(1, len(newbad))
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s_%d.json" % (prop, os.getpid()))
            rec = {"property": prop, "failed": [], "log": log}
            for r in newbad:
                rec["failed"].append({"job": r.job.name, "harness": r.job.harness, "defs": list(r.job.defs),
                    "contract_of": r.job.enforce, "obligations": [{"name": f[1], "text": f[2], "at": f[3]} for f in r.failed],
                    "verifier_output": r.log})
            if witness:
                rec["witness"] = witness
                rec["witness_job"] = {"name": wjob.name, "harness": wjob.harness, "defs": list(wjob.defs), "native_defs": list(wjob.native_defs), "incl": list(wjob.incl)}
                rec["replay_cmd"] = "python3 %s/run.py replay %s" % (VERIF, rp)
            json.dump(rec, open(rp, "w"), indent=1)
            for r in newbad:
                for f in r.failed[:6]: print("  FAILED OBLIGATION %s: %s :: %s (%s:%s)" % (r.job.name, f[1], f[2], f[3].get("file", "?"), f[3].get("line", "?")))
            if witness:
                print("  witness (%s): %s" % (witness["source"], witness["native_output"].strip()[-400:]))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            else:
                for l in log[-6:]: print("  " + l[-300:])
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        elif und:
            for r in und: print("  UNDECIDED %s: %s %s" % (r.job.name, r.status, r.log[-600:]))
            okn = sum(1 for r in results if r.status == "ok")
            if conf["pre_ok"] == 0:
                print("[%s] nothing decided: error of the check" % prop); code = 2
            elif okn == 0:
                print("[%s] no obligation decided on this tree: only the bounded native search stands (nothing counted as proved)" % prop)
            else:
                print("[%s] %d task(s) undecided; bounded native stand-in only for those (not counted as proved)" % (prop, len(und)))
        ob = sum(r.obligations for r in results); di = sum(r.discharged for r in results)
        symr = [r for r in results if getattr(r.job, "sym", False)]; backs = []; frr = [r for r in results if getattr(r.job, "frame", False)]
        if frr: backs.append("lib/frame.py: least fixpoint of per-function write/keep/return summaries over LLVM IR (clang 18)"); spec = dict(spec, trusted=list(spec.get("trusted", [])) + ["clang 18 C front end and opt -passes=sroa", "lib/frame.py", "the table of thread-safe C library functions in lib/frame.py"])
        if len(symr) + len(frr) < len(results): backs.append("CBMC 6.11.0 bit-blasting + MiniSat 2.2.1 (SAT), contracts by goto-instrument --dfcc")
        if symr: backs.append("lib/irsym.py: verification conditions over LLVM IR (clang 18), decided by ROBDD canonicity and congruence of hash-consed float terms")
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
              "coverage": {"obligations": ob, "discharged": di,
                  "checker_cmd": " | ".join((["goto-cc; goto-instrument --dfcc harness --enforce-contract F [--replace-call-with-contract G]; " + next((r.cmd for r in results if hasattr(r, "cmd") and r not in symr), "cbmc")] if len(symr) + len(frr) < len(results) else []) + [f.cmd for f in frr[:1]] + ([symr[0].cmd if hasattr(symr[0], "cmd") else "lib/irsym.py"] if symr else [])),
                  "trusted_base": spec.get("trusted", []) + (TRUSTED if len(symr) + len(frr) < len(results) else []) + (TRUSTED_SYM if symr else []) + [TRUSTED_SPEC],
                  "functions_under_contract": spec.get("functions", []),
                  "back_end": "; ".join(backs),
                  "functions_executed_by_ir_prover": sorted(set(u for r in symr for u in getattr(r, "usedfns", ()) if not u.startswith(("vf_", "harness", "spec_", "post_")))),
                  "obligations_by_label": {r.job.name: getattr(r, "labels", {}) for r in symr},
                  "memory_safety_checks_passed": sum(getattr(r, "safety", 0) for r in symr),
                  "static_state_invariants": {r.job.name: getattr(r, "statics", {}) for r in symr if getattr(r, "statics", {})},
                  "float_identities_decided_over_the_reals": sum(getattr(r, "real", 0) for r in symr),
                  "unchecked_float_to_int_casts": sum(getattr(r, "casts", 0) for r in symr),
                  "solver_time_s": round(sum(r.solver for r in results), 2),
                  "tasks": len(results), "tasks_ok": sum(1 for r in results if r.status == "ok"),
                  "task_list": [{"name": r.job.name, "cases": getattr(r, "tasks", 1), "contract_of": r.job.enforce, "replaced_contracts": list(r.job.replace), "status": r.status,
                                 "obligations": r.obligations, "discharged": r.discharged, "time_s": round(r.time, 2), "note": r.used or None} for r in results][:400],
                  "undecided": [r.job.name for r in und],
                  "native_conformance_executions": conf["executions"], "native_conformance_pre_ok": conf["pre_ok"],
                  "bounded_standins": spec.get("bounded", [])},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - eng.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("[%s] tasks %d ok %d; obligations %d discharged %d; solver %.1fs; native conformance runs %d; wall %.1fs -> exit %d" % (
            prop, len(results), sum(1 for r in results if r.status == "ok"), ob, di, sum(r.solver for r in results), conf["pre_ok"], time.time() - eng.t0, code), flush=True)
        if os.environ.get("VF_VERBOSE"):
            for l in log: print("   log:", l[-500:])
    finally:
        eng.close()
    return code


TRUSTED = [
    "goto-cc C front end, goto-instrument DFCC contract instrumentation and CBMC 6.11 symbolic execution / MiniSat",
    "x86-64 LP64 C semantics as modelled by CBMC (signed char, IEEE-754 binary32/64, round-to-nearest)",
]
TRUSTED_SYM = [
    "clang 18 C front end and opt -passes=sroa (semantics-preserving lowering of the sources to LLVM IR)",
    "lib/irsym.py (own verification-condition generator and canonical-form decision procedure; float operators and libm functions are uninterpreted on non-constant operands, evaluated in IEEE arithmetic on constants)",
    "x86-64 LP64 layout, IEEE-754 binary32/64 round-to-nearest, no floating-point contraction or fast-math",
]
TRUSTED_SPEC = "the specification text in /verif/harness and /verif/lib/*_spec.h"


def replay(path):
    rec = json.load(open(path))
    for f in rec.get("failed", []):
        print("contract of %s, task %s (%s %s)" % (f["contract_of"], f["job"], f["harness"], " ".join(f["defs"])))
        for o in f["obligations"]: print("   failed obligation %s: %s" % (o["name"], o["text"]))
    if "witness" not in rec:
        print("no failing input was found; verifier output:")
        for f in rec.get("failed", []): print(f["verifier_output"])
        return 1
    wj = rec["witness_job"]
    eng = Engine(rec["property"])
    try:
        j = Job(wj["name"], wj["harness"], defs=wj["defs"], native_defs=wj["native_defs"], incl=wj.get("incl", ()))
        exe = eng.native_build(j)
        inp = os.path.join(eng.tmp, "in.txt"); open(inp, "w").write(rec["witness"]["inputs"])
        rc, o = eng.run([exe, "file", inp], 120, mem_gb=None)
        print(o); print("replay exit code %d (%s)" % (rc, "violation reproduced" if rc not in (0, 77) else "not reproduced"))
        return 0 if rc in (0, 77) else 1
    finally:
        eng.close()
