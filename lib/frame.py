"""Frame conditions over the LLVM IR of the library's current sources.

Contract of every function f:  assigns only memory reachable from f's own arguments, f's locals, heap blocks and the calling
thread's own (thread_local) objects; publishes the address of none of its statics.  Checked function by function: a call is
judged by the callee's summary (which parameters it writes, keeps, returns), the summaries being the least fixpoint.
Obligations: one per function (assigns clause), one per mutable object with static storage, one per external function used.
"""
import re

# external functions with a thread-safety contract (POSIX MT-Safe): written parameters, kept parameters, returned parameters
PURE = ((), (), ())
EXT = {"memcpy": ((0,), (), (0,)), "memmove": ((0,), (), (0,)), "memset": ((0,), (), (0,)), "memcmp": PURE, "strlen": PURE, "strcmp": PURE, "strncmp": PURE,
       "strcpy": ((0,), (), (0,)), "strncpy": ((0,), (), (0,)), "strcat": ((0,), (), (0,)), "strncat": ((0,), (), (0,)), "strchr": ((), (), (0,)), "strnlen": PURE,
       "sprintf": ((0,), (), ()), "snprintf": ((0,), (), ()), "vsnprintf": ((0, 3), (), ()), "fprintf": PURE, "printf": PURE, "fputs": PURE, "fputc": PURE, "puts": PURE,
       "putchar": PURE, "fwrite": PURE, "fflush": PURE, "vfprintf": ((2,), (), ()), "__assert_fail": PURE, "abort": PURE,
       "__sprintf_chk": ((0,), (), ()), "__snprintf_chk": ((0,), (), ()), "__fprintf_chk": PURE, "__printf_chk": PURE, "__memcpy_chk": ((0,), (), (0,)), "__memset_chk": ((0,), (), (0,)),
       "malloc": PURE, "calloc": PURE, "realloc": ((0,), (), (0,)), "free": ((0,), (), ()), "aligned_alloc": PURE, "posix_memalign": ((0,), (), ()),
       "strtol": ((1,), (), (0,)), "strtoul": ((1,), (), (0,)), "atoi": PURE, "abs": PURE, "labs": PURE, "__cpu_indicator_init": PURE,
       "__stack_chk_fail": PURE, "rand_r": ((0,), (), ()), "nrand48": ((0,), (), ()), "erand48": ((0,), (), ())}
for _n in "sin cos tan asin acos atan atan2 sinh cosh tanh exp exp2 expm1 log log2 log10 log1p pow sqrt cbrt fabs floor ceil round trunc rint nearbyint lrint llrint lround llround fmod remainder fmin fmax fma hypot ldexp scalbn copysign exp10 fdim logb ilogb nextafter erf erfc tgamma".split():
    for _s in ("", "f", "l"): EXT[_n + _s] = PURE
for _s in ("", "f", "l"): EXT["sincos" + _s] = ((1, 2), (), ()); EXT["modf" + _s] = ((1,), (), ()); EXT["frexp" + _s] = ((1,), (), ())
# known not to be thread-safe (shared hidden state)
UNSAFE = set("rand srand random srandom drand48 lrand48 mrand48 srand48 seed48 lcong48 strtok setlocale localeconv strerror localtime gmtime asctime ctime getenv setenv putenv "
             "unsetenv lgamma lgammaf lgammal signal gamma tmpnam getpwnam gethostbyname initstate setstate".split())

def rx(p): return p.replace('<N>', NAME)
NAME = r'(?:"[^"]*"|[\w.$-]+)'


class Fn:
    def __init__(s, name, params): s.name = name; s.params = params; s.code = []; s.writes = set(); s.keeps = set(); s.rets = set(); s.log = []


def split_args(t):
    r = []; d = 0; cur = ""
    for ch in t:
        if ch in "([{<": d += 1
        if ch in ")]}>": d -= 1
        if ch == "," and d == 0: r.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): r.append(cur)
    return r


def matching(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "(": d += 1
        elif s[j] == ")":
            d -= 1
            if d == 0: return j
    return len(s) - 1


def parse(text):
    funcs = {}; glob = {}; decls = set(); aliases = {}
    lines = text.split("\n"); i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        m = re.match(rx(r"@(<N>) = (.*)$"), l)
        if m:
            rest = m.group(2)
            k = re.search(r"\b(constant|global|alias|ifunc)\b", rest)
            head = rest[:k.start()]; body = re.sub(r", (align \d+|section .*|!.*|comdat.*)$", "", rest[k.end():])
            glob[m.group(1)] = dict(kind=k.group(1), tls="thread_local" in head, ext=bool(re.search(r"\b(external|extern_weak)\b", head)),
                                    refs=set(re.findall(rx(r"@(<N>)"), re.sub(r'c"[^"]*"', "", body))))
        elif l.startswith("declare"):
            m = re.search(rx(r"@(<N>)\s*\("), l); decls.add(m.group(1))
        elif l.startswith("define"):
            m = re.search(rx(r"@(<N>)\s*\("), l); p = l[m.end() - 1:matching(l, m.end() - 1) + 1][1:-1]
            ps = []
            for k, a in enumerate(split_args(p)):
                q = re.search(rx(r"%(<N>)\s*$"), a); ps.append(q.group(1) if q else "arg%d" % k)
            f = Fn(m.group(1), ps); body = []
            while lines[i] != "}":
                s = lines[i]; i += 1
                if s.strip().startswith("switch") and "]" not in s:
                    while "]" not in lines[i]: i += 1
                    i += 1; continue
                s = re.sub(r"; preds.*$", "", s).strip()
                if not s or re.match(rx(r"^<N>:"), s): continue
                body.append(re.sub(r', ![\w.]+ ![\w.]+', "", s))
            i += 1; f.code = body; funcs[f.name] = f
    return funcs, glob, decls


class Frame:
    def __init__(self, text):
        self.funcs, self.glob, self.decls = parse(text)
        self.written = {}; self.kept = {}; self.ext = {}; self.undec = []
        self.run()

    def track(self, g):
        """static storage whose frame matters: everything mutable"""
        x = self.glob.get(g)
        return x is not None and x["kind"] in ("global", "alias", "ifunc")

    def run(self):
        self.env = {n: {p: frozenset([("A", k)]) for k, p in enumerate(f.params)} for n, f in self.funcs.items()}
        ch = True; rounds = 0
        while ch and rounds < 200:
            ch = False; rounds += 1
            for n, f in self.funcs.items():
                if self.step(n, f): ch = True
        self.rounds = rounds

    def origins(self, f, t):
        """memory objects a text fragment's pointers may refer to"""
        e = self.env[f.name]; r = set()
        for m in re.finditer(rx(r"([%@])(<N>)"), t):
            if m.group(1) == "@":
                if self.track(m.group(2)): r.add(("G", m.group(2)))
            else: r |= e.get(m.group(2), frozenset())
        return frozenset(r)

    def step(self, n, f):
        ch = False; e = self.env[n]
        def setr(d, o):
            nonlocal ch
            if d is None: return
            old = e.get(d, frozenset())
            if not o <= old: e[d] = old | o; ch = True
        def eff(kind, o, why):
            nonlocal ch
            for k, x in o:
                if k == "A":
                    s = f.writes if kind == "w" else f.keeps
                    if x not in s: s.add(x); ch = True
                else:
                    d = self.written if kind == "w" else self.kept
                    s = d.setdefault(x, {})
                    if n not in s: s[n] = why; ch = True
        for s in f.code:
            m = re.match(rx(r"^%(<N>) = (.*)$"), s); d = None; r = s
            if m: d, r = m.group(1), m.group(2)
            op = r.split(None, 1)[0]
            if op in ("tail", "notail", "musttail"): r = r.split(None, 1)[1]; op = r.split(None, 1)[0]
            if op == "store":
                b = r[5:]; parts = split_args(b)
                eff("k", self.origins(f, parts[0]), s); eff("w", self.origins(f, parts[1]), s)
            elif op in ("atomicrmw", "cmpxchg"):
                parts = split_args(r); eff("w", self.origins(f, parts[0]), s); eff("k", self.origins(f, ",".join(parts[1:])), s)
            elif op == "load": pass            # no tracked address is ever stored (obligation), so a loaded pointer is none
            elif op in ("getelementptr", "bitcast", "phi", "select", "freeze", "addrspacecast", "insertelement", "extractelement", "shufflevector", "inttoptr", "ptrtoint", "insertvalue", "extractvalue"):
                setr(d, self.origins(f, r.split(None, 1)[1]))
            elif op in ("add", "sub", "and", "or", "xor"):      # address arithmetic on a converted pointer
                setr(d, self.origins(f, r.split(None, 1)[1]))
            elif op == "ret": 
                for k, x in self.origins(f, r):
                    if (k, x) not in f.rets: f.rets.add((k, x)); ch = True
            elif op in ("call", "invoke"):
                m = re.search(rx(r"([@%])(<N>)\s*\("), r)
                if not m or " asm " in r:
                    u = "%s: %s" % (n, s[:120])
                    if u not in self.undec: self.undec.append(u)
                    continue
                a = split_args(r[m.end():matching(r, m.end() - 1)]); args = [self.origins(f, x) for x in a]
                if m.group(1) == "%":
                    # indirect call: any function of matching arity whose address is taken
                    cands = [g for g in self.funcs if g in self.taken() and len(self.funcs[g].params) == len(args)]
                    cs = [self.summ(g) for g in cands]
                    if not cs:
                        u = "%s: indirect call without a known target" % n
                        if u not in self.undec: self.undec.append(u)
                else:
                    g = m.group(2)
                    if g in self.funcs: cs = [self.summ(g)]
                    elif g.startswith("llvm."):
                        if g.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): cs = [({0}, set(), set())]
                        elif g.startswith("llvm.threadlocal.address"): cs = [(set(), set(), {("A", 0)})]
                        elif g.startswith(("llvm.masked.store", "llvm.masked.scatter", "llvm.x86")): cs = [(set(range(len(args))), set(), set())]
                        else: cs = [(set(), set(), set())]
                    else:
                        self.ext.setdefault(g, set()).add(n)
                        c = EXT.get(g)
                        cs = [(set(c[0]), set(c[1]), set(("A", k) for k in c[2]))] if c else [(set(range(len(args))), set(range(len(args))), set(("A", k) for k in range(len(args))))]
                for w, k, rt in cs:
                    for i, o in enumerate(args):
                        if i in w: eff("w", o, s)
                        if i in k: eff("k", o, s)
                    o = set()
                    for x in rt:
                        if x[0] == "A":
                            if x[1] < len(args): o |= args[x[1]]
                        else: o.add(x)
                    setr(d, frozenset(o))
        return ch

    def taken(self):
        if not hasattr(self, "_tk"):
            t = set()
            for f in self.funcs.values():
                for s in f.code:
                    s2 = re.sub(rx(r"call [^@%]*@(<N>)\("), "(", s)
                    for g in re.findall(rx(r"@(<N>)"), s2):
                        if g in self.funcs: t.add(g)
            for x in self.glob.values(): t |= x["refs"] & set(self.funcs)
            self._tk = t
        return self._tk

    def summ(self, g):
        f = self.funcs[g]; return f.writes, f.keeps, f.rets

    def obligations(self):
        """-> list of (name, ok, text), list of undecided"""
        r = []; und = list(self.undec); badfn = {}
        for g, x in sorted(self.glob.items()):
            if not self.track(g) or g.startswith("llvm."): continue
            w = self.written.get(g, {}); k = self.kept.get(g, {})
            inref = [h for h, y in self.glob.items() if g in y["refs"]]
            if x["kind"] == "alias": und.append("alias @" + g); continue
            if x["tls"]:
                bad = list(k.items())
                r.append(("owned:" + g, not bad and not inref, "address of the per-thread object %s stays in its thread%s" % (g, "".join("; published by %s: %s" % y for y in bad[:2]))))
            else:
                bad = list(w.items()) + list(k.items())
                for fn, _ in bad: badfn.setdefault(fn, set()).add(g)
                r.append(("shared:" + g, not bad and not inref, "shared object %s is never written and its address never kept%s" % (g, "".join("; %s does: %s" % y for y in bad[:2]))))
        for n in sorted(self.funcs):
            b = badfn.get(n)
            r.append(("assigns:" + n, not b, "%s assigns only its arguments' memory, locals, heap blocks and per-thread objects%s" % (n, "; not so: " + ", ".join(sorted(b)) if b else "")))
        for g in sorted(self.ext):
            if g in EXT: r.append(("extern:" + g, True, "external %s is thread-safe" % g))
            elif g in UNSAFE: r.append(("extern:" + g, False, "external %s keeps hidden shared state, called by %s" % (g, ", ".join(sorted(self.ext[g])))))
            else: und.append("external function %s has no thread-safety contract here" % g)
        return r, und
