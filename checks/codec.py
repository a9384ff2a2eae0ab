"""P01 integer codec, P02 weight codec, P03 code points: bit-provenance analysis."""
from sa.prog import AnalysisBroken, where
from sa.bitai import BV, Term, Loc, Ptr, const, Outcome, explore, Split, eqv, _T
from sa.models import Codec, Underflow, args, m_good

FILET = "_IO_FILE"
def isfile(t): return FILET in t.s
def isstream(t): return "basic_istream" in t.s or "basic_ostream" in t.s

STREAM = Loc(("stream",))

def run_writer(prog, f, cube, choices, vals, models=None, cls=Codec):
    I = cls(prog, cube, choices, models)
    I.mem[STREAM.key] = Term("stream")
    vv = []
    for pr, v in zip(f.params, vals(I)):
        vv.append(v)
    I.call(f, vv + [STREAM])
    return I

def fmt_cube(cube, sym, w):
    s = "".join(str(cube.get((sym, i), "x")) for i in reversed(range(w)))
    ex = sum(cube.get((sym, i), 0) << i for i in range(w))
    return "%s (e.g. 0x%x)" % (s, ex)

def roundtrip(res, prog, w, r, sym, width, sg, tag, domain=None, must_accept=None, rett=None):
    """reader(writer(v)) == v for every `width`-bit v; returns (#partitions, #rejected)"""
    n = rej = 0
    fns = set()
    def run(cube, ch):
        I = Codec(prog, cube, ch)
        I.mem[STREAM.key] = Term("stream")
        v = I.sym(sym, width, sg)
        if domain is not None and not domain(I, v): return ("skip",)
        try:
            if w.params[0].t.ref:
                l = Loc(("val",)); I.mem[l.key] = v; a = l
            else: a = I.conv(v, w.params[0].t)
            I.call(w, [a, STREAM])
        except Outcome as o:
            fns.update(I.visited)
            return ("rejected", o, I.truth(must_accept(I, v)) if must_accept else False, len(I.out))
        I2 = I
        nout = len(I.out)
        I.stream = list(I.out)
        try:
            x = I.call(r, [STREAM])
        except Underflow as u:
            return ("bad", "the reader needs more bytes than the %d the writer produced" % nout, u.node)
        except Outcome as o:
            return ("bad", "the reader fails (%s) on what the writer produced" % o.kind, o.node)
        finally:
            fns.update(I.visited)
        if I.stream: return ("bad", "the reader leaves %d of the %d written bytes unread" % (len(I.stream), nout), None)
        if not isinstance(x, BV): raise AnalysisBroken("reader %s result not tracked: %r" % (r.qn, x))
        x = I.conv(x, _T(width, sg)) if x.w >= width else BV(width, sg, list(x.b) + [x.b[-1] if x.sg else 0] * (width - x.w))
        v = I.norm(v); x = I.norm(x)
        if x.b != v.b:
            for a, b in zip(x.b, v.b):
                if a != b and a is None: raise AnalysisBroken("result of %s not expressible in the bit domain" % r.qn)
            # distinct provenance: differs for some member of this partition
            diff = [i for i, (a, b) in enumerate(zip(x.b, v.b)) if a != b]
            return ("bad", "bits %s of the value read back differ from the value written" % diff, None)
        return ("ok", nout)
    lens = set()
    for cube, ch, rs in explore(run):
        if rs[0] == "skip": continue
        n += 1
        if rs[0] == "rejected":
            rej += 1
            if rs[2]:
                res.violation("%s|reject" % tag, "%s: value pattern %s lies in the promised range but is rejected at %s" % (tag, fmt_cube(cube, sym, width), where(rs[1].node) if rs[1].node is not None else "?"))
        elif rs[0] == "bad":
            res.violation("%s|value" % tag, "%s: for values %s %s [writer %s, reader %s]%s" % (tag, fmt_cube(cube, sym, width), rs[1], w.loc, r.loc, " at " + where(rs[2]) if rs[2] is not None else ""))
        else: lens.add(rs[1])
    res.count("partitions", n); res.count("rejecting_partitions", rej)
    res.count("composed_pairs")
    res.sample("pairs", "%s: %d partitions, encoded lengths %s, %d rejecting; functions analysed: %d" % (tag, n, sorted(lens), rej, len(fns)))
    return n, rej

def below(limit):
    def f(I, v): return I.cmp("<", v, const(limit, v.w + 1))
    return f

def pick(prog, qn, pred):
    c = [f for f in prog.fnall(qn) if pred(f)]
    if len(c) != 1: raise AnalysisBroken("anchor %s: %d candidates" % (qn, len(c)))
    return c[0]

def P01int(prog, res, tier):
    res.rules.append("for every 32-bit value v and each writer/reader pair of the byte-aligned integer code (C FILE and C++ stream variants, all four combinations): v is rejected by abnormal termination, or read(write(v)) == v with every written byte consumed; v < 2^30 is never rejected")
    res.rules.append("the fixed-width big-endian 64-bit field: read(write(v)) == v for every v")
    res.rules.append("every scalar in-memory serialiser: deserialise(serialise(v)) == v for every v of its type")
    ws = [f for f in prog.fnall("Compression::multibyte_write")]
    rs = [f for f in prog.fnall("Compression::multibyte_read")]
    if len(ws) < 2 or len(rs) < 2: raise AnalysisBroken("integer codec entry points: %d writers, %d readers" % (len(ws), len(rs)))
    nm = lambda f: "FILE" if any(isfile(p.t) for p in f.params) else "stream"
    for w in ws:
        for r in rs:
            roundtrip(res, prog, w, r, "v", 32, False, "integer code %s->%s" % (nm(w), nm(r)), must_accept=below(1 << 30))

def P01(prog, res, tier):
    P01int(prog, res, tier)
    # big-endian 64 bit
    for suffix, pred in (("FILE", isfile), ("stream", isstream)):
        w = [f for f in prog.fnall("write_be") if pred(f.params[0].t)]
        r = [f for f in prog.fnall("read_be") if pred(f.params[0].t) and len(f.params) == 1]
        if suffix == "FILE" and (not w or not r): raise AnalysisBroken("64-bit field anchors vanished")
        for a in w[:1]:
            for b in r[:1]: rt64(res, prog, a, b, "64-bit field " + suffix)
    # scalar serialisers
    n = 0
    for key, f in sorted(prog.fns.items()):
        if f.n == "serialise" and f.cls and f.cls.startswith("(anonymous namespace)::Serialiser<") and f.params[0].t.isint:
            ty = f.cls[len("(anonymous namespace)::Serialiser<"):-1]
            g = prog.byqn.get("Deserialiser<%s>::deserialise" % ty)
            if not g: continue
            t = f.params[0].t
            roundtrip(res, prog, f, g[0], "v", t.w, bool(t.sg), "serialised " + ty, must_accept=lambda I, v: const(1, 8))
            n += 1
    if n < 5: raise AnalysisBroken("only %d scalar serialiser pairs found" % n)
    d = [f for f in prog.fns.values() if f.n == "serialise" and f.cls == "(anonymous namespace)::Serialiser<double>"]
    g = prog.byqn.get("Deserialiser<double>::deserialise")
    if not d or not g: raise AnalysisBroken("double serialiser vanished")
    rtdouble(res, prog, d[0], g[0])

def rt64(res, prog, w, r, tag):
    def run(cube, ch):
        I = Codec(prog, cube, ch); I.mem[STREAM.key] = Term("stream")
        v = I.sym("v", 64)
        l = Loc(("val",)); I.mem[l.key] = v
        order = [STREAM, l] if not w.params[0].t.isint else [l, STREAM]
        try: I.call(w, [a if p.t.ref else (I.read(a) if a is l else a) for a, p in zip(order, w.params)])
        except Outcome as o: return ("bad", "rejected", o.node)
        I.stream = list(I.out); n = len(I.out)
        try: x = I.call(r, [STREAM])
        except (Underflow, Outcome) as o: return ("bad", "reader fails", o.node)
        if I.stream: return ("bad", "%d bytes left unread" % len(I.stream), None)
        x = I.norm(x); v = I.norm(v)
        return ("ok", n) if x.b == v.b else ("bad", "value read back differs", None)
    for cube, ch, rs in explore(run):
        res.count("partitions")
        if rs[0] == "bad": res.violation(tag + "|value", "%s: %s for %s [%s / %s]" % (tag, rs[1], fmt_cube(cube, "v", 64), w.loc, r.loc))
    res.count("composed_pairs"); res.sample("pairs", tag)

class UnionCodec(Codec):
    """union members share storage (double <-> 64-bit pattern)"""
    def e_MemberExpr(self, e):
        l = super().e_MemberExpr(e)
        if isinstance(l, Loc) and "union" in (e.a.get("m") or ""): return Loc((l.key[0], "<union>"))
        return l

def rtdouble(res, prog, w, r):
    def run(cube, ch):
        I = UnionCodec(prog, cube, ch); I.mem[STREAM.key] = Term("stream")
        v = I.sym("v", 64); l = Loc(("val",)); I.mem[l.key] = v
        try: I.call(w, [l, STREAM])
        except Outcome as o: return ("bad", "rejected")
        I.stream = list(I.out)
        try: x = I.call(r, [STREAM])
        except (Underflow, Outcome) as o: return ("bad", "reader fails")
        if I.stream: return ("bad", "bytes left unread")
        if not isinstance(x, BV): raise AnalysisBroken("double deserialiser not tracked")
        return ("ok",) if I.norm(x).b == I.norm(v).b else ("bad", "bit pattern read back differs")
    for cube, ch, rs in explore(run):
        res.count("partitions")
        if rs[0] == "bad": res.violation("serialised double|value", "serialised double: %s for bit pattern %s [%s / %s]" % (rs[1], fmt_cube(cube, "v", 64), w.loc, r.loc))
    res.count("composed_pairs"); res.sample("pairs", "serialised double")

# ------------------------------------------------------------------ weights
class WeightCodec(Codec):
    scale = None
    def float_to_int(self, v, e):
        m = fnorm(v)
        if m is None or m[0] != "frexp": return Term("toint", v)
        k = m[2]
        self.scalek = k
        w = e.t.w
        return self.msym(k, w)
    def msym(self, k, w):
        return BV(w, True, self.sym("M", 32, True).b if w == 32 else [None] * w)

def fnorm(v):
    """normalise a float term to (mantissa, [exponent terms], k): mantissa * 2^(sum+k)"""
    import math
    if not isinstance(v, Term): return None
    if v.op == "frexp": return ("frexp", [], 0)
    if v.op == "tofloat" and isinstance(v.args[0], BV): return (v.args[0], [], 0)
    if v.op == "ldexp":
        m = fnorm(v.args[0])
        if m is None: return None
        return (m[0], m[1] + [v.args[1]], m[2])
    def pw(t):
        if isinstance(t, Term) and t.op == "const" and isinstance(t.args[0], float) and t.args[0] > 0 and math.frexp(t.args[0])[0] == 0.5: return math.frexp(t.args[0])[1] - 1
        if isinstance(t, Term) and t.op == "tofloat" and isinstance(t.args[0], BV) and all(isinstance(b, int) for b in t.args[0].b):
            n = sum(b << i for i, b in enumerate(t.args[0].b))
            if n and n & (n - 1) == 0: return n.bit_length() - 1
        return None
    if v.op == "*":
        for a, b in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
            k = pw(b); m = fnorm(a)
            if k is not None and m is not None: return (m[0], m[1], m[2] + k)
    if v.op == "/":
        k = pw(v.args[1]); m = fnorm(v.args[0])
        if k is not None and m is not None: return (m[0], m[1], m[2] - k)
    return None

def m_frexp(I, e):
    a = args(e); I.eval(a[0]); p = I.rval(a[1])
    if not isinstance(p, Ptr): raise AnalysisBroken("frexp exponent not tracked")
    I.write(p.loc, I.sym("E", 32, True))
    return Term("frexp")
def m_ldexp(I, e):
    a = args(e); x = I.rval(a[0]); n = I.rval(a[1])
    return Term("ldexp", x, n)
def m_isinf(I, e):
    if "isinf" not in I.memo: I.memo["isinf"] = I.truth(I.choose("isinf"))
    return const(1 if I.memo["isinf"] else 0, 8)
def m_signbit(I, e):
    return I.cmp("<", Term("value"), Term("const", 0.0))
WM = {"frexp": m_frexp, "ldexp": m_ldexp, "isinf": m_isinf, "signbit": m_signbit, "isnan": m_good(0), "scalbn": m_ldexp,
      "isfinite": lambda I, e: const(0 if I.truth(m_isinf(I, e)) else 1, 8)}
class Mixed(Exception): pass
def m_mbw(I, e):
    v = I.conv(I.rval(args(e)[0]), _T(32, False))
    # the integer code accepts exactly the values below 2^30 (property P01)
    if not I.truth(I.cmp("<", v, const(1 << 30, 33))): raise Outcome("exit", e)
    I.out.append(("int", v)); return None
def m_mbr(I, e):
    if not I.stream: raise Underflow(e)
    t = I.stream.pop(0)
    if not isinstance(t, tuple): raise Mixed()
    return I.norm(t[1])
WMOD = {"Compression::multibyte_write": m_mbw, "Compression::multibyte_read": m_mbr}
MDOM = [dict([(("M", i), 0) for i in range(32)]),
        {("M", 31): 0, ("M", 30): 0, ("M", 29): 1},
        {("M", 31): 1, ("M", 30): 1, ("M", 29): 0},
        dict([(("M", i), 1 if i in (31, 30, 29) else 0) for i in range(32)])]

class W2(WeightCodec):
    def eval(self, e):
        if e.t is not None and e.t.fl and "fv" in e.a and not e.a.get("lv") and e.k not in ("FloatingLiteral",):
            return Term("const", float(e.a["fv"]))
        return super().eval(e)
    def cmp(self, op, a, b):
        # sign of the weight: one consistent non-deterministic fact
        def isv(t): return isinstance(t, Term) and t.op == "value"
        def isz(t): return isinstance(t, Term) and (t.op == "const" and t.args[0] == 0.0 or t.op == "tofloat" and isinstance(t.args[0], BV) and not any(t.args[0].b))
        def isinfc(t): return isinstance(t, Term) and t.op == "const" and t.args[0] in (float("inf"), float("-inf"))
        if isv(a) and isz(b) and op in ("<", ">", "<=", ">=") or isv(b) and isz(a) and op in ("<", ">", "<=", ">="):
            if isz(a): op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            if "neg" not in self.memo: self.memo["neg"] = self.truth(self.choose("neg"))
            neg = self.memo["neg"]
            return const(1 if (neg if op in ("<", "<=") else not neg) else 0, 8)
        if isv(a) and isinfc(b) and op in ("==", "!="):
            inf = self.truth(m_isinf(self, None)); 
            if inf and "neg" not in self.memo: self.memo["neg"] = self.truth(self.choose("neg"))
            hit = inf and (self.memo["neg"] == (b.args[0] < 0))
            return const(1 if hit == (op == "==") else 0, 8)
        return super().cmp(op, a, b)

def P02(prog, res, tier):
    res.rules.append("weights: for every (mantissa, exponent) pair frexp can yield and for both infinities, each reader applied to each writer's bytes returns mantissa*2^(exponent) with the writer's scaling, the same infinity, and consumes every byte")
    ws = prog.fnall("Compression::long_multibyte_write"); rs = prog.fnall("Compression::long_multibyte_read")
    if len(ws) < 2 or len(rs) < 2: raise AnalysisBroken("weight codec entry points vanished")
    nm = lambda f: "FILE" if any(isfile(p.t) for p in f.params) else "stream"
    for w in ws:
        for r in rs:
            tag = "weight code %s->%s" % (nm(w), nm(r))
            stats = {"n": 0, "inf": 0}
            def run(cube, ch):
                try: return run1(cube, ch, {**WM, **WMOD})
                except (Mixed, AttributeError, TypeError): return run1(cube, ch, WM)
            def run1(cube, ch, models):
                I = W2(prog, cube, ch, models); I.mem[STREAM.key] = Term("stream")
                l = Loc(("val",)); I.mem[l.key] = Term("value")
                try: I.call(w, [l, STREAM])
                except Outcome as o: return ("bad", "the weight is rejected at %s" % (where(o.node) if o.node is not None else o.kind))
                k = getattr(I, "scalek", None)
                inf = I.memo.get("isinf", False)
                I.stream = list(I.out); nb = len(I.out)
                keep = {x: I.memo[x] for x in ("isinf", "neg") if x in I.memo}
                try: x = I.call(r, [STREAM])
                except Underflow as o: return ("bad", "the reader needs more than the %d bytes written" % nb)
                except Outcome as o: return ("bad", "the reader fails")
                if I.stream: return ("bad", "%d of %d bytes left unread" % (len(I.stream), nb))
                if inf:
                    if "neg" not in keep: return ("bad", "the sign of an infinite weight is not examined when writing")
                    want = float("-inf") if keep["neg"] else float("inf")
                    if not (isinstance(x, Term) and x.op == "const" and x.args[0] == want): return ("bad", "%s read back as %r" % (want, x))
                    return ("inf",)
                if k is None: raise AnalysisBroken("%s: mantissa extraction not recognised" % w.qn)
                if k > 30: return ("bad", "scaled mantissa does not fit 32 bits")
                if k < 30: return ("bad", "the weight keeps only %d mantissa bits" % k)
                m = fnorm(x)
                if isinstance(x, Term) and x.op == "const": return ("bad", "finite weight read back as %r" % (x,))
                if m is None or not isinstance(m[0], BV): raise AnalysisBroken("%s: result term %r not recognised" % (r.qn, x))
                M = I.norm(I.sym("M", 32, True)); E = I.norm(I.sym("E", 32, True))
                mb = I.norm(m[0])
                if mb.b[:32] != M.b or not mb.sg: return ("bad", "the mantissa read back differs from the one written")
                if len(m[1]) != 1 or not isinstance(m[1][0], BV) or I.norm(m[1][0]).b[:32] != E.b: return ("bad", "the exponent read back differs from the one written")
                if m[2] != -k: return ("bad", "the mantissa is scaled by 2^%d when written and 2^%d when read" % (k, m[2]))
                return ("ok",)
            for cube, ch, rs_ in explore(run, start=MDOM):
                stats["n"] += 1
                res.count("partitions")
                if rs_[0] == "inf": stats["inf"] += 1
                if rs_[0] == "bad":
                    res.violation(tag, "%s: %s (mantissa %s, exponent %s) [%s / %s]" % (tag, rs_[1], fmt_cube(cube, "M", 32), fmt_cube(cube, "E", 32), w.loc, r.loc))
            if not stats["inf"]: raise AnalysisBroken("%s: no infinite-weight path analysed" % tag)
            res.count("composed_pairs"); res.sample("pairs", "%s: %d partitions, %d for infinities" % (tag, stats["n"], stats["inf"]))
