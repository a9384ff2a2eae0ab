"""Bit-provenance abstract interpreter.

Abstract integers are vectors whose bits are 0, 1, (symbol, index) -- "exactly bit
`index` of that input" -- or None (unknown).  The interpretation is trace-partitioned on
input bits: whenever a branch or an operation needs a bit that the abstract value leaves
open, the partition is refined on that input bit and both halves are analysed.  No solver,
no concrete inputs: every partition stands for all inputs that agree with its fixed bits.
Conditions that do not depend on tracked bits are non-deterministic (both outcomes)."""
from .prog import AnalysisBroken, CALLS

class Split(Exception):
    def __init__(self, sym, i): self.sym = sym; self.i = i
class Choice(Exception):
    def __init__(self, tag): self.tag = tag
class Outcome(Exception):
    """the analysed program ended abnormally: exit / throw"""
    def __init__(self, kind, node, fn=None): self.kind = kind; self.node = node
class _Break(Exception): pass
class _Cont(Exception): pass
class _Ret(Exception):
    def __init__(self, v): self.v = v

class BV:
    __slots__ = ("w", "sg", "b")
    def __init__(self, w, sg, bits): self.w = w; self.sg = sg; self.b = tuple(bits)
    def __repr__(self):
        return "BV%d%s[%s]" % (self.w, "s" if self.sg else "u", " ".join("?" if x is None else str(x) if isinstance(x, int) else "%s.%d" % x for x in reversed(self.b)))
class Term:
    __slots__ = ("op", "args")
    def __init__(self, op, *args): self.op = op; self.args = args
    def __eq__(self, o): return isinstance(o, Term) and self.op == o.op and len(self.args) == len(o.args) and all(eqv(a, b) for a, b in zip(self.args, o.args))
    def __hash__(self): return hash(self.op)
    def __repr__(self): return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))
class Loc:
    """lvalue: a key into memory"""
    __slots__ = ("key",)
    def __init__(self, key): self.key = key
    def __repr__(self): return "&%r" % (self.key,)
class Ptr:
    """pointer to loc (+ element offset)"""
    __slots__ = ("loc", "off")
    def __init__(self, loc, off=0): self.loc = loc; self.off = off
    def __repr__(self): return "Ptr(%r+%r)" % (self.loc, self.off)

def eqv(a, b):
    if isinstance(a, BV) and isinstance(b, BV): return a.b == b.b
    return a == b

def const(v, w, sg=False):
    v &= (1 << w) - 1
    return BV(w, sg, [(v >> i) & 1 for i in range(w)])

class Interp:
    MAXSTEPS = 200000
    def __init__(self, prog, cube, choices, models=None, depth=40):
        self.p = prog; self.cube = cube; self.choices = choices; self.ci = 0
        self.mem = {}; self.frames = []; self.nf = 0; self.steps = 0
        self.models = models or {}; self.log = []; self.depth = depth
        self.trace = []; self.visited = set()

    # ---- bits
    def sym(self, name, w, sg=False):
        return BV(w, sg, [self.cube.get((name, i), (name, i)) for i in range(w)])
    def norm(self, v):
        return BV(v.w, v.sg, [self.cube.get(x, x) if isinstance(x, tuple) else x for x in v.b])
    def known(self, v):
        return all(isinstance(x, int) for x in v.b)
    def cval(self, v, force=True):
        """concrete integer value, refining the partition if needed"""
        if not isinstance(v, BV): raise AnalysisBroken("integer expected, got %r" % (v,))
        for x in reversed(v.b):
            if not isinstance(x, int):
                if x is None: raise AnalysisBroken("value depends on bits the domain cannot track")
                raise Split(*x)
        n = sum(x << i for i, x in enumerate(v.b))
        if v.sg and v.b[-1]: n -= 1 << v.w
        return n
    def rng(self, v):
        lo = hi = 0
        for i, x in enumerate(v.b):
            m = 1 << i
            neg = v.sg and i == v.w - 1
            if x == 1 and not isinstance(x, tuple): 
                lo += -m if neg else m; hi += -m if neg else m
            elif x == 0 and not isinstance(x, tuple): pass
            elif neg: lo -= m
            else: hi += m
        return lo, hi
    def conv(self, v, t):
        """integer conversion to type t"""
        if not isinstance(v, BV): return v
        if t.bool: return self.tobool(v)
        w = t.w
        b = list(v.b[:w])
        if len(b) < w:
            b += [(v.b[-1] if v.sg else 0)] * (w - len(b))
        return BV(w, bool(t.sg), b)
    def tobool(self, v):
        if isinstance(v, BV):
            if any(x == 1 and isinstance(x, int) for x in v.b): return const(1, 8)
            unk = [x for x in v.b if not isinstance(x, int)]
            if not unk: return const(0, 8)
            if len(set(unk)) == 1 and unk[0] is not None:
                return BV(8, False, [unk[0]] + [0] * 7)
            for x in reversed(v.b):
                if not isinstance(x, int):
                    if x is None: return self.choose("topbool")
                    raise Split(*x)
        return self.choose("bool")
    def choose(self, tag):
        if self.ci < len(self.choices):
            c = self.choices[self.ci]; self.ci += 1
            return const(1 if c else 0, 8)
        raise Choice(tag)
    def truth(self, v, node=None):
        if isinstance(v, BV):
            v = self.tobool(v)
            x = v.b[0]
            if isinstance(x, int): return bool(x)
            if x is None: return bool(self.choose("cond").b[0])
            raise Split(*x)
        if isinstance(v, Ptr): return True
        return bool(self.choose(("cond", node.id if node is not None else 0)).b[0])
    def cmp(self, op, a, b):
        if not (isinstance(a, BV) and isinstance(b, BV)):
            if op in ("==", "!=") and isinstance(a, Term) and isinstance(b, Term) and a == b and a.op == "const":
                return const(1 if op == "==" else 0, 8)
            return self.choose(("cmp", op))
        al, ah = self.rng(a); bl, bh = self.rng(b)
        r = None
        if op in ("<", ">", "<=", ">="):
            if op in (">", ">="): al, ah, bl, bh = bl, bh, al, ah; 
            strict = op in ("<", ">")
            if (ah < bl) if strict else (ah <= bl): r = 1
            elif (al >= bh) if strict else (al > bh): r = 0
        else:
            if a.b == b.b and None not in a.b: r = 1
            elif ah < bl or bh < al: r = 0
            else:
                for i in range(max(a.w, b.w)):
                    x = a.b[min(i, a.w - 1)] if (i < a.w or a.sg) else 0
                    y = b.b[min(i, b.w - 1)] if (i < b.w or b.sg) else 0
                    if isinstance(x, int) and isinstance(y, int) and x != y: r = 0
                if r is None and self.known(a) and self.known(b): r = 1
            if r is not None and op == "!=": r = 1 - r
        if r is not None: return const(r, 8)
        for v, o in ((a, b), (b, a)):
            for x in reversed(v.b):
                if isinstance(x, tuple): raise Split(*x)
        return self.choose(("cmp", op))
    def binop(self, op, a, b, t):
        if op == ",": return b
        if op in ("<", ">", "<=", ">=", "==", "!="): return self.cmp(op, a, b)
        if not (isinstance(a, BV) and isinstance(b, BV)) or not t.isint:
            return Term(op, a, b)
        w, sg = t.w, bool(t.sg)
        if op in ("<<", ">>"):
            n = self.cval(b)
            a = self.conv(a, t)
            if n < 0 or n >= w: return BV(w, sg, [None] * w)
            if op == "<<": return BV(w, sg, ([0] * n + list(a.b))[:w])
            fill = a.b[-1] if a.sg else 0
            return BV(w, sg, list(a.b[n:]) + [fill] * n)
        a = self.conv(a, t); b = self.conv(b, t)
        if op in ("&", "|", "^"):
            out = []
            for x, y in zip(a.b, b.b):
                if op == "&":
                    z = 0 if (x == 0 and isinstance(x, int)) or (y == 0 and isinstance(y, int)) else y if x == 1 and isinstance(x, int) else x if y == 1 and isinstance(y, int) else x if x == y and x is not None else None
                elif op == "|":
                    z = 1 if (x == 1 and isinstance(x, int)) or (y == 1 and isinstance(y, int)) else y if x == 0 and isinstance(x, int) else x if y == 0 and isinstance(y, int) else x if x == y and x is not None else None
                else:
                    z = y if x == 0 and isinstance(x, int) else x if y == 0 and isinstance(y, int) else (x ^ y) if isinstance(x, int) and isinstance(y, int) else 0 if x == y and x is not None else None
                out.append(z)
            return BV(w, sg, out)
        if op == "+" and all((isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0) for x, y in zip(a.b, b.b)):
            return self.binop("|", a, b, t)
        if op in ("+", "-"):
            return self.addsub(op, a, b, w, sg)
        if op == "*":
            for u, v in ((a, b), (b, a)):
                if self.known(v):
                    n = self.cval(BV(v.w, False, v.b))
                    if n == 0: return const(0, w, sg)
                    if n & (n - 1) == 0:
                        k = n.bit_length() - 1
                        return BV(w, sg, ([0] * k + list(u.b))[:w])
        if op in ("/", "%") and self.known(b) and not (a.sg and self.rng(a)[0] < 0):
            n = self.cval(b)
            if n > 0 and n & (n - 1) == 0:
                k = n.bit_length() - 1
                return BV(w, sg, list(a.b[k:]) + [0] * k) if op == "/" else BV(w, sg, list(a.b[:k]) + [0] * (w - k))
        x, y = self.cval(a), self.cval(b)
        if op in ("/", "%"):
            if y == 0: raise Outcome("divzero", None)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return const(q if op == "/" else x - q * y, w, sg)
        if op == "*": return const(x * y, w, sg)
        raise AnalysisBroken("operator " + op)
    def addsub(self, op, a, b, w, sg):
        """ripple add/sub; an open carry refines the partition on the bit that opens it"""
        out = []; c = 0
        for x, y in zip(a.b, b.b):
            ix, iy = isinstance(x, int), isinstance(y, int)
            if op == "-" and not ix and not iy and x == y and x is not None:
                out.append(c if c == 0 else 1)
                continue
            if ix and iy:
                s = x + y + c if op == "+" else x - y - c
                out.append(s & 1); c = (1 if s > 1 else 0) if op == "+" else (1 if s < 0 else 0)
                continue
            u, kv = (x, y) if not ix else (y, x)
            if op == "+" and isinstance(kv, int) and kv + c == 0: out.append(u); c = 0; continue
            if op == "+" and isinstance(kv, int) and kv + c == 2: out.append(u); c = 1; continue
            if op == "-" and iy and y == c and not ix: out.append(x); continue   # 0-0 / 1-1 borrow keeps
            for z in (x, y):
                if isinstance(z, tuple): raise Split(*z)
            out.append(None); c = 0
            return BV(w, sg, out + [None] * (w - len(out)))
        return BV(w, sg, out)

    # ---- memory
    def read(self, loc):
        if not isinstance(loc, Loc): return loc
        if loc.key in self.mem:
            v = self.mem[loc.key]
            if isinstance(v, Loc) : return self.read(v)
            return self.norm(v) if isinstance(v, BV) else v
        return self.undefined(loc)
    def undefined(self, loc):
        return Term("undef", str(loc.key))
    def write(self, loc, v):
        self.trace.append(("w", loc.key))
        self.mem[loc.key] = v

    # ---- program
    def call(self, f, args, this=None):
        if len(self.frames) > self.depth: raise AnalysisBroken("call depth in " + f.qn)
        self.visited.add(f.key)
        self.nf += 1
        fr = {"id": self.nf, "this": this, "fn": f, "vars": {}}
        self.frames.append(fr)
        try:
            for i, pr in enumerate(f.params):
                a = args[i] if i < len(args) else (self.eval(pr.init) if pr.init is not None else Term("undef", pr.n))
                self.bind(pr, a)
            for ini in f.inits:
                if ini.get("m") and ini.get("e") is not None and this is not None:
                    self.mem[(this.key, ini["m"])] = self.rval(ini["e"])
            try:
                self.stmt(f.body)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.frames.pop()
    def bind(self, var, a):
        fr = self.frames[-1]
        if var.t.ref:
            if not isinstance(a, Loc):
                l = Loc(("tmp", self.nf, var.n, len(self.mem))); self.mem[l.key] = a; a = l
            fr["vars"][var.d] = a
        else:
            l = Loc((fr["id"], var.n, var.d))
            v = self.read(a) if isinstance(a, Loc) and var.t.ptr is None and not self.isobj(var.t) else a
            if isinstance(v, BV) and var.t.isint: v = self.conv(v, var.t)
            if isinstance(a, Loc) and self.isobj(var.t): v = self.copyobj(a, l)
            if v is not None: self.mem[l.key] = v
            fr["vars"][var.d] = l
    def isobj(self, t): return t.rec is not None
    def copyobj(self, src, dst):
        v = self.mem.get(src.key)
        return list(v) if isinstance(v, list) else v
    def stmt(self, s):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise AnalysisBroken("abstract interpretation does not terminate")
        if s is None: return
        m = getattr(self, "s_" + s.k, None)
        if m: return m(s)
        self.eval(s)
    def s_CompoundStmt(self, s):
        for c in s.c: self.stmt(c)
    def s_NullStmt(self, s): pass
    def s_AttributedStmt(self, s): self.stmt(s.c[-1])
    def s_LabelStmt(self, s): self.stmt(s.c[-1])
    def s_DeclStmt(self, s):
        fr = self.frames[-1]
        for v in s.a["vars"]:
            if v.t.ref and v.init is not None:
                x = self.eval(v.init)
                if not isinstance(x, Loc):
                    l = Loc(("tmp", self.nf, v.n, len(self.mem))); self.mem[l.key] = x; x = l
                fr["vars"][v.d] = x
                continue
            l = Loc((fr["id"], v.n, v.d)); fr["vars"][v.d] = l
            self.mem.pop(l.key, None)
            if v.init is not None: self.initvar(l, v.t, v.init)
    def initvar(self, l, t, init):
        if t.alen is not None and init.k == "InitListExpr":
            for i in range(t.alen):
                self.mem[(l.key, i)] = self.rval(init.c[i]) if i < len(init.c) and init.c[i].k != "ImplicitValueInitExpr" else const(0, 32, True)
            return
        if t.alen is not None: return
        x = self.eval(init)
        if isinstance(x, Loc) and not self.isobj(t) : x = self.read(x)
        elif isinstance(x, Loc): x = self.copyobj(x, l)
        if isinstance(x, BV) and t.isint: x = self.conv(x, t)
        if x is not None: self.mem[l.key] = x
    def s_IfStmt(self, s):
        if s.init is not None: self.stmt(s.init)
        if s.a.get("cvar") is not None: self.stmt(s.a["cvar"])
        if s.a.get("cx"):
            pass
        if self.truth(self.rval(s.cond), s.cond): self.stmt(s.a["then"])
        elif s.a.get("else") is not None: self.stmt(s.a["else"])
    def s_WhileStmt(self, s):
        while self.truth(self.rval(s.cond), s.cond):
            try: self.stmt(s.body)
            except _Break: break
            except _Cont: pass
    def s_DoStmt(self, s):
        while True:
            try: self.stmt(s.body)
            except _Break: break
            except _Cont: pass
            if not self.truth(self.rval(s.cond), s.cond): break
    def s_ForStmt(self, s):
        if s.init is not None: self.stmt(s.init)
        while s.cond is None or self.truth(self.rval(s.cond), s.cond):
            try: self.stmt(s.body)
            except _Break: break
            except _Cont: pass
            if s.inc is not None: self.eval(s.inc)
    def s_SwitchStmt(self, s):
        if s.init is not None: self.stmt(s.init)
        v = self.rval(s.cond)
        items = []; 
        def flat(n):
            if n.k in ("CaseStmt", "DefaultStmt"):
                items.append(n)
                if n.c: flat(n.c[-1])
            else: items.append(n)
        for c in s.body.c: flat(c)
        start = None; dflt = None
        for i, n in enumerate(items):
            if n.k == "DefaultStmt": dflt = i
            elif n.k == "CaseStmt" and start is None:
                lo = self.rval(n.c[0])
                if len(n.c) > 2:
                    hi = self.rval(n.c[1])
                    if self.truth(self.cmp(">=", v, lo)) and self.truth(self.cmp("<=", v, hi)): start = i
                elif self.truth(self.cmp("==", v, self.conv(lo, s.cond.t) if s.cond.t.isint else lo)): start = i
        if start is None: start = dflt
        if start is None: return
        try:
            for n in items[start:]:
                if n.k not in ("CaseStmt", "DefaultStmt"): self.stmt(n)
        except _Break: pass
    def s_BreakStmt(self, s): raise _Break()
    def s_ContinueStmt(self, s): raise _Cont()
    def s_ReturnStmt(self, s):
        if not s.c: raise _Ret(None)
        f = self.frames[-1]["fn"]
        v = self.eval(s.c[0])
        if not f.ret.ref and isinstance(v, Loc) and not self.isobj(f.ret): v = self.read(v)
        if isinstance(v, BV) and f.ret.isint: v = self.conv(v, f.ret)
        raise _Ret(v)
    def s_CXXTryStmt(self, s):
        self.stmt(s.c[0])
    def s_CXXForRangeStmt(self, s):
        raise AnalysisBroken("range-for in bit interpreter")

    # ---- expressions
    def rval(self, e):
        v = self.eval(e)
        if isinstance(v, Loc): v = self.read(v)
        return v
    def eval(self, e):
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise AnalysisBroken("abstract interpretation does not terminate")
        if e.k in self.models.get("kinds", {}): return self.models["kinds"][e.k](self, e)
        if not e.a.get("lv") and "cv" in e.a and e.t.isint and e.k not in ("DeclRefExpr",):
            return const(int(e.a["cv"]), e.t.w, bool(e.t.sg))
        m = getattr(self, "e_" + e.k, None)
        if m is None:
            if e.k in CALLS: return self.e_call(e)
            if len(e.c) == 1: return self.eval(e.c[0])
            raise AnalysisBroken("expression kind %s at %s:%s" % (e.k, e.fn.file if e.fn else "?", e.line))
        return m(e)
    def e_IntegerLiteral(self, e): return const(int(e.v), e.t.w, bool(e.t.sg))
    e_CharacterLiteral = e_IntegerLiteral
    e_CXXBoolLiteralExpr = e_IntegerLiteral
    def e_FloatingLiteral(self, e): return Term("const", float(e.fv))
    def e_StringLiteral(self, e): return Term("str", e.v)
    def e_CXXNullPtrLiteralExpr(self, e): return Term("const", "null")
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_CXXThisExpr(self, e): return Ptr(self.frames[-1]["this"])
    def e_DeclRefExpr(self, e):
        if "cv" in e.a and not e.a.get("lv"): return const(int(e.a["cv"]), e.t.w, bool(e.t.sg))
        for fr in reversed(self.frames):
            if e.a["d"] in fr["vars"]: return fr["vars"][e.a["d"]]
            break
        for fr in reversed(self.frames):
            if e.a["d"] in fr["vars"]: return fr["vars"][e.a["d"]]
        if "cv" in e.a: return const(int(e.a["cv"]), e.t.w, bool(e.t.sg))
        if e.a.get("fn"): return Term("fn", e.a["fn"])
        return Loc(("g", e.a.get("g") or e.a.get("n")))
    def e_MemberExpr(self, e):
        b = self.eval(e.c[0]) if e.c else None
        if isinstance(b, Loc) and e.a.get("ar"): b = self.read(b)
        if isinstance(b, Ptr): b = b.loc
        if isinstance(b, Loc): return Loc((b.key, e.n))
        return Loc(("m", repr(b), e.n))
    def e_ParenExpr(self, e): return self.eval(e.c[0])
    e_ExprWithCleanups = e_ConstantExpr = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = e_ParenExpr
    e_CXXDefaultArgExpr = e_ParenExpr
    e_CXXDefaultInitExpr = e_ParenExpr
    def e_cast(self, e):
        ck = e.ck
        v = self.eval(e.c[0])
        if ck == "LValueToRValue": return self.read(v)
        if ck == "ArrayToPointerDecay": return Ptr(v) if isinstance(v, Loc) else v
        if ck in ("NoOp", "BitCast", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "LValueBitCast"): return v
        if isinstance(v, Loc): v = self.read(v)
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            if isinstance(v, BV): return self.conv(v, e.t)
            return v
        if ck == "PointerToBoolean": return const(1, 8) if isinstance(v, Ptr) else self.choose("ptr")
        if ck in ("IntegralToFloating", "FloatingCast"): return Term("tofloat", v) if ck == "IntegralToFloating" else v
        if ck == "FloatingToIntegral":
            if isinstance(v, Term) and v.op == "tofloat" and isinstance(v.args[0], BV): return self.conv(v.args[0], e.t)
            return self.float_to_int(v, e)
        if ck == "NullToPointer": return Term("const", "null")
        if ck == "ToVoid": return None
        if ck == "FloatingToBoolean": return self.choose("float")
        return Term("cast:" + ck, v)
    def float_to_int(self, v, e): return Term("toint", v)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_cast
    def e_UnaryOperator(self, e):
        op = e.op
        v = self.eval(e.c[0])
        if op == "&": return Ptr(v) if isinstance(v, Loc) else Term("&", v)
        if op == "*":
            if isinstance(v, Loc): v = self.read(v)
            return self.deref(v)
        if op in ("++", "--"):
            old = self.read(v)
            if isinstance(old, Ptr):
                new = Ptr(old.loc, old.off + (1 if op == "++" else -1))
            elif isinstance(old, BV):
                t = e.c[0].t
                new = self.conv(self.binop("+" if op == "++" else "-", old, const(1, old.w), _T(old.w, old.sg)), t)
            else: new = Term(op, old)
            self.write(v, new)
            return old if e.a.get("post") else v
        if isinstance(v, Loc): v = self.read(v)
        if op == "!":
            return const(0 if self.truth(v, e) else 1, 8)
        if isinstance(v, BV):
            if op == "+": return self.conv(v, e.t)
            if op == "~": return BV(v.w, v.sg, [(1 - x) if isinstance(x, int) else None for x in v.b]) if self.known(v) else self._not(v)
            if op == "-": return self.binop("-", const(0, v.w, v.sg), v, _T(v.w, v.sg))
        return Term(op, v)
    def _not(self, v):
        for x in v.b:
            if isinstance(x, tuple): raise Split(*x)
        return BV(v.w, v.sg, [None] * v.w)
    def deref(self, v):
        if isinstance(v, Ptr):
            if v.off == 0 and (v.loc.key, 0) not in self.mem: return v.loc
            return Loc((v.loc.key, v.off))
        return Loc(("deref", repr(v)))
    def e_ArraySubscriptExpr(self, e):
        b = self.rvalp(e.c[0]); i = self.rval(e.c[1])
        if isinstance(b, BV): b, i = i, b
        n = self.cval(i)
        if isinstance(b, Ptr): return Loc((b.loc.key, b.off + n))
        return Loc(("idx", repr(b), n))
    def rvalp(self, e):
        v = self.eval(e)
        if isinstance(v, Loc): v = self.read(v)
        return v
    def e_BinaryOperator(self, e):
        op = e.op
        if op == "=":
            r = self.rval(e.c[1]); l = self.eval(e.c[0])
            if isinstance(r, BV) and e.c[0].t.isint: r = self.conv(r, e.c[0].t)
            self.write(l, r)
            return l
        if op == "&&":
            if not self.truth(self.rval(e.c[0]), e.c[0]): return const(0, 8)
            return const(1 if self.truth(self.rval(e.c[1]), e.c[1]) else 0, 8)
        if op == "||":
            if self.truth(self.rval(e.c[0]), e.c[0]): return const(1, 8)
            return const(1 if self.truth(self.rval(e.c[1]), e.c[1]) else 0, 8)
        if op == ",":
            self.eval(e.c[0]); return self.eval(e.c[1])
        a = self.rval(e.c[0]); b = self.rval(e.c[1])
        if isinstance(a, Ptr) and isinstance(b, BV) and op in ("+", "-"):
            n = self.cval(b); return Ptr(a.loc, a.off + (n if op == "+" else -n))
        return self.binop(op, a, b, e.t)
    def e_CompoundAssignOperator(self, e):
        op = e.op[:-1]
        r = self.rval(e.c[1]); l = self.eval(e.c[0]); old = self.read(l)
        if isinstance(old, Ptr) and isinstance(r, BV):
            n = self.cval(r); self.write(l, Ptr(old.loc, old.off + (n if op == "+" else -n))); return l
        if isinstance(old, BV) and e.a["clt"].isint: old = self.conv(old, e.a["clt"])
        v = self.binop(op, old, r, e.a["ct"])
        if isinstance(v, BV) and e.c[0].t.isint: v = self.conv(v, e.c[0].t)
        self.write(l, v)
        return l
    def e_ConditionalOperator(self, e):
        return self.eval(e.c[1] if self.truth(self.rval(e.c[0]), e.c[0]) else e.c[2])
    def e_UnaryExprOrTypeTraitExpr(self, e): return const(int(e.cv), e.t.w)
    def e_CXXThrowExpr(self, e): raise Outcome("throw", e)
    def e_CXXScalarValueInitExpr(self, e): return const(0, e.t.w, bool(e.t.sg)) if e.t.isint else Term("const", 0.0)
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr
    def e_InitListExpr(self, e):
        if len(e.c) == 1: return self.eval(e.c[0])
        if not e.c: return self.e_CXXScalarValueInitExpr(e)
        return Term("list", *[self.rval(c) for c in e.c])
    def e_call(self, e):
        qn = e.a.get("qn"); key = e.a.get("fn")
        ml = self.models.get("calls", {})
        for n in (qn, (qn or "").rsplit("::", 1)[-1] if qn else None):
            if n in ml:
                r = ml[n](self, e)
                if r is not NotImplemented: return r
        f = self.p.fns.get(key)
        if f is not None: return self.inline(f, e)
        return self.external(e)
    def inline(self, f, e):
        this = None
        if e.k == "CXXMemberCallExpr":
            me = e.c[0]; b = self.eval(me.c[0]) if me.c else None
            if isinstance(b, Loc) and me.a.get("ar"): b = self.read(b)
            this = b.loc if isinstance(b, Ptr) else b
            args = e.c[1:]
        elif e.k == "CXXOperatorCallExpr":
            args = e.c[1:]
            if f.cls and not f.flags.get("sm"):
                this = self.eval(args[0]); args = args[1:]
                if isinstance(this, Ptr): this = this.loc
        elif e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = e.c; this = Loc(("obj", self.nf, e.id))
        else: args = e.c[1:]
        av = []
        for i, a in enumerate(args):
            v = self.eval(a)
            if i < len(f.params) and not f.params[i].t.ref and isinstance(v, Loc) and not self.isobj(f.params[i].t): v = self.read(v)
            av.append(v)
        r = self.call(f, av, this)
        return this if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else r
    def external(self, e):
        if e.a.get("nr"): raise Outcome("exit", e)
        d = self.models.get("default")
        if d: return d(self, e)
        for c in e.c: self.eval(c)
        return Term("call:" + str(e.a.get("qn")))

class _T:
    bool = False; isint = True
    def __init__(self, w, sg): self.w = w; self.sg = sg

def explore(run, limit=20000, start=None):
    """run(cube, choices) -> result; yields (cube, choices, result) for every partition"""
    todo = [(dict(c), ()) for c in (start or [{}])]
    n = 0
    while todo:
        cube, ch = todo.pop()
        n += 1
        if n > limit: raise AnalysisBroken("partition limit exceeded")
        try:
            yield cube, ch, run(cube, list(ch))
        except Split as s:
            for v in (1, 0):
                c = dict(cube); c[(s.sym, s.i)] = v; todo.append((c, ch))
        except Choice:
            todo.append((cube, ch + (False,))); todo.append((cube, ch + (True,)))
