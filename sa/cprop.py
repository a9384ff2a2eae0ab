"""Disjunctive constant propagation over the clang CFGs (dataflow, no solver, no execution).

State = (env, events): env maps access paths to abstract values, events is whatever the client
records.  Values: int, str (string constants), ("sym", ...) opaque symbols, TOP (None) unknown.
Branches on unknown conditions are followed both ways, with the tested path refined."""
from .prog import CALLS, AnalysisBroken
from .flow import Client, Flow, strip, cargs, obj, callee, const_of, strlit

TOP = None
def issym(v): return isinstance(v, tuple) and len(v) > 0 and v[0] not in ("ref",)

def isstr_t(t):
    t = t.replace("const ", "").strip()
    return t.startswith(("std::basic_string", "std::__cxx11::basic_string", "UString")) or t in ("std::string", "string")

def islambda(g):
    """the call operator of a lambda"""
    return g is not None and g.n == "operator()" and (g.cls or "").startswith("(lambda")

class CProp(Client):
    max_depth = 12
    widen = 64                     # counters beyond this are no longer tracked
    def __init__(self, prog): self.p = prog
    # ---- hooks -------------------------------------------------------
    def model(self, fl, f, n, qn, st):
        """call model: None (no model) or list of (value, state)"""
        return None
    def descend(self, f, n, g, st): return False
    def unknown(self, fl, f, n, st):
        """effect of a call that is neither modelled nor entered: list of (value, state)"""
        return [(TOP, st)]
    def read_global(self, n): return TOP
    # ---- state -------------------------------------------------------
    def mk(self, env=None, ev=()): return (frozenset((env or {}).items()), ev)
    def env(self, st):
        e = getattr(self, "_ec", None)
        if e is None: e = self._ec = {}
        d = e.get(st[0])
        if d is None:
            if len(e) > 20000: e.clear()
            d = e[st[0]] = dict(st[0])
        return d
    def set(self, st, path, v):
        d = self.env(st)
        if d.get(path, TOP) == v and type(d.get(path)) is type(v) and not any(len(k) > len(path) and k[:len(path)] == path for k in d): return st
        nd = {k: x for k, x in d.items() if k[:len(path)] != path}
        if v is not TOP: nd[path] = v
        return (frozenset(nd.items()), st[1])
    def setmany(self, st, items):
        for p, v in items: st = self.set(st, p, v)
        return st
    def drop(self, st, pred):
        d = self.env(st); nd = {k: x for k, x in d.items() if not pred(k)}
        return st if len(nd) == len(d) else (frozenset(nd.items()), st[1])
    def event(self, st, e): return (st[0], st[1] + (e,))
    # ---- paths -------------------------------------------------------
    def resolve(self, p, env):
        for _ in range(20):
            hit = None
            for i in range(len(p), 0, -1):
                v = env.get(p[:i])
                if isinstance(v, tuple) and v and v[0] == "ref": hit = (i, v[1]); break
            if hit is None: return p
            i, q = hit
            rest = p[i:]
            if rest[:1] == ("*",): rest = rest[1:]
            p = q + rest
        return p
    def path(self, n, st):
        env = self.env(st)
        p = self._path(n, st, env)
        return self.resolve(p, env) if p is not None else None
    def _path(self, n, st, env):
        n = strip(n)
        if n is None: return None
        if n.k == "CXXThisExpr": return ("this",)
        if n.k == "DeclRefExpr":
            if n.a.get("dk") == "Function" or n.a.get("ev") is not None: return None
            return (n.a["d"],) if n.a.get("d") is not None else None
        if n.k == "MemberExpr":
            if not n.c: return None
            b = self._path(n.c[0], st, env)
            return None if b is None else b + (n.a["n"],)
        if n.k == "UnaryOperator" and n.a.get("op") == "*":
            b = self._path(n.c[0], st, env)
            if b is None: return None
            b = self.resolve(b, env) if isinstance(env.get(b), tuple) and env.get(b)[0] == "ref" else b + ("*",)
            return b
        if n.k == "UnaryOperator" and n.a.get("op") == "&": return self._path(n.c[0], st, env)
        if n.k == "ArraySubscriptExpr":
            b = self._path(n.c[0], st, env); i = self.eval(n.c[1], st)
            return None if b is None or not isinstance(i, int) else b + ("[%d]" % i,)
        if n.k in CALLS:
            v = env.get(("tmp", n.fn.key if n.fn else None, n.id))
            if isinstance(v, tuple) and v and v[0] == "ref": return v[1]
            if v is not TOP: return None
            if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("->", "*"): return self._path(n.c[1], st, env)
            if n.k == "CXXConstructExpr" and (n.a.get("cc") or n.a.get("mc")) and n.c: return self._path(n.c[0], st, env)
        return None
    # ---- expressions -------------------------------------------------
    def get(self, p, st):
        env = self.env(st); return env.get(self.resolve(p, env), TOP)
    def eval(self, n, st):
        if n is None: return TOP
        if n.a.get("cv") is not None and n.k != "DeclRefExpr":
            try: return int(n.a["cv"])
            except (TypeError, ValueError): pass
        k = n.k
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"): return int(n.a["v"])
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return 0
        if k == "FloatingLiteral":
            try: return ("float", float(n.a["fv"]))
            except (TypeError, ValueError, KeyError): return TOP
        if k == "StringLiteral": return n.a["v"]
        if k == "UserDefinedLiteral":
            s = strlit(n)
            if s is not None: return s
        if k == "DeclRefExpr":
            c = n.a.get("cv") if n.a.get("cv") is not None else n.a.get("ev")
            if c is not None: return int(c)
            p = self.path(n, st)
            if p is not None:
                v = self.env(st).get(p, TOP)
                if v is not TOP: return v
            return self.read_global(n)
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            p = self.path(n, st)
            v = self.env(st).get(p, TOP) if p is not None else TOP
            return v if v is not TOP else self.read_global(n)
        if k in CALLS:
            v = self.env(st).get(("tmp", n.fn.key if n.fn else None, n.id), TOP)
            if isinstance(v, tuple) and v and v[0] == "ref":
                return self.env(st).get(self.resolve(v[1], self.env(st)), TOP)
            if v is not TOP: return v
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                a = [x for x in n.c if x.k != "CXXDefaultArgExpr"]
                t = (n.t.s if n.t else "") or ""
                if len(a) == 1: return self.eval(a[0], st)
                if len(a) == 0 and isstr_t(t): return ""
            return TOP
        if k == "UnaryOperator":
            op = n.a.get("op")
            if op == "*":
                p = self.path(n, st)
                v = self.env(st).get(p, TOP) if p is not None else TOP
                return v if v is not TOP else self.deref(self.eval(n.c[0], st))
            if op == "&":
                p = self.path(n.c[0], st)
                return ("ref", p) if p is not None else TOP
            v = self.eval(n.c[0], st)
            if op in ("++", "--"):                 # evaluated after its effect
                if not isinstance(v, int): return TOP
                return v if not n.a.get("post") else v - 1 if op == "++" else v + 1
            if op == "!":
                if isinstance(v, int): return int(not v)
                return TOP
            if isinstance(v, int):
                if op == "-": return -v
                if op == "~": return ~v
                if op == "+": return v
            return TOP
        if k == "BinaryOperator":
            op = n.a.get("op")
            if op == "=": return self.eval(n.c[0], st)
            if op == ",": return self.eval(n.c[1], st)
            a = self.eval(n.c[0], st)
            if op == "&&":
                if a == 0 and isinstance(a, int): return 0
                b = self.eval(n.c[1], st)
                if isinstance(b, int) and b == 0: return 0
                return 1 if isinstance(a, int) and isinstance(b, int) else TOP
            if op == "||":
                if isinstance(a, int) and a: return 1
                b = self.eval(n.c[1], st)
                if isinstance(b, int) and b: return 1
                return 0 if isinstance(a, int) and isinstance(b, int) else TOP
            return self.binop(op, a, self.eval(n.c[1], st))
        if k == "ConditionalOperator":
            c = self.eval(n.c[0], st)
            if isinstance(c, int): return self.eval(n.c[1] if c else n.c[2], st)
            a, b = self.eval(n.c[1], st), self.eval(n.c[2], st)
            return a if a == b else TOP
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            v = self.eval(n.c[0], st) if n.c else TOP
            if isinstance(v, int) and n.t is not None and n.t.isint:
                if n.t.bool: return int(v != 0)
                if n.t.w and n.t.w < 64:
                    v &= (1 << n.t.w) - 1
                    if n.t.sg and v >> (n.t.w - 1): v -= 1 << n.t.w
                return v
            return v
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr",
                 "CXXDefaultInitExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator"):
            kk = n.c[0] if n.c else n.a.get("sub")
            return self.eval(kk, st)
        if k == "InitListExpr":
            t = (n.t.s if n.t else "") or ""
            if not n.c and isstr_t(t): return ""
            if len(n.c) == 1: return self.eval(n.c[0], st)
        return TOP
    def deref(self, v): return v if issym(v) else TOP
    def binop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and a - b in (1 << 64, -(1 << 64)): a = b       # npos
        if isinstance(a, str) and isinstance(b, str) or (isinstance(a, int) and isinstance(b, int)):
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
                        ">=": lambda: int(a >= b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b if 0 <= b < 64 else None,
                        ">>": lambda: a >> b if b >= 0 else None, "/": lambda: int(a / b), "%": lambda: a - b * int(a / b)}[op]()
            except (KeyError, ZeroDivisionError): return TOP
        return TOP
    # ---- transfer ----------------------------------------------------
    def bindref(self, v, init, st):
        """value for a reference variable initialised with init"""
        if v.t is not None and (v.t.ref or v.t.ptr):
            i = strip(init)
            if v.t.ptr and not v.t.ref and not (i is not None and i.k == "UnaryOperator" and i.a.get("op") == "&"): 
                x = self.eval(init, st)
                return x
            p = self.path(init, st)
            if p is not None: return ("ref", p)
        return self.eval(init, st)
    def elem(self, fl, f, n, st):
        k = n.k
        if k == "DeclStmt":
            for v in n.a.get("vars", ()):
                st = self.declare(fl, f, n, v, st)
            return (st,)
        if k == "BinaryOperator" and n.a.get("op") == "=":
            return (self.assign(f, n, n.c[0], self.eval(n.c[1], st), st),)
        if k == "CompoundAssignOperator":
            a = self.eval(n.c[0], st); b = self.eval(n.c[1], st)
            return (self.assign(f, n, n.c[0], self.binop(n.a["op"][:-1], a, b) if a is not TOP and b is not TOP else TOP, st),)
        if k == "UnaryOperator" and n.a.get("op") in ("++", "--"):
            a = self.eval(n.c[0], st)
            if isinstance(a, int) and abs(a) > self.widen: a = TOP
            return (self.assign(f, n, n.c[0], (a + 1 if n.a["op"] == "++" else a - 1) if isinstance(a, int) else TOP, st),)
        if k in CALLS: return self.call(fl, f, n, st)
        if k == "ReturnStmt":
            if n.c:
                v = self.eval(n.c[0], st)
                if f.ret is not None and (f.ret.ref or f.ret.ptr):
                    p = self.path(n.c[0], st)
                    if p is not None and f.ret.ref: v = ("ref", p)
                return (self.set(st, ("ret", f.key), v),)
            return (st,)
        return None
    def declare(self, fl, f, n, v, st):
        if v.init is None: return self.drop(st, lambda k: k[:1] == (v.d,))
        val = self.bindref(v, v.init, st)
        i = strip(v.init)
        if i is not None and i.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not (i.a.get("cc") or i.a.get("mc")): src = ("obj", f.key, i.id)
        else: src = self.path(v.init, st) if v.t is not None and not v.t.ref and v.t.rec else None
        st2 = self.set(st, (v.d,), val)
        if src is not None and src != (v.d,):       # copy of an object: copy known sub-paths
            e = self.env(st)
            for kk, x in e.items():
                if kk[:len(src)] == src and len(kk) > len(src): st2 = self.set(st2, (v.d,) + kk[len(src):], x)
        return st2
    def assign(self, f, n, lhs, val, st):
        p = self.path(lhs, st)
        if p is None: return self.assign_unknown(f, n, lhs, st)
        return self.set(st, p, val)
    def assign_unknown(self, f, n, lhs, st): return st
    def result(self, f, n, st, v): return self.set(st, ("tmp", f.key, n.id), v)
    def call(self, fl, f, n, st):
        if n.a.get("nr") and n.k != "CXXConstructExpr":
            self.noreturn(fl, f, n, st); return ()
        qn = callee(n) or ""
        g = self.p.fns.get(n.a.get("fn")); lam = islambda(g)
        r = None if lam else self.model(fl, f, n, qn, st)
        if r is None and not lam: r = self.std(fl, f, n, qn, st)
        if r is None:
            if g is not None and g.cfgj and len(fl.stack) < self.max_depth and all(x[0] != g.key for x in fl.stack) and (lam or self.descend(f, n, g, st)):
                out = set()
                for x in fl._call(g, self.bindcall(f, n, g, st)):
                    out.add(self.unbind(f, n, g, st, x))
                return out
            r = self.unknown(fl, f, n, st)
        return [self.result(f, n, s, v) for v, s in r]
    def bindcall(self, f, n, g, st):
        env = self.env(st); new = []
        a = cargs(n)
        if n.k == "CXXOperatorCallExpr" and g.cls and g.dk != "Function": a = a[1:]
        for i, q in enumerate(g.params):
            if i < len(a): e = a[i]
            else: e = q.init
            if e is None: new.append(((q.d,), TOP)); continue
            new.append(((q.d,), self.bindref(q, e, st)))
        me = None
        if islambda(g): me = ("this",)               # the body of a lambda has the captured this
        elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): me = ("obj", f.key, n.id)
        else:
            o = obj(n)
            if o is not None and g.cls: me = self.path(o, st)
        s2 = self.drop(st, lambda k: k == ("ret", g.key))
        if g.cls:
            old = env.get(("this",))
            s2 = self.drop(s2, lambda k: k == ("this",))
            if me is not None and me != ("this",): s2 = self.set(s2, ("this",), ("ref", me)) if False else (frozenset(dict(list(self.env(s2).items()) + [(("this",), ("ref", me))]).items()), s2[1])
            elif me == ("this",) and old is not None: s2 = (frozenset(dict(list(self.env(s2).items()) + [(("this",), old)]).items()), s2[1])
        for p, v in new:
            if v is TOP: s2 = self.drop(s2, lambda k, p=p: k[:1] == p)
            else: s2 = self.set(s2, p, v)
        return s2
    def unbind(self, f, n, g, st, x):
        env = self.env(x); rv = env.get(("ret", g.key), TOP)
        old = self.env(st).get(("this",))
        nd = {k: v for k, v in env.items() if k != ("this",) and k != ("ret", g.key) and not (k[0] == "tmp" and k[1] == g.key)}
        for q in g.params: nd.pop((q.d,), None)
        if old is not None: nd[("this",)] = old
        x = (frozenset(nd.items()), x[1])
        return self.result(f, n, x, rv)
    def std(self, fl, f, n, qn, st):
        """strings and transparent accessors of the standard library"""
        base = qn.rsplit("::", 1)[-1]
        if n.k == "CXXOperatorCallExpr":
            op = n.a.get("op"); a = cargs(n)
            if op in ("==", "!=") and len(a) == 2:
                x, y = self.eval(a[0], st), self.eval(a[1], st)
                r = self.binop(op, x, y)
                return [(r, st)]
            if op == "=" and len(a) == 2 and n.a.get("fn") not in self.p.fns:
                v = self.eval(a[1], st); st2 = self.assign(f, n, a[0], v, st)
                p = self.path(a[0], st)
                return [(("ref", p) if p is not None else v, st2)]
            if op == "*" and len(a) == 1:
                v = self.eval(a[0], st)
                if issym(v): return [(self.deref(v), st)]
        if qn.startswith("std::") or qn.startswith("__gnu_cxx"):
            o = obj(n)
            if base == "empty" and o is not None:
                v = self.eval(o, st)
                if isinstance(v, str): return [(int(v == ""), st)]
            if base in ("size", "length") and o is not None:
                v = self.eval(o, st)
                if isinstance(v, str): return [(len(v), st)]
            if base == "clear" and o is not None:
                p = self.path(o, st)
                return [(TOP, self.set(st, p, "") if p is not None else st)]
            if base in ("c_str", "data") and o is not None: return [(self.eval(o, st), st)]
            if base in ("move", "forward"):
                p = self.path(cargs(n)[0], st)
                return [(("ref", p) if p is not None else self.eval(cargs(n)[0], st), st)]
            if base in ("operator basic_string_view", "operator __sv_type") and o is not None: return [(self.eval(o, st), st)]
            if n.k == "CXXMemberCallExpr" and not n.a.get("cm") and o is not None and base in ("push_back", "append", "insert", "erase", "assign", "swap", "resize", "pop_back", "replace", "operator+=") :
                p = self.path(o, st)
                if p is not None: return [(TOP, self.set(st, p, TOP))]
        return None
    # ---- branches ----------------------------------------------------
    def edge(self, fl, f, cond, val, st):
        if isinstance(val, tuple):
            v = self.eval(cond, st) if cond is not None else TOP
            if val[0] == "case":
                c = const_of(val[1].c[0]) if val[1].c else None
                if isinstance(v, int) and c is not None: return st if v == c else None
                if c is not None and v is TOP:
                    p = self.path(cond, st)
                    if p is not None: return self.set(st, p, c)
                return st
            if isinstance(v, int):
                cs = [const_of(l.c[0]) for l in val[1] if l.c]
                if v in cs: return None
            return st
        v = self.eval(cond, st)
        if isinstance(v, int): return st if bool(v) == val else None
        if isinstance(v, str): return st if val else None
        self.undecided(f, cond, st)
        return self.refine(cond, val, st)
    def undecided(self, f, cond, st):
        """hook: both branches of a condition are followed"""
    def refine(self, cond, val, st):
        n = strip(cond)
        if n is None: return st
        if n.k == "UnaryOperator" and n.a.get("op") == "!": return self.refine(n.c[0], not val, st)
        if n.k in ("DeclRefExpr", "MemberExpr") and n.t is not None and n.t.isint and n.t.bool:
            p = self.path(n, st)
            if p is not None and self.env(st).get(p, TOP) is TOP: return self.set(st, p, int(val))
        if (n.k == "BinaryOperator" or n.k == "CXXOperatorCallExpr") and n.a.get("op") in ("==", "!="):
            a, b = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
            if (n.a["op"] == "==") == val:
                for x, y in ((a, b), (b, a)):
                    v = self.eval(y, st); p = self.path(x, st)
                    if isinstance(v, (int, str)) and p is not None and self.env(st).get(p, TOP) is TOP: return self.set(st, p, v)
        return st
