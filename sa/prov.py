"""Structured provenance of values: which element of which container an expression takes which component of.

eval(f, expr) gives a term: atoms ("lab"|"tgt"|"w", e) for label, target and weight of the arc e, ("fw", ...) for the
weight of a final state, ("pair", a, b), ("sum", terms), ("dep", atoms) for "computed from", ("par", i) for parameters,
("def",) for the default weight, ("unk",).  Variables with several definitions and elements of local containers with
several insertions are choice points: the caller enumerates them, so that components of one element stay together."""
import itertools
from .prog import fnodes, CALLS
from .flow import strip, cargs, obj, callee, const_of, access_path

ARC = "std::pair<int, double>"                   # (target, weight)
def ts(t): return t.s if t is not None else ""
def clean(s):
    s = s.strip()
    while True:
        o = s
        for p in ("const ", "volatile "):
            if s.startswith(p): s = s[len(p):]
        for q in (" &&", " &", " const", "&"):
            if s.endswith(q): s = s[:-len(q)].strip()
        if s == o: return s
def targs(s):
    """template name and arguments of a canonical type"""
    s = clean(s); i = s.find("<")
    if i < 0 or not s.endswith(">"): return s, []
    out = []; d = 0; cur = ""
    for ch in s[i + 1:-1]:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return s[:i], out
def elemtype(s):
    n, a = targs(s)
    if n in ("std::map", "std::multimap", "std::unordered_map", "std::unordered_multimap") and len(a) >= 2: return "std::pair<const %s, %s>" % (clean(a[0]), clean(a[1]))
    if n in ("std::vector", "std::set", "std::multiset", "std::list", "std::deque", "sorted_vector", "std::unordered_set") and a: return clean(a[0])
    return None
def isarcs(s):
    n, a = targs(s)
    return n in ("std::multimap", "std::map", "std::unordered_multimap") and len(a) >= 2 and clean(a[0]) == "int" and clean(a[1]) == ARC
def isfinals(s):
    n, a = targs(s)
    return n in ("std::map", "std::unordered_map") and len(a) >= 2 and clean(a[1]) == "double"
def kind(s):
    """what an element of this type is"""
    n, a = targs(s)
    if n == "std::pair" and len(a) == 2:
        if clean(a[1]) == ARC and clean(a[0]) == "int": return "arc"
    return None

def base(n): return (callee(n) or "").rsplit("::", 1)[-1]
ITER = {"begin", "rbegin", "cbegin", "crbegin", "find", "lower_bound", "upper_bound"}
UNK = ("unk",)

def atoms(t, out=None):
    """all atoms a term is computed from"""
    out = set() if out is None else out
    if t[0] == "pair":
        atoms(t[1], out); atoms(t[2], out)
    elif t[0] in ("sum", "dep", "look"):
        for x in t[1]: atoms(x, out)
    elif t[0] in ("op", "fun"): atoms(t[2], out)
    elif t[0] == "proj": out.add(t); atoms(t[2], out)
    elif t[0] in ("conv",): atoms(t[1], out)
    else: out.add(t)
    return out
def dep(*ts_):
    s = set()
    for t in ts_: atoms(t, s)
    s.discard(UNK); s = {x for x in s if x[0] != "const"}
    return ("dep", frozenset(s))
def proj(k, t):
    if t[0] == "pair": return t[1 + k]
    if t[0] == "arc": return ("lab", t[1]) if k == 0 else ("dst", t[1])
    if t[0] == "dst": return ("tgt", t[1]) if k == 0 else ("w", t[1])
    if t[0] == "fin": return ("st", t[1]) if k == 0 else ("fw", t[1])
    if t[0] == "iter": return UNK
    if t[0] in ("par", "proj", "el"): return ("proj", k, t)
    if t[0] in ("dep", "look"): return t
    return UNK
def addw(a, b):
    l = []
    for t in (a, b):
        if t[0] == "sum": l += list(t[1])
        elif t[0] in ("def",) or t == ("const", 0): pass
        else: l.append(t)
    if not l: return ("def",)
    if len(l) == 1: return l[0]
    return ("sum", tuple(sorted(l, key=repr)))

class Prov:
    def __init__(self, prog):
        self.p = prog; self.info = {}; self.src = {}
    def locals(self, f):
        r = self.info.get(f.key)
        if r is not None: return r
        par = {v.d: i for i, v in enumerate(f.params)}
        dec = {}; defs = {}; cont = {}
        def add(d, e, how="="): defs.setdefault(d, []).append((e, how))
        fs = [f]; seen = {f.key}
        while fs:
            g = fs.pop()
            if g is not f:
                for v in g.params: dec[v.d] = v
            for n in fnodes(g):
                for v in n.a.get("vars", ()) or ():
                    dec[v.d] = v
                    if v.init is not None: add(v.d, v.init)
                    for i, b in enumerate(v.bind or ()):
                        bd = b.d
                        dec[bd] = b; defs.setdefault(bd, []).append((("bind", v.d, i), "="))
                if n.k == "LambdaExpr":
                    h = self.p.fns.get(n.a.get("fn"))
                    if h is not None and h.key not in seen: seen.add(h.key); fs.append(h)
                if n.k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr"):
                    op = n.a.get("op") or ""
                    kids = n.c[1:] if n.k == "CXXOperatorCallExpr" else n.c
                    if op in ("=", "+=", "-=", "*=", "/=") and len(kids) == 2:
                        x = strip(kids[0])
                        if x is not None and x.k == "DeclRefExpr" and x.a.get("d") is not None: add(x.a["d"], kids[1], op)
                        elif x is not None and op == "=" and x.k == "CXXOperatorCallExpr" and x.a.get("op") == "[]":
                            b = strip(x.c[1])
                            if b is not None and b.k == "DeclRefExpr": cont.setdefault(b.a["d"], []).append(("kv", x.c[2], kids[1]))
                        elif x is not None and x.k == "MemberExpr" and x.c and op == "=" and x.a.get("n") in ("first", "second"):
                            b = strip(x.c[0])
                            if b is not None and b.k == "DeclRefExpr": defs.setdefault(b.a["d"], []).append((UNK, "="))
                    if n.k == "CXXOperatorCallExpr" and op == "[]":
                        b = strip(n.c[1])
                        if b is not None and b.k == "DeclRefExpr" and targs(ts(b.t))[0].endswith("map"): cont.setdefault(b.a["d"], []).append(("kv", n.c[2], None))
                if n.k == "CXXMemberCallExpr" and obj(n) is not None and base(n) in ("insert", "push_back", "emplace", "emplace_back", "push_front", "push", "insert_or_assign", "try_emplace", "emplace_hint"):
                    b = strip(obj(n)); a = cargs(n)
                    if b is not None and b.k == "DeclRefExpr" and b.a.get("d") is not None:
                        cont.setdefault(b.a["d"], []).append(("args", a))
        r = self.info[f.key] = (par, dec, defs, cont)
        return r

    # ------------------------------------------------------------ evaluation
    def alts(self, f, exprs, cap=200):
        """all consistent evaluations of the expressions (one environment of choices each)"""
        todo = [{}]; done = []; n = 0
        while todo and n < cap:
            ch = todo.pop(); n += 1
            ev = Ev(self, f, ch)
            r = [e if isinstance(e, tuple) else ev.ev(e) for e in exprs]
            if ev.need:
                k, m = ev.need
                for i in range(m):
                    c = dict(ch); c[k] = i; todo.append(c)
                continue
            done.append((r, ch))
        return done

class Ev:
    def __init__(self, P, f, ch, bind=None, depth=0):
        self.P = P; self.f = f; self.ch = ch; self.need = None; self.bind = bind; self.depth = depth
        self.par, self.dec, self.defs, self.cont = P.locals(f); self.busy = []
    def choose(self, key, n):
        if n <= 1: return 0
        if key in self.ch: return self.ch[key]
        if self.need is None: self.need = (key, n)
        return 0
    def elem(self, c, eid):
        """the element eid stands for, of the container term c"""
        if c[0] == "C":
            e = elemtype(c[1])
            if isarcs(c[1]):
                self.P.src[eid] = c[2]; return ("arc", eid)
            if isfinals(c[1]): return ("fin", (eid, c[2]))
            # contents of a tracked local container
            d = c[2][0] if c[2] and len(c[2]) == 1 else None
            if d in self.cont and d in self.dec and not (self.dec[d].t.ref):
                xs = self.cont[d]
                if ("el", d) in self.busy: return ("el", eid)
                i = self.choose(("cont", eid), len(xs))
                x = xs[i]
                self.busy.append(("el", d))
                try:
                    if x[0] == "kv":
                        k = self.ev(x[1]); v = self.ev(x[2]) if x[2] is not None else UNK
                        return ("pair", k, v)
                    a = x[1]
                    if len(a) == 2 and targs(c[1])[0].endswith("map") : return ("pair", self.ev(a[0]), self.ev(a[1]))
                    if len(a) == 2 and targs(ts(a[0].t))[0].find("iterator") >= 0: return ("el", eid)
                    if len(a) == 2 and (kind(e or "") or targs(e or "")[0] == "std::pair"): return ("pair", self.ev(a[0]), self.ev(a[1]))
                    return self.ev(a[-1]) if a else UNK
                finally: self.busy.pop()
            if e is not None and kind(e) == "arc": return ("arc", eid)
            return ("el", eid)
        return UNK
    def container(self, n):
        """('C', type, access path) of a container expression"""
        m = strip(n)
        if m is None: return UNK
        if m.k == "DeclRefExpr" and m.a.get("d") in self.dec and (self.dec[m.a["d"]].t.ref or m.a.get("n", "").startswith("__range")):
            ds = self.defs.get(m.a["d"], ())
            if len(ds) == 1 and hasattr(ds[0][0], "k") and ("c", m.a["d"]) not in self.busy:
                self.busy.append(("c", m.a["d"]))
                try:
                    r = self.container(ds[0][0])
                finally: self.busy.pop()
                if r[0] == "C": return r
        if m.k == "UnaryOperator" and m.a.get("op") == "*": pass
        return ("C", clean(ts(m.t)), access_path(m))
    def ev(self, n):
        if isinstance(n, tuple): return n
        n0 = n
        while n is not None and n.k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.c:
            if n.a.get("ck") in ("FloatingToIntegral",) or n.a.get("ck") == "FloatingCast" and ts(n.t) == "float":
                return ("conv", self.ev(n.c[0]))
            n = n.c[0]
        m = strip(n)
        if m is not n and m is not None: return self.ev(m)
        n = m
        if n is None: return UNK
        k = n.k
        if k == "DeclRefExpr": return self.var(n)
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"): return ("const", const_of(n))
        if k == "FloatingLiteral":
            try: return ("def",) if float(n.a.get("fv")) == 0 else ("const", n.a.get("fv"))
            except (TypeError, ValueError): return UNK
        if k == "MemberExpr":
            nm = n.a.get("n")
            if nm == "default_weight": return ("def",)
            if nm in ("first", "second") and n.c:
                b = self.ev(n.c[0])
                if b[0] == "iter2": return ("iter", b[1], b[2])
                if b[0] == "iter": b = self.elem(b[1], b[2])
                return proj(0 if nm == "first" else 1, b)
            if n.c and n.a.get("dk") == "Field":
                b = self.ev(n.c[0])
                if b[0] == "iter": b = self.elem(b[1], b[2])
                if b[0] in ("el", "par", "proj", "fld"): return ("fld", b, nm)
                return ("mem", access_path(n)) if access_path(n) else UNK
            return ("mem", access_path(n)) if access_path(n) else UNK
        if k == "CXXThisExpr": return ("this",)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [x for x in n.c if x.k != "CXXDefaultArgExpr"]
            if len(a) == 1: return self.ev(a[0])
            if len(a) == 2 and targs(ts(n.t))[0] == "std::pair": return ("pair", self.ev(a[0]), self.ev(a[1]))
            if not a: return ("empty",)
            return dep(*[self.ev(x) for x in a])
        if k == "InitListExpr":
            if len(n.c) == 1: return self.ev(n.c[0])
            if len(n.c) == 2: return ("pair", self.ev(n.c[0]), self.ev(n.c[1]))
            return dep(*[self.ev(x) for x in n.c]) if n.c else ("empty",)
        if k == "BinaryOperator":
            op = n.a.get("op")
            if op == "+": 
                a, b = self.ev(n.c[0]), self.ev(n.c[1])
                return addw(a, b) if ts(n.t) == "double" else dep(a, b)
            if op == ",": return self.ev(n.c[1])
            if op == "=": return self.ev(n.c[1])
            return ("op", op, dep(self.ev(n.c[0]), self.ev(n.c[1]))) if ts(n.t) == "double" else dep(self.ev(n.c[0]), self.ev(n.c[1]))
        if k == "UnaryOperator":
            b = self.ev(n.c[0])
            if n.a.get("op") == "*":
                return self.elem(b[1], b[2]) if b[0] == "iter" else b
            if n.a.get("op") == "&": return b
            if n.a.get("op") == "-": return ("op", "-", dep(b)) if ts(n.t) == "double" else dep(b)
            return dep(b)
        if k == "ConditionalOperator":
            i = self.choose(("cond", n.id, self.f.key), 2)
            return self.ev(n.c[-2 + i])
        if k == "CXXOperatorCallExpr":
            op = n.a.get("op")
            if op in ("*", "->"):
                b = self.ev(n.c[1])
                return self.elem(b[1], b[2]) if b[0] == "iter" else b
            if op == "[]":
                return self.at(n.c[1], n.c[2])
            if op == "=": return self.ev(n.c[2])
            if op in ("++", "--"): return self.ev(n.c[1])
            return self.call(n)
        if k == "CXXMemberCallExpr":
            nm = base(n); o = obj(n); a = cargs(n)
            if o is not None and nm in ITER and (nm == "begin" or nm in ITER) and elemtype(ts(strip(o).t) if strip(o) is not None else ""):
                c = self.container(o)
                return ("iter", c, ("at", c[2] if c[0] == "C" else None, nm, self.ev(a[0]) if a and nm == "find" else None))
            if nm == "equal_range" and o is not None:
                c = self.container(o); return ("iter2", c, ("at", c[2] if c[0] == "C" else None, nm, None))
            if nm == "at" and o is not None and a: return self.at(o, a[0])
            if nm in ("front", "back", "top") and o is not None: 
                c = self.container(o); return self.elem(c, ("at", c[2], nm, None))
            return self.call(n)
        if k in CALLS: return self.call(n)
        if k == "ArraySubscriptExpr": return dep(self.ev(n.c[0]), self.ev(n.c[1]))
        if k == "CXXStdInitializerListExpr" and n.c: return self.ev(n.c[0])
        return UNK
    def at(self, o, key):
        s = ts(strip(o).t) if strip(o) is not None else ""
        if isfinals(s):
            c = self.container(o)
            return ("fw", (("at", c[2], "at", self.ev(key)), c[2]))
        c = self.container(o)
        kt = self.ev(key)
        n, a = targs(s)
        if n == "std::map" and c[0] == "C" and c[2] and len(c[2]) == 1 and len(a) >= 2 and targs(a[1])[0] == "std::pair":
            return ("dep", dep(kt)[1])
        return ("look", dep(kt)[1])
    def call(self, n):
        a = cargs(n)
        if base(n) in ("make_pair", "pair") and len(a) == 2: return ("pair", self.ev(a[0]), self.ev(a[1]))
        if base(n) in ("move", "forward", "as_const", "ref", "cref") and len(a) == 1: return self.ev(a[0])
        if base(n) == "get" and len(a) == 1 and n.k == "CallExpr":
            t = n.a.get("fn") or ""
            b = self.ev(a[0])
            if b[0] == "iter": b = self.elem(b[1], b[2])
            if "3getILm0E" in t: return proj(0, b)
            if "3getILm1E" in t: return proj(1, b)
            return dep(b)
        h = self.P.p.fns.get(n.a.get("fn"))
        if h is not None and h.body is not None and self.depth < 3 and not (h.key == self.f.key):
            rs = [x for x in fnodes(h) if x.k == "ReturnStmt"]
            st = [x for x in h.body.c]
            if len(rs) == 1 and len(st) == 1 and rs[0].c and ts(h.ret) in ("double", "int", "const double", "const int") or (len(rs) == 1 and len(st) == 1 and targs(ts(h.ret))[0] == "std::pair"):
                off = a[1:] if n.k == "CXXOperatorCallExpr" and h.cls else a
                sub = Ev(self.P, h, self.ch, [self.ev(x) for x in off], self.depth + 1)
                r = sub.ev(rs[0].c[0])
                if sub.need and not self.need: self.need = sub.need
                return r
        r = dep(*[self.ev(x) for x in a])
        if ts(n.t) == "double": return ("fun", base(n), r)
        return r
    def var(self, n):
        d = n.a.get("d")
        if n.a.get("dk") in ("Function", "EnumConstant", "CXXMethod"): return UNK
        if d in self.par:
            i = self.par[d]
            if self.bind is not None: return self.bind[i] if i < len(self.bind) else UNK
            if not self.defs.get(d): 
                return self.typed(("par", i), self.f.params[i].t)
        v = self.dec.get(d)
        if v is None and d not in self.par:
            if n.a.get("n") == "default_weight": return ("def",)
            return ("glob", n.a.get("g") or n.a.get("n"))
        t = ts(n.t)
        # containers and records that are filled piecemeal are handled where their elements are taken
        ds = self.defs.get(d, [])
        if d in self.par: ds = [(self.typed(("par", self.par[d]), self.f.params[self.par[d]].t), "=")] + list(ds)
        if not ds:
            return ("el", d) if elemtype(t) is None else ("C", clean(t), (d,))
        if elemtype(t) is not None and not targs(t)[0].find("iterator") >= 0: return ("C", clean(t), (d,))
        if ("v", d) in self.busy: return ("dep", frozenset())
        self.busy.append(("v", d))
        try:
            acc = [x for x in ds if x[1] != "="]
            plain = [x for x in ds if x[1] == "="]
            if t == "double" and plain and len(plain) > 1:
                # a value given first and refined later
                if self.isdef(plain[0][0]): plain = plain[1:]
            i = self.choose(("var", d), len(plain)) if plain else 0
            if not plain: r = UNK
            else:
                e = plain[i][0]
                if isinstance(e, tuple) and e and e[0] == "bind":
                    hv = self.dec.get(e[1]); b = UNK
                    hd = self.defs.get(e[1], [])
                    if len(hd) == 1 and hasattr(hd[0][0], "k"):
                        b = self.rebase(self.ev(hd[0][0]), e[1])
                        if b[0] == "iter": b = self.elem(b[1], b[2])
                        r = proj(e[2], b)
                    else: r = UNK
                else: r = self.ev(e) if hasattr(e, "k") else e
            r = self.rebase(r, d)
            for e, how in acc:
                x = self.ev(e) if hasattr(e, "k") else e
                if how == "+=" and t == "double": r = addw(r, x)
                elif t == "double": r = ("op", how, dep(r, x))
                else: r = dep(r, x)
            return r
        finally: self.busy.pop()
    def isdef(self, e):
        return hasattr(e, "k") and self.ev(e) in (("def",), ("const", 0))
    def typed(self, t, ty):
        s = clean(ts(ty))
        if kind(s) == "arc": return ("arc", t)
        return t
    def rebase(self, t, d):
        """an iterator or element kept in a variable is identified by the variable"""
        if t[0] in ("iter", "iter2"): return (t[0], t[1], ("var", d))
        return t
