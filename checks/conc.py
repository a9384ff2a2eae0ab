"""P10: tasks that run at the same time share nothing that one of them changes."""
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, strip, cargs, obj, callee, const_of, cfg
from sa.cprop import CProp, TOP
from .hist import asg, READONLY, LOOPS

JOINS = ("join", "get", "wait")
def base(n): return (callee(n) or "").rsplit("::", 1)[-1]
def aliasing(t):
    s = t.s if t is not None else ""
    return t is not None and bool(t.ref or t.ptr is not None or "iterator" in s or "reference_wrapper" in s or s.endswith("*") or s.endswith("&"))
def isconst(t): return t is not None and (t.const or t.s.startswith("const ") or "const_iterator" in t.s)

class Effects:
    """what each function may change, in terms of its parameters, this, statics and captured variables"""
    def __init__(self, prog):
        self.p = prog; self.w = {}; self.loc = {}; self.ch = False; self.why = {}
    def locals(self, f):
        r = self.loc.get(f.key)
        if r is None:
            par = {v.d: i for i, v in enumerate(f.params)}; dec = {}; ini = {}
            for n in fnodes(f):
                for v in n.a.get("vars", ()) or ():
                    dec[v.d] = v
                    if v.init is not None: ini.setdefault(v.d, []).append(v.init)
                    for b in v.bind or ():
                        bd = b.d if hasattr(b, "d") else b.get("d")
                        dec[bd] = v; ini.setdefault(bd, []).extend(ini.get(v.d, ()))
                a = asg(n)
                if a:
                    x = strip(a[0])
                    if x is not None and x.k == "DeclRefExpr" and a[1] is not None: ini.setdefault(x.a["d"], []).append(a[1])
            r = self.loc[f.key] = (par, dec, ini)
        return r
    def roots(self, f, e, seen=()):
        e = strip(e)
        if e is None: return set()
        if e.k == "CXXThisExpr": return {("this",)}
        if e.k == "DeclRefExpr":
            d = e.a["d"]; par, dec, ini = self.locals(f)
            if e.a.get("dk") in ("Function", "EnumConstant", "CXXMethod"): return set()
            if d in par:
                t = f.params[par[d]].t
                return {("p", par[d])} if aliasing(t) else {("loc", d)}
            if d in dec:
                v = dec[d]
                if v.static: return {("loc", d)} if v.tls else {("g", v.n + " of " + f.qn)}
                if (aliasing(v.t) or v.bind) and d not in seen:
                    out = set()
                    for x in ini.get(d, ()): out |= self.roots(f, x, seen + (d,))
                    return out or {("loc", d)}
                return {("loc", d)}
            if e.a.get("g"): return set() if str(e.a["g"]).startswith("std::") else {("g", e.a["g"])}
            return {("cap", d, e.a.get("n"))}
        if e.k == "MemberExpr":
            if e.a.get("dk") not in (None, "Field"): return {("g", e.a.get("m"))} if e.a.get("dk") == "Var" else set()
            return self.roots(f, e.c[0], seen) if e.c else {("this",)}
        if e.k in ("UnaryOperator", "ArraySubscriptExpr"): return self.roots(f, e.c[0], seen)
        if e.k == "ConditionalOperator": return set().union(*[self.roots(f, x, seen) for x in e.c[-2:]])
        if e.k == "LambdaExpr": return set()
        if e.k in CALLS or e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if not aliasing(e.t) and not e.a.get("lv"): return set()
            xs = list(cargs(e))
            if e.k == "CXXMemberCallExpr" and obj(e) is not None: xs.append(obj(e))
            return set().union(set(), *[self.roots(f, x, seen) for x in xs])
        if e.k == "BinaryOperator": return self.roots(f, e.c[0], seen) if aliasing(e.t) else set()
        return set()
    def writes(self, f): return self.w.get(f.key, set())
    def guarded(self, f, n):
        """done holding a lock, or on an atomic"""
        if any(v.t is not None and any(k in v.t.s for k in ("lock_guard<", "unique_lock<", "scoped_lock<")) for m in fnodes(f) for v in (m.a.get("vars", ()) or ())): return True
        return any(x.t is not None and "std::atomic" in x.t.s for x in n.walk() if x.k in ("DeclRefExpr", "MemberExpr"))
    def direct(self, f, n):
        r = self.direct_(f, n)
        return set() if r and self.guarded(f, n) else r
    def direct_(self, f, n):
        """roots node n itself changes"""
        out = set()
        a = asg(n); tgt = a[0] if a else None
        if tgt is not None:
            x = strip(tgt)
            if not (x is not None and x.k == "DeclRefExpr" and x.t is not None and not self.isrefvar(f, x) and not x.a.get("g") and x.a["d"] in self.locals(f)[1] and not self.locals(f)[1][x.a["d"]].static):
                out |= self.roots(f, tgt)
        if n.k == "CXXDeleteExpr" and n.c: out |= self.roots(f, n.c[0])
        if n.k == "LambdaExpr":
            h = self.p.fns.get(n.a.get("fn"))
            if h is not None:
                for w in self.writes(h):
                    if w[0] == "cap": out |= self.capped(f, w)
                    elif w[0] in ("g", "this"): out.add(w)
        if n.k in CALLS or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            h = self.p.fns.get(n.a.get("fn"))
            if h is not None and h.body is not None:
                args = cargs(n)
                off = 1 if n.k == "CXXOperatorCallExpr" and h.cls else 0
                for w in self.writes(h):
                    if w[0] == "p":
                        i = w[1] + off
                        if i < len(args): out |= self.roots(f, args[i])
                    elif w[0] == "this":
                        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                        o = obj(n)
                        out |= self.roots(f, o) if o is not None else {("this",)}
                    elif w[0] == "cap": out |= self.capped(f, w)
                    else: out.add(w)
            elif not a:
                nm = base(n)
                if n.k == "CXXMemberCallExpr":
                    o = obj(n)
                    if not n.a.get("cm") and nm not in READONLY and o is not None: out |= self.roots(f, o)
                elif n.k == "CXXOperatorCallExpr":
                    if n.a.get("op") in (">>",) and len(n.c) > 2: out |= self.roots(f, n.c[2])
                elif n.k == "CallExpr" and nm not in ("ref", "cref", "move", "forward", "begin", "end", "make_pair", "min", "max", "get", "addressof"):
                    for x in cargs(n):
                        if x is None: continue
                        if x.a.get("lv") == 1 and not isconst(x.t) or x.t is not None and aliasing(x.t) and not isconst(x.t): out |= self.roots(f, x)
        return out
    def isrefvar(self, f, x):
        par, dec, ini = self.locals(f); d = x.a["d"]
        t = f.params[par[d]].t if d in par else dec[d].t if d in dec else None
        return t is None or bool(t.ref)
    def capped(self, f, w):
        par, dec, ini = self.locals(f)
        if w[1] in par: return {("p", par[w[1]])} if aliasing(f.params[par[w[1]]].t) else {("loc", w[1])}
        if w[1] in dec:
            v = dec[w[1]]
            if v.static: return set() if v.tls else {("g", v.n + " of " + f.qn)}
            if aliasing(v.t): return set().union(set(), *[self.roots(f, x) for x in self.locals(f)[2].get(w[1], ())])
            return {("loc", w[1])}
        return {w}
    def solve(self, fs):
        fs = [f for f in fs if f.body is not None]; ch = True; rounds = 0
        while ch:
            ch = False; rounds += 1
            if rounds > 60: raise AnalysisBroken("effects do not converge")
            for f in fs:
                cur = self.w.setdefault(f.key, set())
                for n in list(fnodes(f)) + [i["init"] for i in (f.inits or ()) if isinstance(i, dict) and i.get("init") is not None]:
                    for r in self.direct(f, n):
                        if r[0] == "loc": continue
                        if r not in cur: cur.add(r); ch = True; self.why.setdefault((f.key, r), n)

def reachable(prog, roots):
    seen = {}; work = list(roots)
    while work:
        f = work.pop()
        if f.key in seen: continue
        seen[f.key] = f
        for n in fnodes(f):
            if n.k in CALLS or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "LambdaExpr", "DeclRefExpr"):
                h = prog.fns.get(n.a.get("fn"))
                if h is not None and h.body is not None: work.append(h)
    return seen

def spawns(prog):
    """(function, node, callable and argument expressions, 'thread' | 'future')"""
    out = []
    for f in prog.fns.values():
        if f.body is None: continue
        for n in fnodes(f):
            q = callee(n) or ""
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and q in ("std::thread::thread", "std::jthread::jthread"):
                a = [x for x in n.c if x is not None]
                if not a or strip(a[0]) is not None and "thread" in ((strip(a[0]).t.rec or strip(a[0]).t.s) if strip(a[0]).t else ""): continue   # default, move
                out.append((f, n, a, "thread"))
            elif n.k == "CallExpr" and q == "std::async":
                a = list(cargs(n))
                if a and a[0].t is not None and "launch" in a[0].t.s: a = a[1:]
                out.append((f, n, a, "future"))
            elif n.k == "CXXMemberCallExpr" and base(n) in ("emplace_back", "emplace") and "std::thread" in q and obj(n) is not None and "std::thread" in (obj(n).t.s if obj(n).t else ""):
                if cargs(n) and "std::thread" not in (strip(cargs(n)[0]).t.s if strip(cargs(n)[0]) is not None and strip(cargs(n)[0]).t else ""): out.append((f, n, list(cargs(n)), "thread"))
    return out

def up(n):
    x = n.parent
    while x is not None: yield x; x = x.parent
def inside(n, top): return n is top or any(x is top for x in up(n))
def task_fn(prog, f, e):
    x = strip(e)
    while x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr") and x.c: x = strip(x.c[-1])
    if x is None: return None, None
    if x.k == "UnaryOperator" and x.a.get("op") == "&": x = strip(x.c[0])
    if x.k == "LambdaExpr": return prog.fns.get(x.a.get("fn")), x
    if x.k == "DeclRefExpr":
        if x.a.get("fn"): return prog.fns.get(x.a["fn"]), None
        for n in fnodes(f):
            for v in n.a.get("vars", ()) or ():
                if v.d == x.a["d"] and v.init is not None: return task_fn(prog, f, v.init)
    return None, None

class Region(CProp):
    """which statements run while a task may be running"""
    limit = 3000
    def __init__(self, prog, spawn, joinheads, joinwhole, inner):
        super().__init__(prog); self.sp = spawn; self.jh = joinheads; self.jw = joinwhole; self.inner = inner; self.live = set(); self.unjoined = False
    def elem(self, fl, f, n, st):
        if n.id in self.jh and n.fn is f: st = (st[0], ())
        if st[1] and n.id not in self.jw: self.live.add(n.id)
        if n is self.sp: 
            r = super().elem(fl, f, n, st)
            return tuple((x[0], ("run",)) for x in (r if r is not None else (st,)))
        return super().elem(fl, f, n, st)
    def ret(self, fl, f, st):
        if st[1]: self.unjoined = True
        return st

def P10(prog, res, tier):
    sp = spawns(prog)
    if len(sp) < 1: raise AnalysisBroken("only %d places start a task" % len(sp))
    eff = Effects(prog)
    tasks = []
    for f, n, a, kind in sp:
        h, lam = task_fn(prog, f, a[0])
        if h is None or h.body is None: raise AnalysisBroken("%s: the function of the task is not known" % where(n))
        tasks.append((f, n, a, kind, h, lam))
    rc = reachable(prog, [t[4] for t in tasks])
    eff.solve(list(reachable(prog, [t[4] for t in tasks] + [t[0] for t in tasks]).values()))
    res.count("tasks", len(tasks)); res.count("functions_run_by_tasks", len(rc))
    for f, n, a, kind, h, lam in tasks:
        with res.guard("task:" + f.qn):
            one(prog, res, eff, rc, f, n, a, kind, h, lam)

def blame(eff, h, w, depth=0):
    n = eff.why.get((h.key, w))
    if n is None or depth > 12: return None
    g = eff.p.fns.get(n.a.get("fn")) if n.k in CALLS or n.k in ("LambdaExpr",) else None
    if g is not None and g.key != h.key:
        for w2 in eff.writes(g):
            if w2[0] == w[0] or w2[0] in ("p", "this"):
                if w[0] == "g" and w2 != w: continue
                r = blame(eff, g, w2, depth + 1)
                if r is not None: return r
    return n

def pointee(eff, f, dec, r, depth=0):
    """the variables a root stands for: a pointer variable stands for what its initialiser points into"""
    if r[0] != "var" or r[1] not in dec or depth > 4: return {r}
    v = dec[r[1]]
    if v.t is None or v.t.ref or not v.t.s.rstrip().rstrip("const").rstrip().endswith("*") or v.init is None: return {r}
    e = strip(v.init)
    vs = {("var", y.a["d"], y.a.get("n")) for y in e.walk() if y.k == "DeclRefExpr" and y.a.get("dk") in ("Var", "ParmVar", "Binding")}
    if vs: return {z for y in vs for z in pointee(eff, f, dec, y, depth + 1)}
    return eff.roots(f, e) or {r}

def one(prog, res, eff, rc, f, n, a, kind, h, lam):
    key = "%s|%s" % (f.qn, kind)
    # statics that the task changes
    for w in sorted(x for x in eff.writes(h) if x[0] == "g"):
        b = blame(eff, h, w)
        res.violation("%s|static|%s" % (key, w[1]), "%s: a task started at %s changes '%s', which all tasks share" % (where(b) if b is not None else h.loc, where(n), w[1]))
    # what it is given by reference
    loop = next((x for x in up(n) if x.k in LOOPS), None)
    values = set()                                 # given as the value of a pointer
    given = []                                     # (root, written by the task?, what)
    wr = eff.writes(h)
    for i, x in enumerate(a[1:]):
        y = strip(x); byref = False
        while y is not None and y.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(y.c) == 1 and "reference_wrapper" in (y.t.s if y.t else ""): y = strip(y.c[0])
        if y is not None and y.k == "CallExpr" and base(y) in ("ref", "cref"):
            byref = True; arg = cargs(y)[0]
            changed = base(y) == "ref" and ("p", i) in wr
        elif y is not None and y.t is not None and (y.t.ptr is not None or y.t.s.endswith("*")) and strip(y).k != "StringLiteral":
            byref = True; arg = y; values.add(len(given)); changed = ("p", i) in wr or h.cls and i == 0 and ("this",) in wr
        if byref: given.append((arg, changed))
    for c in (lam.a.get("caps") or ()) if lam is not None else ():
        if c.get("this"): given.append((("this",), ("this",) in wr or any(w[0] == "cap" and w[1] is None for w in wr)))
        elif c.get("ref"): given.append((("cap", c), any(w[0] == "cap" and w[1] == c.get("d") for w in wr)))
        elif c.get("t") is not None and getattr(c["t"], "s", "").endswith("*"): values.add(len(given)); given.append((("cap", c), any(w[0] == "cap" and w[1] == c.get("d") for w in wr)))
    shared, own = [], []
    par, dec, ini = eff.locals(f)
    for gi, (g, changed) in enumerate(given):
        if isinstance(g, tuple): rt = {("this",)} if g[0] == "this" else {("var", g[1]["d"], g[1].get("n"))}; nm = "this" if g[0] == "this" else g[1].get("n")
        else: rt = {("var", y.a["d"], y.a.get("n")) for y in g.walk() if y.k == "DeclRefExpr" and y.a.get("dk") in ("Var", "ParmVar", "Binding")} or eff.roots(f, g); nm = next((y.a.get("n") for y in g.walk() if y.k == "DeclRefExpr" and y.a.get("dk") in ("Var", "ParmVar", "Binding")), "this")
        res.count("references_given")
        if gi in values: rt = {z for y in rt for z in pointee(eff, f, dec, y)}
        kindr = "shared"
        for r in rt:
            if r[0] == "var" and r[1] in dec:
                v = dec[r[1]]
                lp = loop
                if lp is not None and lp.k == "CXXForRangeStmt" and declared_in(lp, v):
                    t = v.t
                    if isloopvar(lp, v):
                        if t.ref or any(("&" in (x.t.s if x.t else "")) for x in [v]): kindr = "own"
                        else: kindr = "dangling"
                    elif t.ref: kindr = "own"
                    else: kindr = "dangling"
                elif lp is not None and declared_in(lp, v): kindr = "own" if v.t.ref else "dangling"
        if kindr == "own": own.append((g, rt, changed, nm))
        elif kindr == "dangling": res.violation("%s|dangling|%s" % (key, nm), "%s: the task is given a reference to '%s', which is gone before the task has ended" % (where(n), nm))
        else: shared.append((g, rt, changed, nm))
    many = loop is not None
    for g, rt, changed, nm in shared:
        if changed and many:
            w = next((x for x in eff.writes(h) if x[0] != "g"), None); b = blame(eff, h, w) if w else None
            res.violation("%s|shared|%s" % (key, nm), "%s: every task is given the same '%s', and the task changes it" % (where(n), nm))
    # until when it runs
    hv = handle(f, n)
    if hv is None: 
        if kind == "thread": raise AnalysisBroken("%s: where the thread is kept is not known" % where(n))
        return
    if any(x.k == "CXXMemberCallExpr" and base(x) == "detach" for x in fnodes(f)):
        res.violation("%s|detach" % key, "%s: the thread is detached: nothing waits for it" % where(n))
    heads, whole, djoin = joins(prog, f, hv)
    reg = Region(prog, n, heads | djoin, whole, None)
    Flow(prog, reg).run(f, reg.mk())
    if kind == "thread" and reg.unjoined:
        res.violation("%s|unjoined" % key, "%s: a path of %s ends without waiting for the thread" % (where(n), f.qn))
    # what the main thread touches meanwhile
    back = loop
    for x in fnodes(f):
        if x.id not in reg.live or inside(x, n) or x is n: continue
        acc = touched(eff, f, x)
        for d, wrote in acc:
            for g, rt, changed, nm in shared:
                if any(r[0] == "var" and r[1] == d for r in rt) and (changed or wrote):
                    if inside(n, x) or any(inside(x, z) for z in [n]): continue
                    res.violation("%s|meanwhile|%s" % (key, nm), "%s: '%s' is used while a task that has a reference to it may be running (started at %s)" % (where(x), nm, where(n)))
    owned(prog, res, eff, f, n, loop, own, reg, key, hv)
    siblings(prog, res, f, n, h, key)

def declared_in(loop, v):
    return any(w is v for x in loop.walk() for w in (x.a.get("vars", ()) or ())) or any(w is v for s in ("var", "init", "cvar") if hasattr(loop.a.get(s), "walk") for x in loop.a[s].walk() for w in (x.a.get("vars", ()) or ())) or any(w is v for s in ("body",) if hasattr(loop.a.get(s), "walk") for x in loop.a[s].walk() for w in (x.a.get("vars", ()) or ()))
def isloopvar(loop, v):
    s = loop.a.get("var")
    return hasattr(s, "walk") and any(w is v for x in s.walk() for w in (x.a.get("vars", ()) or ()))
def handle(f, n):
    """the variable the thread / future is kept in"""
    x = n
    for y in up(n):
        if y.k == "CXXMemberCallExpr":
            o = strip(obj(y)) if obj(y) is not None else None
            return o.a["d"] if o is not None and o.k == "DeclRefExpr" else None
        if y.k == "CXXOperatorCallExpr" and y.a.get("op") == "=":
            z = strip(y.c[1])
            while z is not None and z.k == "CXXOperatorCallExpr": z = strip(z.c[1])
            return z.a["d"] if z is not None and z.k == "DeclRefExpr" else None
        if y.k in ("CompoundStmt", "IfStmt") + LOOPS: break
    o = strip(obj(n)) if n.k == "CXXMemberCallExpr" and obj(n) is not None else None
    if o is not None and o.k == "DeclRefExpr": return o.a["d"]
    for m in fnodes(f):
        for v in m.a.get("vars", ()) or ():
            if v.init is not None and any(z is n for z in v.init.walk()): return v.d
    return None
def moved(f, hv):
    """the containers a thread variable is moved to, and itself"""
    out = {hv}
    for m in fnodes(f):
        if m.k in CALLS and any(z.k == "CallExpr" and base(z) == "move" and any(w.k == "DeclRefExpr" and w.a["d"] in out for w in z.walk()) for x in cargs(m) if x is not None for z in x.walk()):
            o = strip(obj(m)) if obj(m) is not None else None
            while o is not None and o.k == "CXXOperatorCallExpr": o = strip(o.c[1])
            if o is not None and o.k == "DeclRefExpr": out.add(o.a["d"])
    return out
def waits_for(prog, h, i, depth=0):
    """does h wait for everything in its i-th parameter?"""
    if h is None or h.body is None or i >= len(h.params) or depth > 3: return False
    a, b, c = joins(prog, h, h.params[i].d, depth + 1)
    return bool(a or c)
def joins(prog, f, hv, depth=0):
    """nodes at which everything kept in hv has been waited for"""
    heads, whole, direct = set(), set(), set()
    alias = moved(f, hv); ch = True
    for m in fnodes(f):
        if m.k == "CallExpr" or m.k == "CXXMemberCallExpr":
            for i, x in enumerate(cargs(m)):
                y = strip(x)
                if y is not None and y.k == "DeclRefExpr" and y.a["d"] in alias and waits_for(prog, prog.fns.get(m.a.get("fn")), i, depth): direct.add(m.id)
    while ch:
        ch = False
        for m in fnodes(f):
            for v in m.a.get("vars", ()) or ():
                if v.d not in alias and v.init is not None and any(z.k == "DeclRefExpr" and z.a["d"] in alias for z in v.init.walk()) and (v.t.ref or "iterator" in v.t.s): alias.add(v.d); ch = True
    for m in fnodes(f):
        if m.k == "CXXMemberCallExpr" and base(m) in JOINS and obj(m) is not None and any(z.k == "DeclRefExpr" and z.a["d"] in alias for z in obj(m).walk()):
            lp = next((x for x in up(m) if x.k in LOOPS), None)
            if lp is None: direct.add(m.id); continue
            cond = next((x for x in up(m) if x.k == "IfStmt" and inside(x, lp)), None)
            if cond is not None and not any(z.k == "CXXMemberCallExpr" and base(z) in ("joinable", "valid") for z in cond.walk()): continue
            body = lp.a.get("body")
            for s in ("init", "range", "begin", "end", "cond", "var"):
                z = lp.a.get(s)
                if hasattr(z, "walk"):
                    heads |= {y.id for y in z.walk()}
                    heads |= {w.id for y in z.walk() for v in (y.a.get("vars", ()) or ()) if v.init is not None for w in v.init.walk()}
            heads |= {x.id for x in fnodes(f) if inside(x, lp) and not (body is not None and inside(x, body))}
    return heads, whole, direct
def touched(eff, f, x):
    """variables node x uses: (decl, changed?)"""
    if x.k != "DeclRefExpr": return ()
    d = x.a["d"]; wrote = False
    for y in [x] + list(up(x)):
        if y.k in ("CompoundStmt", "IfStmt") + LOOPS: break
        if any(r == ("loc", d) or r[0] in ("p", "cap") and eff.locals(f)[0].get(d) == r[1] for r in eff.direct(f, y)): wrote = True; break
    return ((d, wrote),)
def owned(prog, res, eff, f, n, loop, own, reg, key, hv):
    """the element a task works on is not touched by anyone else until the task is waited for"""
    if loop is None or not own: return
    body = loop.a.get("body")
    # later in the same turn of the loop: from the spawn to the end of the body, not through the loop head
    after = set(); g = cfg(f); pos = None
    for b in g.b.values():
        for i, e in enumerate(b["e"]):
            if e == n.id: pos = (b["id"], i)
    inb = {x.id for x in fnodes(f) if body is not None and inside(x, body)}
    if pos is not None:
        b = g.b[pos[0]]; after |= {e for e in b["e"][pos[1] + 1:] if not isinstance(e, dict)}
        seen = set(); work = [t for t in b["s"] if t is not None]
        while work:
            t = work.pop()
            if t in seen: continue
            seen.add(t); es = [e for e in g.b[t]["e"] if not isinstance(e, dict)]
            if es and not any(e in inb for e in es): continue
            after |= {e for e in es if e in inb}
            work.extend(u for u in g.b[t]["s"] if u is not None)
    rng = loop.a.get("range")
    cont = {z.a["d"] for z in (rng.walk() if hasattr(rng, "walk") else ()) if z.k == "DeclRefExpr"} | {z.a["m"] for z in (rng.walk() if hasattr(rng, "walk") else ()) if z.k == "MemberExpr" and z.a.get("dk") == "Field"}
    for v in (w for y in (rng.walk() if hasattr(rng, "walk") else ()) for w in (y.a.get("vars", ()) or ())):
        if v.init is not None:
            cont |= {z.a["d"] for z in v.init.walk() if z.k == "DeclRefExpr"} | {z.a["m"] for z in v.init.walk() if z.k == "MemberExpr" and z.a.get("dk") == "Field"}
    res.count("elements_owned", len(own))
    for gexp, rt, changed, nm in own:
        ds = {r[1] for r in rt if r[0] == "var"}
        for x in fnodes(f):
            if x.k == "DeclRefExpr" and x.a["d"] in ds and x.id in after and x.id in reg.live and not inside(x, n):
                w = any(d == x.a["d"] and wrote for d, wrote in touched(eff, f, x))
                if changed or w: res.violation("%s|meanwhile|%s" % (key, nm), "%s: '%s' is used while the task that was given it may be running (started at %s)" % (where(x), nm, where(n)))
            if (x.k == "DeclRefExpr" and x.a["d"] in cont or x.k == "MemberExpr" and x.a.get("m") in cont) and x.id in reg.live and not inside(x, n) and changed:
                if inside(x, loop) and not (body is not None and inside(x, body)): continue
                if any(inside(x, z) for z in [n]): continue
                res.violation("%s|meanwhile|%s" % (key, x.a.get("n")), "%s: '%s' is used while tasks that change its elements may be running (started at %s)" % (where(x), x.a.get("n"), where(n)))

LIB = ("Transducer", "Alphabet")
def maybe(x, stop):
    """is x performed only under a condition inside 'stop'?"""
    p, c = x.parent, x
    while p is not None and p is not stop:
        if p.k == "IfStmt" and (p.a.get("then") is c or p.a.get("else") is c): return True
        if p.k == "ConditionalOperator" and p.c[0] is not c: return True
        if p.k == "BinaryOperator" and p.a.get("op") in ("&&", "||") and p.c[1] is c: return True
        if p.k in ("SwitchStmt", "CXXCatchStmt"): return True
        p, c = p.parent, p
    return False
def changes(prog, nodes, stop, depth=0):
    """the operations on transducers that these statements perform, through helpers: {operation: performed unconditionally}"""
    out = {}
    def put(q, must): out[q] = out.get(q, False) or must
    for x in nodes:
        if x.k not in CALLS and x.k != "LambdaExpr": continue
        h = prog.fns.get(x.a.get("fn"))
        if h is None: continue
        m = not maybe(x, stop)
        if x.k in CALLS and h.cls in LIB:
            if not x.a.get("cm") and h.n != "operator=": put(h.qn, m)
        elif h.body is not None and depth < 4:
            for q, mm in changes(prog, fnodes(h), h.body, depth + 1).items(): put(q, m and mm)
    return out
def siblings(prog, res, f, n, h, key):
    """with and without tasks the same operations are performed"""
    cond = next((x for x in up(n) if x.k == "IfStmt"), None)
    if cond is None or cond.a.get("else") is None: return
    th, el = cond.a["then"], cond.a["else"]
    this, other = (th, el) if inside(n, th) else (el, th)
    a = changes(prog, fnodes(h), h.body)
    for q, m in changes(prog, [x for x in fnodes(f) if inside(x, this) and not inside(x, n)], cond).items(): a[q] = a.get(q, False) or m
    b = changes(prog, [x for x in fnodes(f) if inside(x, other)], cond)
    res.count("siblings_compared")
    for q in sorted(set(a) ^ set(b)):
        res.violation("%s|sibling|%s" % (key, q), "%s: %s is performed %s" % (where(n), q, "only when tasks are used" if q in a else "only when no tasks are used"))
    for q in sorted(set(a) & set(b)):
        if a[q] != b[q]: res.violation("%s|sibling-if|%s" % (key, q), "%s: %s is performed under a condition only when %stasks are used" % (where(n), q, "no " if a[q] else ""))
