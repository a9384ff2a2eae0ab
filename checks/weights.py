"""P09: weights are carried along by every operation and added up by every run."""
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import strip, cargs, obj, callee, const_of, access_path, Flow
from sa.cprop import CProp, TOP
from sa.prov import Prov, Ev, ts, targs, clean, isarcs, isfinals, atoms, UNK, base, proj, kind, elemtype
from .hist import asg, LOOPS

INS = ("insert", "emplace", "emplace_hint", "insert_or_assign", "try_emplace")
def cls_of(f): return f.cls

class Sink:
    """an arc (or final state) put into a transducer: label, target, weight (state, weight)"""
    __slots__ = ("kind", "node", "f", "terms", "chain", "cont", "own")
    def __init__(self, kind, node, f, terms, chain=(), cont=None, own=True): self.own = own; self.kind = kind; self.node = node; self.f = f; self.terms = terms; self.chain = chain; self.cont = cont

def raw(n):
    """(kind, container expr, value exprs) if n puts something into a container of arcs or finals"""
    if n.k == "CXXMemberCallExpr" and base(n) in INS and obj(n) is not None:
        o = strip(obj(n)); s = ts(o.t) if o is not None else ""
        a = [x for x in cargs(n) if x.k != "CXXDefaultArgExpr"]
        k = "arc" if isarcs(s) else "fin" if isfinals(s) and clean(targs(s)[1][0]) == "int" else None
        if k is None or not a: return None
        if base(n) == "emplace_hint" or len(a) == 2 and base(n) == "insert" and "iterator" in ts(a[0].t) and "iterator" not in ts(a[1].t): a = a[1:]
        if any("iterator" in ts(x.t) for x in a): return None      # whole ranges
        return k, o, a
    if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.a.get("op") == "=":
        kids = n.c[1:] if n.k == "CXXOperatorCallExpr" else n.c
        x = strip(kids[0]) if kids else None
        if x is not None and x.k == "CXXOperatorCallExpr" and x.a.get("op") == "[]":
            s = ts(strip(x.c[1]).t) if strip(x.c[1]) is not None else ""
            if isfinals(s) and clean(targs(s)[1][0]) == "int": return "fin", strip(x.c[1]), [x.c[2], kids[1]]
    return None

def split(kind, ts_):
    """label, target, weight (or state, weight) of the value terms"""
    if kind == "arc":
        if len(ts_) == 1:
            v = ts_[0]; l, d = proj(0, v), proj(1, v)
        else: l, d = ts_[0], ts_[1]
        return l, proj(0, d), proj(1, d)
    if len(ts_) == 1: return proj(0, ts_[0]), None, proj(1, ts_[0])
    return ts_[0], None, ts_[1]

def subst(t, args, tag=None):
    if t[0] == "par": return args[t[1]] if t[1] < len(args) and args[t[1]] is not None else UNK
    if t[0] == "arc" and isinstance(t[1], tuple) and t[1][:1] == ("par",):
        a = subst(t[1], args); return a if a[0] == "arc" else a if a[0] in ("pair", "par", "proj", "el") else UNK
    if t[0] in ("lab", "dst", "tgt", "w") and isinstance(t[1], tuple) and t[1][:1] == ("par",):
        a = subst(("arc", t[1]), args)
        if t[0] == "lab": return proj(0, a)
        if t[0] == "dst": return proj(1, a)
        return proj(0 if t[0] == "tgt" else 1, proj(1, a))
    if t[0] == "proj": return proj(t[1], subst(t[2], args))
    if t[0] == "fld":
        b = subst(t[1], args); return ("fld", b, t[2]) if b != UNK else UNK
    if t[0] == "pair": return ("pair", subst(t[1], args), subst(t[2], args))
    if t[0] == "sum":
        from sa.prov import addw
        r = ("def",)
        for x in t[1]: r = addw(r, subst(x, args))
        return r
    if t[0] in ("dep", "look"):
        from sa.prov import dep
        return (t[0],) + dep(*[subst(x, args) for x in t[1]])[1:]
    if t[0] in ("op", "fun"): return (t[0], t[1], subst(t[2], args))
    if t[0] == "conv": return ("conv", subst(t[1], args))
    return t
def haspar(t): return any(a[0] == "par" or isinstance(a[1] if len(a) > 1 else None, tuple) and a[1][:1] == ("par",) or a[0] in ("proj", "fld") and "par" in repr(a) for a in atoms(t))

class Sinks:
    def __init__(self, prog): self.p = prog; self.P = Prov(prog); self.memo = {}; self.n = 0
    def reaches(self, f):
        """can f put an arc or a final state into a transducer?"""
        if not hasattr(self, "_r"):
            direct = {g.key for g in self.p.fns.values() if g.body is not None and any(raw(n) for n in fnodes(g))}
            callers = self.p.callers(); todo = list(direct)
            while todo:
                k = todo.pop()
                for g, n in callers.get(k, ()):
                    if g.key not in direct: direct.add(g.key); todo.append(g.key)
            self._r = direct
        return f.key in self._r
    def of(self, f, depth=0):
        if not self.reaches(f): return []
        r = self.memo.get(f.key)
        if r is not None: return r
        self.memo[f.key] = []                       # recursion: nothing more
        out = []
        for n in fnodes(f):
            x = raw(n)
            if x:
                k, c, a = x
                for terms, ch in self.P.alts(f, a):
                    out.append(Sink(k, n, f, split(k, terms), (), (access_path(c), f)))
                continue
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                h = self.p.fns.get(n.a.get("fn"))
                if h is None or h.body is None or h.key == f.key or not self.reaches(h): continue
                ss = [s for s in self.of(h, depth + 1) if any(t is not None and haspar(t) for t in s.terms)]
                if not ss: continue
                a = list(cargs(n))
                if n.k == "CXXOperatorCallExpr" and h.cls: a = a[1:]
                for terms, ch in self.P.alts(f, a):
                    for s in ss:
                        out.append(Sink(s.kind, n, f, tuple(None if t is None else subst(t, terms) for t in s.terms), (s.node,) + s.chain, ("?", obj(n) if n.k == "CXXMemberCallExpr" else None), s.terms[2] is not None and haspar(s.terms[2])))
        seen = set(); u = []
        for s in out:
            key = (s.kind, s.node.id, s.terms)
            if key not in seen: seen.add(key); u.append(s)
        self.memo[f.key] = u[:600]
        return self.memo[f.key]

def labarcs(t): return {a[1] for a in atoms(t) if a[0] == "lab"}
def tgtarcs(t): return {a[1] for a in atoms(t) if a[0] == "tgt"}
def wterms(t):
    """exact weight as a multiset of atoms, None if it cannot be said"""
    if t[0] in ("def", "empty") or t == ("const", 0): return ()
    if t[0] == "sum": 
        l = []
        for x in t[1]:
            r = wterms(x)
            if r is None: return None
            l += r
        return tuple(sorted(l, key=repr))
    if t[0] in ("w", "fw", "fld"): return (t,)
    if t[0] == "const": return (t,)
    return None
def opaque(t): return t is None or t[0] in ("unk", "dep", "fun", "proj", "par", "el", "glob", "mem", "alt", "lab", "st", "iter")
def show(t):
    if t is None: return "?"
    if t[0] == "def": return "the default weight"
    if t[0] in ("w",): return "the weight of the arc"
    if t[0] == "fw": return "the weight of a final state"
    if t[0] == "sum": return " + ".join(show(x) for x in t[1])
    if t[0] in ("op", "conv"): return "a changed weight"
    if t[0] == "const": return "the constant %s" % t[1]
    if t[0] == "fld": return "field " + t[2]
    return "another value"

def hasdouble(prog, t, f):
    return None

def arcs(prog, res, S):
    """an arc made from other arcs carries their weight"""
    done = {}
    for f in list(prog.fns.values()):
        if f.body is None: continue
        for s in S.of(f):
            if s.kind != "arc": continue
            res.count("arc_insertions")
            l, tg, w = s.terms
            A = labarcs(l)
            if not A:
                T = tgtarcs(tg) if tg is not None else set()
                if len(T) == 1 and l[0] == "const" and tg[0] in ("tgt",): A = T
            flds = {a for a in atoms(l) if a[0] == "fld"} if not A else set()
            if not A and len(flds) == 1:
                want = fieldweight(prog, S, f, next(iter(flds)))
                if want is None: continue
                res.count("arcs_derived_from_records")
                g = wterms(w)
                if g is None: 
                    if w[0] in ("op", "conv"): report(res, done, s, "the weight of the arc is changed")
                    continue
                if g != (want,): report(res, done, s, "an arc whose label comes from a record is given %s instead of the weight of that record" % show(w))
                continue
            if not A: continue
            res.count("arcs_derived_from_arcs")
            if any(isinstance(e, tuple) and e[:1] == ("par",) for e in A) and haspar(w) and not any(a[0] == "w" for a in atoms(w)): continue     # decided at the callers
            g = wterms(w)
            if g is None:
                if w[0] in ("op", "conv"): report(res, done, s, "the weight of the arc is changed on the way")
                elif not opaque(w): pass
                res.count("undecided_weights"); continue
            want = tuple(sorted([("w", e) for e in A], key=repr))
            if g != want: report(res, done, s, "an arc made from %d arc%s is given %s, not %s" % (len(A), "s" if len(A) > 1 else "", show(w), "the sum of their weights" if len(A) > 1 else "the weight of that arc"))
def report(res, done, s, text):
    key = (s.f.qn, s.node.line)
    if key in done: return
    done[key] = 1
    via = " (through %s)" % ", ".join("%s" % c.fn.qn for c in s.chain if c.fn is not None) if s.chain else ""
    n = sum(1 for k in done if k[0] == s.f.qn)
    res.violation("arc|%s|%d" % (s.f.qn, n), "%s: %s%s" % (where(s.node, s.f), text, via))
def fieldweight(prog, S, f, fl):
    """the weight field of the record the label field belongs to"""
    el = fl[1]
    if el[0] != "el": return None
    for n in fnodes(f):
        if n.k == "MemberExpr" and n.a.get("n") == fl[2] and n.a.get("m"):
            rec = n.a["m"].rsplit("::", 1)[0]
            r = prog.records.get(rec)
            if r is None: continue
            d = [x["n"] for x in r["fields"] if ts(x["t"]) == "double"]
            if len(d) == 1: return ("fld", el, d[0])
    return None

# ------------------------------------------------------------------------------------------------ final states
def finals(prog, res, S):
    """a final state made from a final state carries its weight"""
    done = {}
    for f in list(prog.fns.values()):
        if f.body is None: continue
        for s in S.of(f):
            if s.kind != "fin": continue
            res.count("final_insertions")
            st, _, w = s.terms
            E = {a[1] for a in atoms(st) if a[0] == "st"}
            if len(E) != 1 or st[0] not in ("st", "look"): continue
            res.count("finals_derived_from_finals")
            g = wterms(w)
            if g is None:
                if w[0] in ("op", "conv"): frep(res, done, s, "the weight of the final state is changed on the way")
                continue
            want = (("fw", next(iter(E))),)
            if g != want: frep(res, done, s, "a final state made from another one is given %s instead of its weight" % show(w))
def frep(res, done, s, text):
    key = (s.f.qn, s.node.line)
    if key in done: return
    done[key] = 1
    res.violation("final|%s|%d" % (s.f.qn, len([k for k in done if k[0] == s.f.qn])), "%s: %s" % (where(s.node, s.f), text))

def ismember(e, nm="finals"):
    """object whose member nm the expression is: ('this',) or access path"""
    e = strip(e)
    if e is None or e.k != "MemberExpr" or e.a.get("dk") != "Field" or not isfinals(ts(e.t)): return None
    if e.a.get("m", "").rsplit("::", 1)[0] != "Transducer": return None
    return access_path(e.c[0]) if e.c else ("this",)

def finobj(e):
    """the finals map e denotes: access path of the object, None if it is none"""
    return ismember(e)
def opens(n):
    """(effect, path of the object) of n on the finals of an object: clear, swap, assign, insert"""
    if n.k == "CXXMemberCallExpr" and obj(n) is not None:
        p = finobj(obj(n))
        if p is not None:
            if base(n) == "clear": return "clear", p, None
            if base(n) == "swap": return "swap", p, cargs(n)[0]
            if base(n) in INS: return "insert", p, None
    if n.k == "CXXMemberCallExpr" and base(n) == "swap" and cargs(n):
        p = finobj(cargs(n)[0])
        if p is not None: return "swap", p, obj(n)
    if n.k == "CallExpr" and base(n) == "swap" and len(cargs(n)) == 2:
        a, b = cargs(n)
        for x, y in ((a, b), (b, a)):
            p = finobj(x)
            if p is not None: return "swap", p, y
    a = asg(n)
    if a and a[1] is not None:
        p = finobj(a[0])
        if p is not None: return "assign", p, a[1]
    return None
def touches(prog, f):
    c = getattr(prog, "_touch", None)
    if c is None: c = prog._touch = {}
    if f.key not in c:
        c[f.key] = False
        c[f.key] = any(opens(n) and opens(n)[1] == ("this",) or n.k == "CXXMemberCallExpr" and prog.fns.get(n.a.get("fn")) is not None and prog.fns[n.a["fn"]].cls == "Transducer"
                       and obj(n) is not None and access_path(obj(n)) == ("this",) and touches(prog, prog.fns[n.a["fn"]]) for n in fnodes(f))
    return c[f.key]
def local_map(f, e):
    """the local variable (declared in f) an expression denotes"""
    x = strip(e)
    while x is not None and x.k == "CallExpr" and base(x) == "move" and cargs(x): x = strip(cargs(x)[0])
    if x is None or x.k != "DeclRefExpr": return None
    for n in fnodes(f):
        for v in n.a.get("vars", ()) or ():
            if v.d == x.a.get("d") and not v.t.ref: return v
    return None

class Joined(CProp):
    """the finals of *this: how many there are (0, 1, more), whether one has a weight of its own"""
    def __init__(self, prog, root, S): super().__init__(prog); self.root = root; self.S = S; self.hits = {}
    def keep(self, v, x): return x is None or isinstance(x, tuple) or v is not None and v.t is not None and v.t.bool
    def declare(self, fl, f, n, v, st):
        st = super().declare(fl, f, n, v, st); x = self.env(st).get((v.d,))
        if self.keep(v, x) or v.init is not None and any(y.k == "MemberExpr" and y.a.get("n") == "finals" for y in v.init.walk()): return st
        return self.set(st, (v.d,), TOP)
    def assign(self, f, n, lhs, val, st):
        if isinstance(val, int) and not (strip(lhs) is not None and strip(lhs).t is not None and strip(lhs).t.bool): val = TOP
        return super().assign(f, n, lhs, val, st)
    def result(self, f, n, st, v): return super().result(f, n, st, v if n.t is not None and (n.t.isint or n.t.ref) else TOP)
    def descend(self, f, n, g, st):
        return g.cls == "Transducer" and touches(self.p, g) and (n.k != "CXXMemberCallExpr" or self.path(obj(n), st) == ("this",))
    def eval(self, n, st):
        m = strip(n)
        if m is not None:
            if m.k in ("MemberExpr", "DeclRefExpr") and m.a.get("n") == "default_weight": return 0
            if m.k == "FloatingLiteral" and m.a.get("fv") is not None and float(m.a["fv"]) == 0: return 0
            if m.k == "MemberExpr" and m.a.get("n") == "second" and ts(m.t) == "double" and st[1][0] == 1:
                t = Ev(self.S.P, m.fn, {}).ev(m)
                if t[0] == "fw" and t[1][1] == ("this", "finals"): return 7 if st[1][1] else 0
        return super().eval(n, st)
    def model(self, fl, f, n, qn, st):
        k, W, unk, car = st[1]
        o = opens(n)
        if o and (o[1] == ("this",)):
            eff, p, x = o
            if eff == "clear":
                if W and k and not unk and not (car and self.carried(f, n)) and not self.emptied(f): self.hits.setdefault((f.key, n.id), (f, n, "clear"))
                return [(TOP, (st[0], (0, 0, 0, 0)))]
            if eff == "insert":
                w = [s for s in self.S.of(f) if s.node is n]
                dflt = all(s.terms[2] is not None and wterms(s.terms[2]) == () for s in w)
                return [(TOP, (st[0], (min(2, k + 1), W if dflt else 1, unk, car)))]
            if eff in ("swap", "assign"):
                v = local_map(f, x)
                if v is not None and W and k and not unk and not self.filled(f, v) and not (car and self.carried(f, n)) and not self.emptied(f): self.hits.setdefault((f.key, n.id), (f, n, "swap"))
                return [(TOP, (st[0], (2, 1 if v is None or self.filled(f, v) else 0, unk, 0)))]
        if n.k == "CXXMemberCallExpr" and obj(n) is not None and finobj(obj(n)) == ("this",):
            if base(n) == "size": return [(k if k < 2 else 3, st)]
            if base(n) == "empty": return [(int(k == 0), st)]
        return None
    def elem(self, fl, f, n, st):
        if n.k in ("BinaryOperator",) and opens(n) and opens(n)[0] == "assign":
            r = self.model(fl, f, n, "", st)
            if r: return [s for _, s in r]
        if n.id in self.carriers(f) and not st[1][3]: st = (st[0], st[1][:3] + (1,))
        return super().elem(fl, f, n, st)
    def carriers(self, f):
        c = self.__dict__.setdefault("_car", {})
        if f.key not in c: c[f.key] = {s.node.id for s in self.S.of(f) if s.kind == "arc" and s.own and s.terms[2] is not None and any(a[0] == "fw" and a[1][1] == ("this", "finals") for a in atoms(s.terms[2]))}
        return c[f.key]
    def carried(self, f, n):
        """an arc inserted earlier in the function has the weight of a final state"""
        order = {x.id: i for i, x in enumerate(fnodes(f))}
        return any(s.kind == "arc" and s.own and order.get(s.node.id, 1 << 30) < order.get(n.id, 0) and any(a[0] == "fw" and a[1][1] == ("this", "finals") for a in atoms(s.terms[2])) for s in self.S.of(f) if s.terms[2] is not None)
    def emptied(self, f):
        """the whole automaton is replaced, not rebuilt from itself"""
        for n in fnodes(f):
            if n.k == "CXXOperatorCallExpr" and callee(n) and callee(n).endswith("operator=") and len(n.c) >= 2:
                x, y = strip(n.c[-2]), strip(n.c[-1])
                if x is not None and y is not None and x.k == y.k == "MemberExpr" and x.a.get("n") == y.a.get("n") == "transitions" and x.c and strip(x.c[0]).k == "CXXThisExpr" and y.c and strip(y.c[0]).k == "DeclRefExpr" and any(q.d == strip(y.c[0]).a.get("d") for q in f.params): return True
        return any(n.k == "CXXMemberCallExpr" and base(n) == "clear" and obj(n) is not None and strip(obj(n)).k == "MemberExpr" and strip(obj(n)).a.get("n") == "transitions" for n in fnodes(f))
    def filled(self, f, v):
        ss = [s for s in self.S.of(f) if s.kind == "fin" and s.cont and s.cont[0] and s.cont[0][0] == v.d]
        if not ss: return True                       # filled in a way that is not followed
        return any(s.terms[2] is None or any(a[0] == "fw" for a in atoms(s.terms[2])) or opaque(s.terms[2]) for s in ss)
    def edge(self, fl, f, cond, val, st):
        if not isinstance(val, tuple) and not isinstance(self.eval(cond, st), (int, str)):
            p = cond
            while p is not None and p.k not in ("IfStmt", "ConditionalOperator") + LOOPS: p = p.parent
            if p is not None and p.k in LOOPS and val is False and not st[1][3] and st[1][0] and any(x.id in self.carriers(f) for x in p.walk()): st = (st[0], st[1][:3] + (1,))
            if p is not None and p.k == "IfStmt" and any(opens(x) or x.k in CALLS and x.a.get("fn") in self.p.fns and touches(self.p, self.p.fns[x.a["fn"]]) for x in p.walk()):
                st = (st[0], st[1][:2] + (1, st[1][3]))
        return super().edge(fl, f, cond, val, st)

def joins(prog, S, h):
    """after h no final state of *this has a weight of its own"""
    c = getattr(prog, "_joins", None)
    if c is None: c = prog._joins = {}
    if h.key not in c:
        c[h.key] = False
        try:
            ex = set()
            for k in (1, 2):
                cl = Joined(prog, h, S); ex |= set(Flow(prog, cl).run(h, cl.mk({}, (k, 1, 0, 0))))
            c[h.key] = bool(ex) and all(x[1][1] == 0 and not x[1][2] for x in ex)
        except AnalysisBroken: pass
    return c[h.key]

def cleared(prog, res, S):
    """the weights of final states are not thrown away with the final states"""
    for f in prog.fns.values():
        if f.cls != "Transducer" or f.body is None or not f.cfgj: continue
        if not any(opens(n) and opens(n)[1] == ("this",) and opens(n)[0] in ("clear", "swap", "assign") for n in fnodes(f)): continue
        with res.guard(f.qn):
            res.count("operations_replacing_finals")
            hits = {}
            for k in (1, 2):
                cl = Joined(prog, f, S)
                Flow(prog, cl).run(f, cl.mk({}, (k, 1, 0, 0)))
                for h, v in cl.hits.items(): hits.setdefault(h, v + (k,))
            for (fk, nid), (g, n, how, k) in sorted(hits.items(), key=lambda x: x[1][1].line or 0):
                if g is not f: continue              # reported where it happens
                res.violation("cleared|%s" % f.qn, "%s: the final states are replaced while %s may have a weight of its own, which nothing has taken over" % (where(n, g), "the only one" if k == 1 else "some"))

def returned(prog, res, S):
    """a final state handed to the caller has had its weight put on a transition"""
    for f in prog.fns.values():
        if f.cls != "Transducer" or f.body is None or clean(ts(f.ret)) != "int": continue
        for n in fnodes(f):
            if n.k != "ReturnStmt" or not n.c: continue
            for terms, ch in S.P.alts(f, [n.c[0]]):
                E = {a[1] for a in atoms(terms[0]) if a[0] == "st"}
                if len(E) != 1 or terms[0][0] not in ("st", "look"): continue
                eid, path = next(iter(E))
                if not path or path[-1] != "finals": continue
                res.count("final_states_returned")
                if any(s.kind == "arc" and s.own and s.terms[2] is not None and any(a[0] == "fw" and a[1][1] == path for a in atoms(s.terms[2])) for s in S.of(f)): continue
                jd = {access_path(obj(m)) for m in fnodes(f) if m.k == "CXXMemberCallExpr" and prog.fns.get(m.a.get("fn")) is not None and prog.fns[m.a["fn"]].cls == "Transducer" and obj(m) is not None and joins(prog, S, prog.fns[m.a["fn"]])}
                if path[:-1] in jd: continue
                res.violation("returned|%s" % f.qn, "%s: a final state is returned as the end of what was inserted, and the weight it may have is dropped" % where(n, f))

def conj(c):
    """calls that hold when the condition holds"""
    c = strip(c)
    if c is None: return
    if c.k == "BinaryOperator" and c.a.get("op") in ("&&", "||"):
        yield from conj(c.c[0]); yield from conj(c.c[1]); return
    yield c
def finaltest(c):
    """object whose state c tests for being final"""
    if c.k == "CXXMemberCallExpr" and base(c) == "isFinal" and obj(c) is not None: return access_path(obj(c))
    if c.k == "CXXMemberCallExpr" and base(c) in ("count", "contains") and obj(c) is not None: return finobj(obj(c))
    return None
def products(prog, res, S):
    """final states of a product carry the weights of the final states they stand for"""
    done = set()
    for f in prog.fns.values():
        if f.body is None: continue
        ss = S.of(f)
        contr = {S.P.src.get(e) for s in ss if s.kind == "arc" for e in labarcs(s.terms[0])}
        contr = {p[:-2] if p and p[-1] == "[]" else p[:-1] if p else None for p in contr if p and "transitions" in p}
        if not contr: continue
        jd = {access_path(obj(n)) for n in fnodes(f) if n.k == "CXXMemberCallExpr" and prog.fns.get(n.a.get("fn")) is not None and prog.fns[n.a["fn"]].cls == "Transducer" and obj(n) is not None
              and any(opens(x) and opens(x)[0] == "clear" for x in fnodes(prog.fns[n.a["fn"]])) and joins(prog, S, prog.fns[n.a["fn"]])}
        bynode = {}
        for s in ss:
            if s.kind == "fin": bynode.setdefault(s.node.id, []).append(s)
        for nid, l in bynode.items():
            n = l[0].node; p = n; need = set()
            while p.parent is not None:
                q = p.parent
                if q.k == "IfStmt" and q.a.get("then") is p: need |= {finaltest(c) for c in conj(q.a.get("cond"))}
                p = q
            for o in need - {None}:
                if o not in contr or o in jd: continue
                res.count("product_finals")
                if any(s.terms[2] is None or opaque(s.terms[2]) or s.terms[2][0] in ("op", "fun") or any(a[0] == "fw" and a[1][1] == o + ("finals",) for a in atoms(s.terms[2])) for s in l): continue
                if (f.key, n.id) in done: continue
                done.add((f.key, n.id))
                res.violation("product|%s" % f.qn, "%s: a final state that stands for a final state of %s is given %s, without the weight that state has there" % (where(n, f), "this transducer" if o == ("this",) else "the other transducer", show(l[0].terms[2])))

# ------------------------------------------------------------------------------------------------ running
SEQ = "std::vector<std::pair<int, double>"
W = ("W",)
class Run(CProp):
    """one transition taken: its weight is recorded before its target is entered"""
    def __init__(self, prog, tag): super().__init__(prog); self.tag = tag; self.hits = {}; self.seen = 0; self.kc = {}
    def dest(self, n, fld):
        if n.k == "ArraySubscriptExpr":
            m = strip(n.c[0])
            return m is not None and m.k == "MemberExpr" and m.a.get("m") == "Dest::" + fld
        return False
    def eval(self, n, st):
        m = strip(n)
        if m is not None:
            if self.dest(m, "out_weight"): return W
            if self.dest(m, "out_tag"): return self.tag
            if self.dest(m, "dest"): return ("dest",)
            if m.k in ("MemberExpr", "DeclRefExpr") and m.a.get("n") == "default_weight": return 0
            if m.k == "FloatingLiteral" and m.a.get("fv") is not None and float(m.a["fv"]) == 0: return 0
            if m.k == "MemberExpr" and m.a.get("n") == "first" and "Dest" in (m.a.get("m") or "") and self.nonempty(m): return 5
            if m.k == "DeclRefExpr" and m.a.get("d") in self.keys(m.fn): return 5
            if m.k == "BinaryOperator" and m.a.get("op") in ("==", "!="):
                a, b = self.eval(m.c[0], st), self.eval(m.c[1], st)
                if W in (a, b) and 0 in (a, b) and not isinstance(a, bool): return int(m.a["op"] == "!=")
        return super().eval(n, st)
    def nonempty(self, m): return True
    def keys(self, f):
        """variables the transitions are looked up with: the symbol of the transition taken"""
        if f is None: return ()
        if f.key not in self.kc:
            self.kc[f.key] = {strip(a).a.get("d") for n in fnodes(f) if n.k == "CXXMemberCallExpr" and base(n) in ("find", "at", "equal_range", "lower_bound") and obj(n) is not None and "Dest" in ts(strip(obj(n)).t) for a in cargs(n) if strip(a) is not None and strip(a).k == "DeclRefExpr"}
        return self.kc[f.key]
    def assign(self, f, n, lhs, val, st): return super().assign(f, n, lhs, val if val in (W, ("dest",)) or isinstance(val, tuple) and val[:1] == ("ref",) else TOP, st)
    def declare(self, fl, f, n, v, st):
        st = super().declare(fl, f, n, v, st)
        x = self.env(st).get((v.d,))
        return st if x is None or isinstance(x, tuple) else self.set(st, (v.d,), TOP)
    def second(self, n, st):
        """weight of the pair an argument list makes"""
        a = [x for x in cargs(n) if x.k != "CXXDefaultArgExpr"]
        if len(a) == 2: return self.eval(a[1], st)
        x = strip(a[0]) if a else None
        while x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and len(x.c) == 1: x = strip(x.c[0])
        if x is not None and (x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") or x.k == "CallExpr" and base(x) == "make_pair"):
            k = cargs(x) if x.k == "CallExpr" else x.c
            if len(k) == 2: return self.eval(k[1], st)
        if x is not None and x.k == "DeclRefExpr": return TOP, "unk"
        return TOP
    def model(self, fl, f, n, qn, st):
        b = base(n)
        if n.k == "CXXMemberCallExpr" and b in ("push_back", "emplace_back") and obj(n) is not None and SEQ in ts(strip(obj(n)).t):
            v = self.second(n, st)
            if v == W: return [(TOP, (st[0], ("rec", st[1][1])))]
            if v == (TOP, "unk"): return [(TOP, (st[0], ("rec", st[1][1])))]
            return [(TOP, st)]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and qn.endswith("TNodeState") and len(n.c) >= 3:
            if self.eval(n.c[0], st) == ("dest",):
                self.seen += 1
                if st[1][0] != "rec" and not st[1][1]: self.hits[(f.key, n.id)] = (f, n)
                return [(TOP, (st[0], ("no", 0)))]
        if n.k == "CXXMemberCallExpr" and b in ("emplace_back",) and obj(n) is not None and "TNodeState" in ts(strip(obj(n)).t) and len(cargs(n)) >= 3 and self.eval(cargs(n)[0], st) == ("dest",):
            self.seen += 1
            if st[1][0] != "rec" and not st[1][1]: self.hits[(f.key, n.id)] = (f, n)
            return [(TOP, (st[0], ("no", 0)))]
        return None
    def descend(self, f, n, g, st):
        return g.body is not None and any(self.dest(x, "dest") or SEQ in ts(x.t) for x in fnodes(g)) and any(self.eval(a, st) in (W, ("dest",)) or "Dest" in ts(a.t) for a in cargs(n))
    def edge(self, fl, f, cond, val, st):
        if not isinstance(val, tuple) and not isinstance(self.eval(cond, st), (int, str)):
            p = cond
            while p is not None and p.k not in ("IfStmt",) + LOOPS: p = p.parent
            own = any(self.dest(x, "out_tag") for x in cond.walk())
            if p is not None and p.k == "IfStmt" and not own and any(x.k == "CXXMemberCallExpr" and base(x) in ("push_back", "emplace_back") and obj(x) is not None and SEQ in ts(strip(obj(x)).t) for x in p.walk()):
                st = (st[0], (st[1][0], 1))
        return super().edge(fl, f, cond, val, st)

def running(prog, res):
    n = 0
    for f in prog.fns.values():
        if f.body is None or not f.cfgj: continue
        if not any(x.k == "MemberExpr" and x.a.get("m") == "Dest::dest" for x in fnodes(f)): continue
        if f.cls != "State": continue
        with res.guard(f.qn):
            for tag in (0, 5):
                cl = Run(prog, tag); fl = Flow(prog, cl); fl.run(f, cl.mk({}, ("no", 0)))
                if cl.seen: res.count("transitions_taken"); n += 1
                for (fk, nid), (g, x) in cl.hits.items():
                    res.violation("run|%s" % g.qn, "%s: a transition%s is taken and its weight is not recorded" % (where(x, g), " without output" if tag == 0 else ""))
    if not n: raise AnalysisBroken("no code that follows transitions found")

def nodefinals(s):
    n, a = targs(s)
    return n in ("std::map", "std::unordered_map") and len(a) >= 2 and clean(a[0]) == "Node *" and clean(a[1]) == "double"
def totals(prog, res, S):
    """the weight of a reading is that of its final state and of all its steps"""
    P = S.P
    for f in prog.fns.values():
        if f.body is None or f.cls != "State": continue
        look = [n for n in fnodes(f) if n.k == "CXXMemberCallExpr" and base(n) in ("find", "count", "at", "contains") and obj(n) is not None and nodefinals(ts(strip(obj(n)).t))]
        if not look: continue
        for n in fnodes(f):
            if not (n.k == "CXXMemberCallExpr" and base(n) in ("push_back", "emplace_back") and obj(n) is not None): continue
            s = ts(strip(obj(n)).t)
            if not (targs(s)[0] == "std::vector" and targs(s)[1] and targs(targs(s)[1][0])[0] == "std::pair"): continue
            el = targs(targs(s)[1][0])[1]
            if len(el) != 2 or clean(el[1]) != "double": continue
            text = "basic_string" in el[0]
            if text:
                a = cargs(n); e = a[1] if len(a) == 2 else a[0]
                res.count("readings_weighed")
                ok = False; got = None
                for terms, ch in P.alts(f, [e]):
                    w = terms[0] if len(a) == 2 else proj(1, terms[0])
                    got = w
                    ats = atoms(w)
                    if w == UNK or w[0] in ("fun", "el", "par"): ok = True
                    if any(x[0] == "fw" for x in ats) and any(x[0] == "proj" and x[1] == 1 for x in ats): ok = True
                if not ok:
                    res.violation("total|%s" % f.qn, "%s: the weight given to a reading is not the weight of its final state plus those of its steps" % where(n, f))
                x = strip(e)
                v = weightvar(n, e)
                if v is not None: fresh(prog, res, f, n, v)
def weightvar(n, e):
    last = None
    for x in e.walk():
        if x.k == "DeclRefExpr" and ts(x.t) == "double": last = x
    return last
def fresh(prog, res, f, n, v):
    """the sum starts anew for each reading"""
    loop = n.parent
    while loop is not None and loop.k not in LOOPS: loop = loop.parent
    if loop is None: return
    body = loop.a.get("body"); ids = {x.id for x in body.walk()} if body is not None else set()
    decl = [m for m in fnodes(f) for y in (m.a.get("vars", ()) or ()) if y.d == v.a["d"]]
    if not decl or decl[0].id in ids: return
    for m in fnodes(f):
        a = asg(m)
        if m.id in ids and a and a[1] is not None and strip(a[0]) is not None and strip(a[0]).k == "DeclRefExpr" and strip(a[0]).a.get("d") == v.a["d"] and m.a.get("op") == "=": return
    res.violation("fresh|%s" % f.qn, "%s: the sum of the weights is not started anew for each reading" % where(n, f))
def restarts(prog, res, S):
    """a word that goes on after a final state keeps the weight of that final state"""
    P = S.P
    for f in prog.fns.values():
        if f.body is None or f.cls != "State": continue
        look = [n for n in fnodes(f) if n.k == "CXXMemberCallExpr" and base(n) in ("find", "count", "at", "contains") and obj(n) is not None and nodefinals(ts(strip(obj(n)).t))]
        makes = [n for n in fnodes(f) if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (callee(n) or "").endswith("TNodeState") and len(n.c) >= 3]
        if not look or not makes: continue
        res.count("restarts")
        ok = False
        for n in fnodes(f):
            if n.k == "CXXMemberCallExpr" and base(n) in ("push_back", "emplace_back") and obj(n) is not None and SEQ in ts(strip(obj(n)).t):
                for terms, ch in P.alts(f, list(cargs(n))):
                    if any(a[0] == "fw" for t in terms for a in atoms(t)) or any(t[0] in ("fun", "unk") for t in terms) : ok = True
            if n.k in CALLS and n.a.get("fn") in prog.fns:
                for terms, ch in P.alts(f, list(cargs(n))):
                    if any(a[0] == "fw" for t in terms for a in atoms(t)): ok = True
        if not ok: res.violation("restart|%s" % f.qn, "%s: a compound goes on after a final state and the weight of that state is dropped" % where(makes[0], f))

def P09(prog, res, tier):
    S = Sinks(prog)
    S.P.src = {}
    arcs(prog, res, S)
    finals(prog, res, S)
    cleared(prog, res, S)
    returned(prog, res, S)
    products(prog, res, S)
    running(prog, res)
    totals(prog, res, S)
    restarts(prog, res, S)
    if res.cov.get("arcs_derived_from_arcs", 0) < 5: raise AnalysisBroken("only %d arcs derived from arcs found" % res.cov.get("arcs_derived_from_arcs", 0))
    res.rules += ["arc made from arcs: weight = sum of their weights", "final made from final: its weight", "finals replaced only when their weights are taken over",
                  "a transition taken: weight recorded", "reading: final weight + weights of the steps"]
