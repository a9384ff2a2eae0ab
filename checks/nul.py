"""P07: every NUL-terminated segment of the input gives one NUL-terminated, flushed segment of output."""
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, strip, cargs, obj, callee, const_of, joined, cfg, strlit
from sa.cprop import CProp, TOP
from .hist import reach, callees, modes

CHR = ("sym", "chr")                 # some character that is neither NUL nor the end of the file
EOFC = 0xFFFF
END = ("sym", "end")                 # the end iterator; NUL is in no set of characters
IN = "InputFile"
QT = ("std::queue<", "std::deque<")
SPACEY = {"u_isspace", "u_isdigit", "u_isalpha", "u_isalnum", "u_ispunct", "u_isupper", "u_islower"}
def base(qn): return (qn or "").rsplit("::", 1)[-1]
def icu(qn):
    b = base(qn)
    return b[:-3] if b[-3:-2] == "_" and b[-2:].isdigit() else b
def is_in(t): return t is not None and IN in t.s and "std::" not in t.s
def is_out(t): return t is not None and "UFILE" in t.s
def qfield(o, st=None):
    """the member queue an expression denotes"""
    x = strip(o) if o is not None else None
    if x is not None and x.k == "MemberExpr" and x.a.get("dk") == "Field" and x.t is not None and x.t.s.replace("const ", "").startswith(QT) and x.c and strip(x.c[0]).k == "CXXThisExpr": return x.a["n"]
    return None

def relevant(prog, f, full):
    """locals that can hold a character of the stream, the size or emptiness of a queue, or the outcome of reading;
    the others are not followed (full: all flags are)"""
    key = (f.key, full)
    c = prog.__dict__.setdefault("_nulrel", {})
    if key in c: return c[key]
    out = {p.d for p in f.params}
    def src(e):
        if e is None: return False
        for x in e.walk():
            if x.k in CALLS and ((callee(x) or "").startswith((IN + "::", "StreamReader::")) or any(is_in(a.t) for a in cargs(x) if a is not None)): return True
            if x.k == "CXXMemberCallExpr" and (qfield(obj(x)) and base(callee(x)) in ("empty", "size") or (callee(x) or "").startswith("Buffer")): return True
            if x.k == "MemberExpr" and x.a.get("n") in ("at_null", "at_eof"): return True
            if x.k == "DeclRefExpr" and x.a.get("d") in out: return True
        return False
    szs = {v.d for n in fnodes(f) if n.k == "DeclStmt" for v in n.a.get("vars", ()) if v.init is not None and any(x.k == "CXXMemberCallExpr" and qfield(obj(x)) and base(callee(x)) == "size" for x in v.init.walk())}
    while True:
        n0 = len(out)
        for n in fnodes(f):
            if n.k == "DeclStmt":
                for v in n.a.get("vars", ()):
                    if v.t.ref or v.t.ptr or "StreamReader" in v.t.s or src(v.init) or full and v.t.bool: out.add(v.d)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.a.get("op") or "") not in ("==", "!=", "<=", ">=") and (n.a.get("op") or "").endswith("="):
                x = strip(n.c[0])
                if x is not None and x.k == "DeclRefExpr" and src(n.c[1]): out.add(x.a.get("d"))
            elif n.k == "BinaryOperator" and n.a.get("op") in ("<", "!=", ">") :
                x, y = strip(n.c[0]), strip(n.c[1])
                for p, q in ((x, y), (y, x)):
                    if p is not None and q is not None and p.k == q.k == "DeclRefExpr" and q.a.get("d") in szs: out.add(p.a.get("d"))
        if len(out) == n0: break
    c[key] = out
    return out
class Lean(CProp):
    full = False
    def keep(self, path):
        h = path[0]
        if h in ("tmp", "ret", "this", "obj"): return h != "this" or len(path) < 2 or path[-1] in ("at_null",)
        return self.relv is None or h in self.relv
    def set(self, st, path, v):
        if v is not TOP and not self.keep(path): v = TOP
        return CProp.set(self, st, path, v)
    def scope(self, prog, f):
        """relevant locals of everything that can be entered from f"""
        r = set()
        for g in reach(prog, [f]).values():
            if g.file.startswith("/usr") or g.body is None: continue
            r |= relevant(prog, g, self.full)
        self.relv = r
    relv = None
    def unbind(self, f, n, g, st, x):
        x = CProp.unbind(self, f, n, g, st, x)
        if f.key == g.key: return x
        loc = getattr(g, "_locals", None)
        if loc is None: loc = g._locals = {v.d for m in fnodes(g) if m.k == "DeclStmt" for v in m.a.get("vars", ())}
        return self.drop(x, lambda k: k[0] in loc)
    # temporaries die with their statement
    def tidy(self, f, st): return self.drop(st, lambda k: k[0] == "tmp" and k[1] == f.key)
    def elem(self, fl, f, n, st):
        r = self.elem1(fl, f, n, st)
        if r and (n.k == "DeclStmt" or n.parent is not None and n.parent.k in ("CompoundStmt", "CaseStmt", "DefaultStmt") or n.parent is not None and n.parent.k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt") and n.parent.a.get("cond") is not n):
            r = tuple(self.tidy(f, s) for s in r)
        return r
    def elem1(self, fl, f, n, st): return CProp.elem(self, fl, f, n, st)
    def eval(self, n, st):
        if n is not None and n.fn is not None and n.k in ("BinaryOperator", "MemberExpr", "DeclRefExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
            v = self.env(st).get(("tmp", n.fn.key, "t", n.id))
            if v is not None: return v
        return CProp.eval(self, n, st)
    def edge(self, fl, f, cond, val, st):
        r = self.edge1(fl, f, cond, val, st)
        if r is not None and cond is not None:
            p = cond.parent; q = cond; j = False
            while q is not None and (q is cond or q.k in ("BinaryOperator", "UnaryOperator", "ParenExpr", "ImplicitCastExpr", "ExprWithCleanups")):
                if joined(f, cfg(f), None, q): j = True
                q = q.parent
            if j:                                               # tested again, as a whole
                x = strip(cond)
                if x is not None and isinstance(val, bool):
                    while x.k == "UnaryOperator" and x.a.get("op") == "!": x = strip(x.c[0]); val = not val
                    if x.k != "BinaryOperator" or x.a.get("op") not in ("&&", "||", "="): r = self.set(r, ("tmp", f.key, "t", x.id), int(val))
                return r
            while p is not None and p.k in ("BinaryOperator", "UnaryOperator", "ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and p.a.get("op", "!") in ("&&", "||", "!"): p = p.parent
            if p is not None and p.k in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "SwitchStmt"): r = self.tidy(f, r)
        return r
    def edge1(self, fl, f, cond, val, st): return CProp.edge(self, fl, f, cond, val, st)

class Seg(Lean):
    """ev = (look: characters put back, top last; taken: a NUL has been taken from the stream and not put back;
             out: None / "nul" (NUL written, not flushed); queues known to be empty; end of file seen; replay: text already read is to be read again)"""
    limit = 20000
    def __init__(self, prog, rep, level):
        CProp.__init__(self, prog); self.rep = rep; self.level = level; self.calls = 0; self.nuls = 0; self.sites = set()
        self.readers = {f.key for f in prog.fns.values() if f.body is not None and any(is_in(p.t) for p in f.params) and not any(is_out(p.t) for p in f.params) and f.ret is not None and f.ret.isint and not f.ret.bool and f.cls == "FSTProcessor"}
        self.pushes = {}
    def start(self, eof): return self.mk({}, ((), False, None, frozenset(), eof, False))
    def up(self, st, **kw):
        names = ("look", "taken", "out", "empty", "eof", "replay")
        return (st[0], tuple(kw.get(n, v) for n, v in zip(names, st[1])))
    def ev(self, st): return dict(zip(("look", "taken", "out", "empty", "eof", "replay"), st[1]))
    def binop(self, op, a, b):
        if a == b == END and op in ("==", "!="): return int(op == "==")
        for x, y in ((a, b), (b, a)):
            if x == CHR and isinstance(y, int) and y in (0, EOFC, -1):
                if op == "==": return 0
                if op == "!=": return 1
            if isinstance(x, tuple) and x[:1] == ("cnt",) and isinstance(y, int): return TOP
        return CProp.binop(self, op, a, b)
    def eval(self, n, st):
        v = Lean.eval(self, n, st)
        if n is not None and n.k == "UnaryOperator" and n.a.get("op") == "!":
            x = Lean.eval(self, n.c[0], st)
            if x == CHR: return 0
        if v is TOP and n is not None and n.k == "UnaryOperator" and n.a.get("op") in ("++", "--"):
            x = Lean.eval(self, n.c[0], st)             # evaluated after its effect
            if isinstance(x, tuple) and x[:1] in (("cnt",), ("ix",)): return x if not n.a.get("post") else (x[0], x[1], x[2] + (1 if n.a["op"] == "--" else -1))
        return v
    def edge1(self, fl, f, cond, val, st):
        if not isinstance(val, tuple):
            v = self.eval(cond, st)
            if v == CHR: return st if val else None
            r = self.counter(cond, val, st)
            if r is not False: return r
        else:
            v = self.eval(cond, st)
            if v == CHR:
                p = self.path(cond, st)
                if val[0] == "case":
                    c = const_of(val[1].c[0]) if val[1].c else None
                    if c == 0: return None
                    if p is not None and c is not None: return self.set(st, p, c)
                return st
        return CProp.edge(self, fl, f, cond, val, st)
    def counter(self, cond, val, st):
        """a counter that started as the size of a queue and went down by one per pop: at zero the queue is empty"""
        x = strip(cond); neg = False
        while x is not None and x.k == "UnaryOperator" and x.a.get("op") == "!": x = strip(x.c[0]); neg = not neg
        if x is None: return False
        if neg: val = not val
        op, a = "!=", x
        if x.k == "BinaryOperator" and x.a.get("op") in ("<", ">", "!=", "==", ">=", "<="):
            # an index that goes up to what the size was, by one per pop
            a, b, op = x.c[0], x.c[1], x.a["op"]
            va, vb = self.eval(a, st), self.eval(b, st)
            if isinstance(va, tuple) and va[:1] == ("cnt",) and (isinstance(vb, int) and const_of(b) is None or isinstance(vb, tuple) and vb[:1] == ("ix",)):
                a, b, va, vb = b, a, vb, va; op = {"<": ">", ">": "<", ">=": "<=", "<=": ">="}.get(op, op)
            if isinstance(vb, tuple) and vb[:1] == ("cnt",) and (isinstance(va, int) and const_of(a) is None or isinstance(va, tuple) and va[:1] == ("ix",) and va[1] == vb[1]) and op in ("<", "!=", "==", ">="):
                e = va if isinstance(va, int) else va[2]
                more = (op in ("<", "!=")) == val
                if e != vb[2]: return st
                if not more: return self.up(st, empty=st[1][3] | {vb[1]})
                pa, pb = self.path(a, st), self.path(b, st)
                if pa is not None and pb is not None: st = self.set(self.set(st, pa, ("ix", vb[1], 0)), pb, ("cnt", vb[1], 0))
                return st
            op, a = "!=", x
        if x.k == "BinaryOperator" and x.a.get("op") in (">", "!=", "==", ">=", "<"):
            a, b, op = x.c[0], x.c[1], x.a["op"]
            if const_of(a) is not None: a, b = b, a; op = {"<": ">", ">": "<", ">=": "<="}.get(op, op)
            c = const_of(b)
            if (op, c) == (">=", 1): op = ">"
            elif (op, c) == ("<", 1): op = "=="
            elif c != 0: return False
        v = self.eval(a, st)
        post = strip(a)
        if not (isinstance(v, tuple) and v[:1] == ("cnt",)): return False
        pos = op in (">", "!=")
        if pos == val: return st
        if v[2] == 0: return self.up(st, empty=st[1][3] | {v[1]})
        return st
    def refine(self, cond, val, st):
        n = strip(cond)
        if n is not None and n.k == "BinaryOperator" and n.a.get("op") in ("==", "!=") and (n.a["op"] == "==") == val:
            for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                v = self.eval(y, st); p = self.path(x, st)
                if isinstance(v, int) and p is not None and self.env(st).get(p, TOP) in (TOP, CHR): return self.set(st, p, v)
        return CProp.refine(self, cond, val, st)
    def elem1(self, fl, f, n, st):
        if n.k == "UnaryOperator" and n.a.get("op") in ("++", "--"):
            a = self.eval(n.c[0], st)
            if isinstance(a, tuple) and a[:1] in (("cnt",), ("ix",)):
                d = a[2] + (1 if n.a["op"] == "++" else -1)
                return (self.assign(f, n, n.c[0], (a[0], a[1], d) if abs(d) < 3 else TOP, st),)
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "=":
            q = qfield(n.c[1])
            if q: st = self.qpush(st, q)
            if q and strip(n.c[2]).k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not strip(n.c[2]).c: return (self.up(st, empty=st[1][3] | {q}),)
        return CProp.elem(self, fl, f, n, st)
    def shift(self, st, q, d):
        nd = {}
        for k, v in self.env(st).items():
            if isinstance(v, tuple) and v[:1] == ("cnt",) and v[1] == q:
                if abs(v[2] + d) < 3: nd[k] = ("cnt", q, v[2] + d)
            else: nd[k] = v
        return (frozenset(nd.items()), st[1])
    def qpush(self, st, q): return self.up(self.shift(st, q, -1), empty=st[1][3] - {q})
    # ---- the stream --------------------------------------------------
    def take(self, fl, f, n, st):
        e = self.ev(st); self.calls += 1; self.sites.add((f.key, n.id))
        if e["taken"]:
            self.rep(f, n, "past", "reads on after the NUL that ends a segment")
            return []
        if e["out"] == "nul":
            self.rep(f, n, "flush", "reads more input before the segment that has just ended is flushed"); return []
        if e["look"]:
            v = e["look"][-1]; s = self.up(st, look=e["look"][:-1], taken=(v == 0))
            return [(v, s)]
        if e["eof"]: return [(EOFC, st)]
        return [(0, self.up(st, taken=True)), (EOFC, self.up(st, eof=True)), (CHR, st)]
    def look(self, fl, f, n, st):
        e = self.ev(st); self.calls += 1
        if e["taken"]:
            self.rep(f, n, "past", "looks at the text after the NUL that ends a segment"); return []
        if e["out"] == "nul":
            self.rep(f, n, "flush", "reads more input before the segment that has just ended is flushed"); return []
        if e["look"]: return [(e["look"][-1], st)]
        if e["eof"]: return [(EOFC, st)]
        return [(0, self.up(st, look=(0,))), (EOFC, self.up(st, look=(EOFC,), eof=True)), (CHR, self.up(st, look=(CHR,)))]
    def text(self, a, st):
        """the variable a string (view) is made from"""
        a = strip(a)
        while a is not None:
            if a.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and len(a.c) == 1: a = strip(a.c[0])
            elif a.k == "CXXMemberCallExpr" and "operator" in (callee(a) or "") and obj(a) is not None: a = strip(obj(a))
            else: break
        return self.path(a, st) if a is not None else None
    def model(self, fl, f, n, qn, st):
        b = base(qn); e = None
        if qn == IN + "::get": return self.take(fl, f, n, st)
        if qn == IN + "::peek": return self.look(fl, f, n, st)
        if qn == IN + "::unget":
            v = self.eval(cargs(n)[0], st); e = self.ev(st)
            if v is TOP: v = CHR
            if len(e["look"]) >= 3: self.rep(f, n, "unget", "puts back more characters than fit"); return []
            return [(TOP, self.up(st, look=e["look"] + (v,), taken=e["taken"] and v != 0))]
        if qn == "Alphabet::includeSymbol" and cargs(n):
            p = self.text(cargs(n)[0], st)
            return [(TOP, self.set(st, ("obj", "known", p), 1) if p is not None else st)]
        if (qn or "").startswith("Alphabet::operator()") and n.k == "CXXOperatorCallExpr" and len(n.c) == 3 and not (n.c[2].t is not None and n.c[2].t.isint):
            # a tag of the text need not be in the dictionary: its code is 0 then
            p = self.text(n.c[2], st)
            if strlit(n.c[2]) is not None: return [(CHR, st)]
            if p is not None and self.env(st).get(("obj", "known", p)) == 1: return [(CHR, st)]
            return [(0, st), (CHR, st)]
        if qn == IN + "::eof": return [(int(self.ev(st)["eof"]), st)]
        if icu(qn) in SPACEY:
            v = self.eval(cargs(n)[0], st)
            return [(0, st)] if v in (0, EOFC) else [(TOP, st)]
        if b == "isAlphabetic" and cargs(n):
            v = self.eval(cargs(n)[0], st)
            return [(0, st)] if v == 0 else [(TOP, st)]
        if n.k == "CXXMemberCallExpr":
            q = qfield(obj(n))
            if q:
                em = self.ev(st)["empty"]
                if b == "empty": return [(1, st)] if q in em else [(1, self.up(st, empty=em | {q})), (0, st)]
                if b in ("size",): return [(0, st)] if q in em else [(("cnt", q, 0), st)]
                if b in ("push", "push_back", "push_front", "emplace", "emplace_back"): return [(TOP, self.qpush(st, q))]
                if b in ("pop", "pop_front", "pop_back"): return [(TOP, self.up(self.shift(st, q, 1), empty=em))]
                if b in ("swap",): return [(TOP, self.up(st, empty=em - {q}))]
                if b == "clear": return [(TOP, self.up(st, empty=em | {q}))]
        if n.k == "CXXMemberCallExpr" and (qn or "").startswith("std::") and "iterator" in (n.t.s if n.t else ""):
            if b in ("end", "cend"): return [(END, st)]
            if b == "find" and self.eval(cargs(n)[0], st) == 0: return [(END, st)]
            return [(TOP, st)]
        if b == "isEscaped" and cargs(n) and self.eval(cargs(n)[0], st) == 0: return [(0, st)]
        if qn == "StreamReader::next": return self.next(fl, f, n, st)
        if n.a.get("fn") in self.readers and self.level == "mode": return self.readx(fl, f, n, st)
        bu = self.buffer(n, qn, st)
        if bu is not None: return bu
        o = self.output(fl, f, n, qn, st)
        if o is not None: return o
        return None
    def buffer(self, n, qn, st):
        """the replay buffer"""
        if n.k != "CXXMemberCallExpr" or not (qn or "").startswith("Buffer<") and not (qn or "").startswith("Buffer::"): return None
        b = base(qn); e = self.ev(st)
        if b == "back":
            c = self.eval(cargs(n)[0], st)
            return [(TOP, self.up(st, replay="sure" if isinstance(c, int) and c > 0 else e["replay"] or "maybe"))]
        if b in ("peek", "last") and self.level == "mode":     # only the last character read can be the end
            return [(CHR, st)] if not e["taken"] and not e["eof"] else [(CHR, st), (0, st)]
        if b == "setPos": return [(TOP, self.up(st, replay="maybe"))]
        if b == "next" and e["replay"]: return [(TOP, self.up(st, replay="maybe"))]
        if b == "isEmpty":
            if self.level != "mode": return [(TOP, st)]
            if e["replay"] == "sure": return [(0, st)]
            return [(1, self.up(st, replay=False)), (0, st)] if e["replay"] else [(1, st)]
        return [(TOP, st)]
    def readx(self, fl, f, n, st):
        e = self.ev(st); self.calls += 1; self.sites.add((f.key, n.id))
        if e["taken"] and not e["replay"]:
            self.rep(f, n, "past", "reads on after the NUL that ends a segment"); return []
        g = self.p.fns[n.a["fn"]]
        for q in self.qpushes(g): st = self.qpush(st, q)
        if not e["taken"] and e["eof"] and not e["replay"]: return [(0, st)]
        out = [(0, self.up(st, taken=True, replay=False))]
        if not e["taken"]: out.append((0, self.up(st, eof=True, replay=False)))
        out.append((CHR, self.up(st, replay="maybe") if e["replay"] else st))
        return out
    def qpushes(self, g):
        r = self.pushes.get(g.key)
        if r is None:
            r = self.pushes[g.key] = set()
            for h in reach(self.p, [g]).values():
                for n in fnodes(h):
                    if n.k == "CXXMemberCallExpr" and base(callee(n)).startswith(("push", "emplace")):
                        q = qfield(obj(n))
                        if q: r.add(q)
        return r
    def next(self, fl, f, n, st):
        """recursive call: by induction it has taken a NUL exactly when at_null is set"""
        o = self.path(obj(n), st) if obj(n) is not None else None
        p = (o or ("this",)) + ("at_null",)
        return [(TOP, self.set(self.up(st, taken=True, look=()), p, 1)), (TOP, self.set(self.up(st, look=()), p, 0))]
    def output(self, fl, f, n, qn, st):
        a = cargs(n); i = icu(qn)
        if not any(is_out(x.t) for x in a if x is not None): return None
        e = self.ev(st)
        if i == "u_fputc":
            v = self.eval(a[0], st)
            if v == 0 and e["taken"]:
                self.nuls += 1
                for q in sorted(self.owned - e["empty"]): self.rep(f, n, "order|" + q, "ends the segment while '%s' may still hold text of it" % q)
                return [(TOP, self.up(st, out="nul", taken=False))]
            if v == 0: self.rep(f, n, "extra", "writes a NUL where no segment ended"); return []
            return [(TOP, st)]
        if i == "u_fflush": return [(TOP, self.up(st, out=None))]
        return None
    owned = frozenset()
    def ends(self, g):
        """asks whether a character is NUL or the end of the input"""
        return len(g.params) <= 2 and any(x.k == "BinaryOperator" and x.a.get("op") in ("==", "!=") and any(const_of(y) in (0, EOFC) for y in x.c) and any(strip(y) is not None and strip(y).k == "DeclRefExpr" and any(q.d == strip(y).a.get("d") for q in g.params) for y in x.c) or x.k in ("SwitchStmt",) or x.k == "UnaryOperator" and x.a.get("op") == "!" for x in fnodes(g))
    def descend(self, f, n, g, st):
        if g.key in self.readers: return self.level != "mode"
        if any(is_in(p.t) for p in g.params) or g.cls == IN: return not any(is_out(p.t) for p in g.params)
        if g.ret is not None and (g.ret.isint and not g.ret.bool or g.ret.bool and self.ends(g)) and g.body is not None and not g.file.startswith("/usr") and not any(is_out(p.t) for p in g.params) and g.cls in (None, "", "FSTProcessor") and any(self.eval(a, st) in (0, EOFC, CHR) for a in cargs(n) if a is not None): return True
        if any(is_out(p.t) for p in g.params) and g.cls == "FSTProcessor":
            return any(x.k == "CXXMemberCallExpr" and qfield(obj(x)) for x in fnodes(g)) or any(x.k in CALLS and icu(callee(x)) == "u_fflush" for x in fnodes(g))
        return False
    def unknown(self, fl, f, n, st):
        g = self.p.fns.get(n.a.get("fn"))
        if g is not None and g.body is not None and g.cls == "FSTProcessor":
            for q in self.qpushes(g): st = self.qpush(st, q)
        for x in cargs(n):              # passed by reference or address: unknown from here on
            y = strip(x) if x is not None else None
            if y is not None and y.k == "UnaryOperator" and y.a.get("op") == "&" :
                p = self.path(y.c[0], st)
                if p is not None: st = self.set(st, p, TOP)
        return [(TOP, st)]

class Out(Lean):
    """ev = (at_null of the current token or None, phase 0/1 NUL written/2 flushed)"""
    limit = 20000
    def __init__(self, prog, rep): CProp.__init__(self, prog); self.rep = rep; self.tokens = 0
    def close(self, f, n, st, what):
        an, ph = st[1]
        if an == 1 and ph == 0: self.rep(f, n, "missing", "%s without the NUL for a segment that has ended" % what)
        elif an == 1 and ph == 1: self.rep(f, n, "flush", "%s before the segment that has ended is flushed" % what)
    def model(self, fl, f, n, qn, st):
        a = cargs(n); i = icu(qn); an, ph = st[1]
        if qn == "StreamReader::next":
            self.close(f, n, st, "the next token is read"); self.tokens += 1
            p = self.path(obj(n), st)
            if p is None: raise AnalysisBroken("unknown stream reader in %s" % f.qn)
            s = self.drop(st, lambda k: k[:len(p)] == p and len(k) > len(p) and k[len(p)] != "at_null")
            return [(TOP, (self.set(s, p + ("at_null",), v)[0], (v, 0))) for v in (0, 1)]
        if any(is_out(x.t) for x in a if x is not None):
            if i == "u_fputc" and self.eval(a[0], st) == 0 and const_of(a[0]) == 0:
                if an is None: return None
                if an == 0: self.rep(f, n, "extra", "writes a NUL where no segment ended"); return []
                if ph: self.rep(f, n, "twice", "writes a second NUL for one segment"); return []
                return [(TOP, (st[0], (an, 1)))]
            if i == "u_fflush": return [(TOP, (st[0], (an, 2 if ph == 1 else ph)))]
            g = self.p.fns.get(n.a.get("fn"))
            if g is not None and g.cfgj and self.descend(f, n, g, st): return None
            if ph: self.rep(f, n, "late", "writes text of a segment after its NUL"); return []
        return None
    def descend(self, f, n, g, st):
        if g.cls == "StreamReader": return False
        if any("StreamReader" in p.t.s for p in g.params): return True
        return any(is_out(p.t) for p in g.params) and any(x.k in CALLS and icu(callee(x)) == "u_fputc" and const_of(cargs(x)[0]) == 0 for h in reach(self.p, [g]).values() if h.cls == "FSTProcessor" for x in fnodes(h))

class Wrap(Lean):
    """ev = (a segment has been processed and not ended, NUL written and not flushed)"""
    def __init__(self, prog, rep): CProp.__init__(self, prog); self.rep = rep; self.rounds = 0
    def model(self, fl, f, n, qn, st):
        a = cargs(n); i = icu(qn); pend, unf = st[1]
        h = self.p.fns.get(n.a.get("fn"))
        if h is not None and any(is_in(p.t) for p in h.params) and any(is_out(p.t) for p in h.params):
            self.rounds += 1
            if pend: self.rep(f, n, "missing", "goes on to the next segment without a NUL after the one before")
            elif unf: self.rep(f, n, "flush", "goes on to the next segment before the one before is flushed")
            return [(TOP, (st[0], (True, False)))]
        if i == "u_fputc" and const_of(a[0]) == 0:
            if not pend: self.rep(f, n, "extra", "writes a NUL where no segment ended"); return []
            return [(TOP, (st[0], (False, True)))]
        if i == "u_fflush": return [(TOP, (st[0], (pend, False)))]
        if pend is False and unf and any(is_out(x.t) for x in a if x is not None) and not (h is not None and h.cfgj and self.descend(f, n, h, st)):
            self.rep(f, n, "late", "writes text of a segment after its NUL"); return []
        return None
    def descend(self, f, n, g, st):
        return any(is_out(p.t) for p in g.params) and any(x.k in CALLS and icu(callee(x)) in ("u_fflush", "u_fputc") for x in fnodes(g))

def nulconst(f): return any(n.k in CALLS and icu(callee(n)) == "u_fputc" and const_of(cargs(n)[0]) == 0 for n in fnodes(f))
def streams(f): return any(is_in(p.t) for p in f.params) and any(is_out(p.t) for p in f.params)
def gets(f): return any(n.k in CALLS and callee(n) in (IN + "::get", IN + "::peek") for n in fnodes(f))
def hasreader(f): return any(v.t.s.startswith("StreamReader") for n in fnodes(f) if n.k == "DeclStmt" for v in n.a.get("vars", ()))
def judge(prog, res, f, label, one):
    """run an analysis; what it reports is confirmed with all flags followed"""
    with res.guard(f.qn):
        bad = {}
        def rep(g, n, kind, text): bad.setdefault("%s|%s|%s" % (label, g.qn, kind), "%s: %s" % (where(n), text))
        def end(kind, text): bad.setdefault("%s|%s|%s" % (label, f.qn, kind), "%s (%s): %s" % (f.loc, f.qn, text))
        one(f, rep, end, False)
        if bad:
            first = dict(bad); bad.clear()
            try: one(f, rep, end, True)
            except AnalysisBroken: bad.update(first)
        for k in sorted(bad): res.violation(k, bad[k])
def P07(prog, res, tier):
    res.rules += ["no function reads past a NUL it has taken from the stream: it puts it back, or reports the end of the segment",
                  "the end of a segment is reported exactly when its NUL has been taken",
                  "each segment of input ends with one NUL on the output, flushed before anything more is read, with nothing of the segment after it",
                  "text and blanks of a segment are written, or dropped, before its NUL"]
    # 1. functions that take characters from the stream
    low = []
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.file.startswith("/usr") or not gets(f): continue
        if f.cls == IN and f.n not in ("get", "peek", "unget", "eof", "internal_read"): low.append(f)
        elif f.cls == "StreamReader" and f.n == "next": low.append(f)
        elif f.cls == "FSTProcessor" and any(is_in(p.t) for p in f.params): low.append(f)
    if len(low) < 8: raise AnalysisBroken("only %d functions that read the stream found" % len(low))
    def reading(f, rep, end, full):
        cl = Seg(prog, rep, "low"); cl.full = full; cl.scope(prog, f); cl.owned = owned(prog, f)
        ends = set()
        for eof in (False, True): ends |= Flow(prog, cl).run(f, cl.start(eof))
        if not ends: raise AnalysisBroken("no path to the end of %s" % f.qn)
        res.count("reads_followed", cl.calls); res.count("nul_outputs", cl.nuls)
        for s in ends:
            e = cl.ev(s); env = cl.env(s); rv = env.get(("ret", f.key), TOP)
            if e["out"] == "nul": end("flush", "returns with a NUL written but not flushed")
            if f.cls == "StreamReader":
                an = env.get(("this", "at_null"), TOP)
                if e["taken"] and an != 1: end("lost", "takes the NUL of a segment without reporting its end")
                if not e["taken"] and an == 1: end("early", "reports the end of a segment that has not ended")
            elif f.ret is not None and f.ret.isint and not f.ret.bool:
                if e["taken"] and rv != 0: end("lost", "takes the NUL of a segment without reporting its end")
                if not e["taken"] and not e["eof"] and rv == 0: end("early", "reports the end of a segment that has not ended")
            elif e["taken"]: end("lost", "the NUL of a segment is taken from the stream and lost")
    for f in low: res.count("reading_functions"); judge(prog, res, f, "read", reading)
    # 2. modes that read character by character up to the NUL
    def segment(f, rep, end, full):
        cl = Seg(prog, rep, "mode"); cl.full = full; cl.scope(prog, f); cl.owned = owned(prog, f)
        ends = Flow(prog, cl).run(f, cl.start(False))
        if not ends: raise AnalysisBroken("no path to the end of %s" % f.qn)
        res.count("reads_followed", cl.calls)
        for s in ends:
            e = cl.ev(s)
            if not e["taken"] and not e["eof"]: end("early", "can stop before the segment has ended")
            if e["replay"]: end("replay", "can stop while text that was put back is still to be processed")
            for q in sorted(cl.owned - e["empty"]): end("left|" + q, "'%s' may still hold text of the segment at its end" % q)
    readers = Seg(prog, None, "mode").readers
    m2 = [f for f in modes(prog) if any(n.k in CALLS and n.a.get("fn") in readers for n in fnodes(f))]
    if len(m2) < 3: raise AnalysisBroken("only %d modes that read characters found" % len(m2))
    for f in m2: res.count("segment_modes"); judge(prog, res, f, "mode", segment)
    # 3. modes that read tokens
    def token(f, rep, end, full):
        cl = Out(prog, rep); cl.full = full; cl.scope(prog, f); fl = Flow(prog, cl)
        ends = fl.run(f, cl.mk({}, (None, 0)))
        if not ends or not cl.tokens: raise AnalysisBroken("no token loop in %s" % f.qn)
        res.count("edges", fl.edges)
        for s in ends: cl.close(f, f.body, s, "%s returns" % f.qn)
    m3 = [f for f in modes(prog) if hasreader(f)]
    if len(m3) < 4: raise AnalysisBroken("only %d modes that read tokens found" % len(m3))
    for f in m3: res.count("token_modes"); judge(prog, res, f, "token", token)
    # 4. wrappers
    def wrapper(f, rep, end, full):
        cl = Wrap(prog, rep); cl.full = full; cl.scope(prog, f)
        ends = Flow(prog, cl).run(f, cl.mk({}, (False, False)))
        if not cl.rounds: raise AnalysisBroken("no segment processed in %s" % f.qn)
        for s in ends:
            if s[1][0]: end("missing", "returns without a NUL after the last segment")
            if s[1][1]: end("flush", "returns with a NUL written but not flushed")
    m4 = []
    for f in sorted(prog.fns.values(), key=lambda f: f.line):
        if f.cls != "FSTProcessor" or f.body is None or not streams(f) or hasreader(f) or gets(f): continue
        if f.n.endswith("_null_flush") or any(nulconst(h) for h in [f] + [g for _, g in callees(prog, f) if any(is_out(p.t) for p in g.params) and not any(is_in(p.t) for p in g.params)]): m4.append(f)
    if len(m4) < 2: raise AnalysisBroken("only %d wrappers found" % len(m4))
    for f in m4: res.count("wrappers"); judge(prog, res, f, "wrapper", wrapper)
    res.require()
def owned(prog, f):
    """queues of text the function (or what it calls) uses, and whose emptiness the code knows about"""
    out = set()
    for h in reach(prog, [f]).values():
        if h.cls != "FSTProcessor": continue
        for n in fnodes(h):
            if n.k == "CXXMemberCallExpr" and base(callee(n)) in ("empty", "size"):
                q = qfield(obj(n))
                if q: out.add(q)
    return frozenset(out)
