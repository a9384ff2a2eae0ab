"""P14: what is output for a word does not depend on the words before it.  P07: NUL-terminated segments."""
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, Client, strip, access_path, cargs, obj, callee, const_of, cfg

CLS = "FSTProcessor"
LOOPS = ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")
QUEUES = ("std::queue<", "std::deque<", "Buffer<")          # text read but not yet written
# words that are joined by design: lt-merge collects the words between its marks
JOINS = {"FSTProcessor::quoteMerge"}

def asg(n):
    """assignment: (target, value expr or None for compound)"""
    if n.k in ("BinaryOperator", "CompoundAssignOperator"):
        op = n.a.get("op") or ""
        if op == "=": return n.c[0], n.c[1]
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="): return n.c[0], None
    if n.k == "CXXOperatorCallExpr" and len(n.c) == 3:
        op = n.a.get("op") or ""
        if op == "=": return n.c[1], n.c[2]
        if op in ("+=", "-=", "<<=", "|=", "&="): return n.c[1], None
    if n.k == "UnaryOperator" and n.a.get("op") in ("++", "--"): return n.c[0], None
    if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("++", "--"): return n.c[1], None
    return None
READONLY = {"find", "begin", "end", "size", "empty", "at", "back", "front", "count", "data", "c_str", "rbegin", "rend", "lower_bound", "upper_bound", "peek", "last", "getPos", "isEmpty", "length", "substr", "cbegin", "cend", "top", "equal_range", "getSize", "diffPrevPos", "diffPostPos"}
def member(n):
    """'Class::field' of the outermost object an lvalue denotes (x.a.b[i] -> x.a), only through this"""
    p = access_path(n)
    if p and p[0] == "this" and len(p) >= 2 and p[1] not in ("*", "[]"): return p[1]
    return None
def base_of(x):
    """innermost member of this that an lvalue goes through: this->m[..].f -> m"""
    while True:
        x = strip(x)
        if x is None: return None
        if x.k == "MemberExpr" and x.a.get("dk") == "Field":
            b = strip(x.c[0]) if x.c else None
            if b is None or b.k == "CXXThisExpr": return x.a["n"]
            x = x.c[0]; continue
        if x.k == "CXXOperatorCallExpr" and x.a.get("op") in ("[]", "*", "->") and len(x.c) >= 2: x = x.c[1]; continue
        if x.k in ("ArraySubscriptExpr",): x = x.c[0]; continue
        if x.k == "UnaryOperator" and x.a.get("op") in ("*", "&"): x = x.c[0]; continue
        if x.k == "CXXMemberCallExpr" and (callee(x) or "").rsplit("::", 1)[-1] in ("back", "front", "at", "second", "first"): x = obj(x); continue
        return None
def aliases(f):
    """local references and iterators -> the members of *this they were taken from"""
    src = {}; al = {}
    def root(x):
        while True:
            x = strip(x)
            if x is None: return None
            if x.k == "MemberExpr" and x.a.get("dk") == "Field":
                b = strip(x.c[0]) if x.c else None
                if b is None or b.k == "CXXThisExpr": return x.a["n"]
                x = x.c[0]; continue
            if x.k == "DeclRefExpr": return x.a.get("d")
            if x.k == "CXXOperatorCallExpr" and x.a.get("op") in ("[]", "*", "->") and len(x.c) >= 2: x = x.c[1]; continue
            if x.k in ("ArraySubscriptExpr",) or x.k == "UnaryOperator" and x.a.get("op") in ("*", "&"): x = x.c[0]; continue
            if x.k == "CXXMemberCallExpr" and (callee(x) or "").rsplit("::", 1)[-1] in ("back", "front", "at", "find", "begin", "end", "lower_bound", "upper_bound", "rbegin", "top"): x = obj(x); continue
            if x.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and len(x.c) == 1: x = x.c[0]; continue
            return None
    def handle(t): return t is not None and ("iterator" in (t.s or "") or t.ref and not (t.s or "").startswith("const ") or bool(t.ptr) and not (t.s or "").startswith("const "))
    for n in fnodes(f):
        vs = [(v.d, v.init, v.t) for v in n.a.get("vars", ())] if n.k == "DeclStmt" else []
        a = asg(n)
        if a and a[1] is not None and strip(a[0]) is not None and strip(a[0]).k == "DeclRefExpr": vs.append((strip(a[0]).a.get("d"), a[1], strip(a[0]).t))
        for d, e, t in vs:
            if d is None or e is None or not (handle(t) or a): continue
            if a and not ("iterator" in (t.s or "") or bool(t.ptr)): continue
            r = root(e)
            if r is not None: al.setdefault(d, set()).add(r)
    def res(d, seen):
        out = set()
        for r in al.get(d, ()):
            if isinstance(r, str): out.add(r)
            elif r not in seen: out |= res(r, seen | {r})
        return out
    return {d: res(d, {d}) for d in al}
def through(x, al):
    """members an lvalue x that goes through a local reference or iterator belongs to"""
    hops = 0
    while True:
        x = strip(x)
        if x is None: return set()
        if x.k == "DeclRefExpr":
            t = x.t.s if x.t is not None else ""
            if not hops and "iterator" in t: return set()
            return al.get(x.a.get("d"), set())
        if x.k == "MemberExpr" and x.a.get("dk") == "Field" and x.c: x = x.c[0]; hops += 1; continue
        if x.k == "CXXOperatorCallExpr" and x.a.get("op") in ("[]", "*", "->") and len(x.c) >= 2: x = x.c[1]; hops += 1; continue
        if x.k == "ArraySubscriptExpr" or x.k == "UnaryOperator" and x.a.get("op") == "*": x = x.c[0]; hops += 1; continue
        if x.k == "CXXMemberCallExpr" and (callee(x) or "").rsplit("::", 1)[-1] in ("back", "front", "at", "begin", "find"): x = obj(x); hops += 1; continue
        return set()
def mwrites(prog, f):
    """members of *this that f itself may change -> the nodes"""
    out = {}; al = aliases(f)
    if any(al.values()):
        for n in fnodes(f):
            a = asg(n); x = a[0] if a else None
            if x is None and n.k == "CXXMemberCallExpr" and obj(n) is not None and not n.a.get("cm") and (callee(n) or "").rsplit("::", 1)[-1] not in READONLY: x = obj(n)
            if x is None: continue
            sx = strip(x)
            if a and sx is not None and sx.k == "DeclRefExpr" and sx.t is not None and sx.t.ptr: continue
            for m in through(x, al): out.setdefault(m, []).append(n)
    for n in fnodes(f):
        a = asg(n)
        if a:
            m = base_of(a[0])
            if m: out.setdefault(m, []).append(n)
        elif n.k == "CXXMemberCallExpr" and obj(n) is not None and not n.a.get("cm"):
            nm = (callee(n) or "").rsplit("::", 1)[-1]
            m = base_of(obj(n))
            if m and nm not in READONLY: out.setdefault(m, []).append(n)
        if n.k in CALLS and n.k != "CXXMemberCallExpr" or n.k == "CXXMemberCallExpr":
            h = prog.fns.get(n.a.get("fn"))
            for i, x in enumerate(cargs(n)):
                if h is None or i >= len(h.params): continue
                t = h.params[i].t
                if t.ref and not t.const and not t.s.startswith("const ") and "&&" not in t.s:
                    m = base_of(x)
                    if m: out.setdefault(m, []).append(n)
    return out
def callees(prog, f):
    for n in fnodes(f):
        if n.k in CALLS or n.k == "CXXConstructExpr":
            h = prog.fns.get(n.a.get("fn"))
            if h is not None and h.body is not None: yield n, h
def reach(prog, roots):
    seen = {}; work = list(roots)
    for f in roots: seen[f.key] = f
    while work:
        f = work.pop()
        for n, h in callees(prog, f):
            if h.key not in seen: seen[h.key] = h; work.append(h)
    return seen
def is_state(t): return t is not None and (t.rec or t.s or "").replace("const ", "").rstrip("& ") == "State"
def modes(prog):
    """the functions that process a stream"""
    out = [f for f in prog.fns.values() if f.cls == CLS and f.body is not None and any("InputFile" in p.t.s for p in f.params) and any("UFILE" in p.t.s for p in f.params)]
    if len(out) < 6: raise AnalysisBroken("only %d processing modes found" % len(out))
    return sorted(out, key=lambda f: f.line)

class Stale(Client):
    """which carried variables still hold a value from the word before"""
    limit = 6000
    def __init__(self, prog, f, res, cut):
        self.p = prog; self.f = f; self.res = res; self.cut = cut; self.reads = 0; self.cuts = 0
        self.loc = carried(f)
        self.names = {d: v.n for d, v in self.loc.items()}
        self.found = {}
    # state: (frozenset of (key, value), frozenset of stale keys); value: True/False (bool), "e"/"n" (empty/not empty)
    def key(self, x):
        x = strip(x) if x is not None else None
        while x is not None and x.k == "UnaryOperator" and x.a.get("op") == "&": x = strip(x.c[0])
        if x is None: return None
        if x.k == "DeclRefExpr": return x.a["d"] if x.a.get("d") in self.loc else None
        if x.k == "MemberExpr":
            m = member(x)
            return ("m", m) if m in self.mem and len(access_path(x)) == 2 else None
        return None
    def set(self, s, k, v, keep=False):
        vals = dict(s[0])
        if v is None: vals.pop(k, None)
        else: vals[k] = v
        return (frozenset(vals.items()), s[1] if keep else s[1] - {k})
    def value(self, x, s):
        x = strip(x) if x is not None else None
        if x is None: return None
        if x.k == "CXXBoolLiteralExpr": return bool(const_of(x))
        if x.k == "BinaryOperator" and x.a.get("op") == "=": return self.value(x.c[1], s)
        if x.k == "UnaryOperator" and x.a.get("op") == "!":
            v = self.value(x.c[0], s); return None if v is None else not v
        if x.k == "BinaryOperator" and x.a.get("op") in ("&&", "||"):
            a, b = self.value(x.c[0], s), self.value(x.c[1], s)
            if x.a["op"] == "&&": return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        k = self.key(x)
        if k is not None:
            v = dict(s[0]).get(k); return v if isinstance(v, bool) else None
        e = self.emptiness(x)
        if e is not None:
            v = dict(s[0]).get(e[0])
            if v in ("e", "n"): return (v == "e") == e[1]
        return None
    def emptiness(self, x):
        """(key, True) if x is true exactly when key is empty, (key, False) if not empty"""
        x = strip(x)
        if x is None: return None
        if x.k == "CXXMemberCallExpr":
            nm = (callee(x) or "").rsplit("::", 1)[-1]; k = self.key(obj(x))
            if k is not None and nm in ("empty", "isEmpty"): return (k, True)
            if k is not None and nm in ("size", "length"): return (k, False)
        if x.k == "BinaryOperator" and x.a.get("op") in ("==", "!=", ">", ">=", "<"):
            a, b, op = x.c[0], x.c[1], x.a["op"]
            if const_of(a) is not None: a, b, op = b, a, {"<": ">", ">": "<", ">=": "<="}.get(op, op)
            c = const_of(b); y = strip(a)
            if c is not None and y is not None and y.k == "CXXMemberCallExpr" and (callee(y) or "").rsplit("::", 1)[-1] in ("size", "length"):
                k = self.key(obj(y))
                if k is not None:
                    if (op, c) in (("==", 0), ("<", 1)): return (k, True)
                    if (op, c) in (("!=", 0), (">", 0), (">=", 1)): return (k, False)
        return None
    def edge(self, fl, f, cond, val, s):
        if not isinstance(val, bool): return s
        v = self.value(cond, s)
        if v is not None and v != val: return None
        x = strip(cond)
        while x is not None and x.k == "UnaryOperator" and x.a.get("op") == "!": x = strip(x.c[0]); val = not val
        if x is None: return s
        k = self.key(x)
        if k is not None and self.isbool(k): return self.set(s, k, val, True)
        e = self.emptiness(x)
        if e is not None: return self.set(s, e[0], "e" if e[1] == val else "n", True)
        return s
    def isbool(self, k):
        t = self.loc[k].t if k in self.loc else self.mt.get(k[1]) if isinstance(k, tuple) and k[0] == "m" else None
        return t is not None and t.bool
    def read(self, f, n, k, s):
        self.reads += 1
        if k not in s[1]: return
        # a || b with b known true (a && b with b known false): the value read makes no difference
        p, c = n.parent, n
        while p is not None:           # the condition of the outermost loop asks whether the text has ended
            if p.k in LOOPS and not inloop(p) and p.a.get("cond") is not None and any(x is n for x in p.a["cond"].walk()): return
            p = p.parent
        p, c = n.parent, n
        while p is not None and p.k not in ("CompoundStmt", "DeclStmt", "IfStmt"):
            if p.k == "BinaryOperator" and p.a.get("op") in ("&&", "||") and p.c[0] is c:
                v = self.value(p.c[1], s)
                if v is (p.a["op"] == "||"): return
            p, c = p.parent, p
        if warnonly(n): return
        nm = self.names.get(k) or k[1]
        self.found.setdefault(nm, (n, k))
    def fresh_before(self, n):
        """variables set again, from nothing of the word before, in the statements just before the boundary n"""
        out = set()
        x = n
        while x.parent is not None and x.parent.k != "CompoundStmt": x = x.parent
        if x.parent is None: return out
        sib = x.parent.c
        try: i = next(j for j, y in enumerate(sib) if y is x)
        except StopIteration: return out
        for y in reversed(sib[:i]):
            y = strip(y)
            if y is None: break
            if y.k == "ExprWithCleanups" and y.c: y = strip(y.c[0])
            ks = set()
            if y.k == "CXXMemberCallExpr" and (callee(y) or "").endswith("::clear") and obj(y) is not None:
                k = self.key(obj(y))
                if k is not None: ks.add(k)
            else:
                z = y
                while z is not None and asg(z) and asg(z)[1] is not None:
                    k = self.key(asg(z)[0])
                    if k is not None: ks.add(k)
                    elif strip(asg(z)[0]).k == "DeclRefExpr" or member(asg(z)[0]): pass
                    z = strip(asg(z)[1])
                if z is y or z is None: break
                if any(q.k == "DeclRefExpr" and (q.a.get("d") in self.loc) or q.k == "MemberExpr" and q.a.get("dk") == "Field" and ("m", q.a.get("n")) in [("m", m) for m in self.mem] for q in z.walk()): ks = set()
            out |= ks
        return out
    def boundary(self, s, n=None):
        self.cuts += 1
        vals = dict(s[0]); st = set(); fr = self.fresh_before(n) if n is not None else ()
        for k in list(self.loc) + [("m", m) for m in self.mem]:
            if k in fr: continue
            if vals.get(k) != self.init.get(k, "?"): st.add(k)
        return (s[0], frozenset(st))
    def elem(self, fl, f, n, s):
        k = None; s0 = s
        if n.k == "DeclStmt":
            for v in n.a.get("vars", ()):
                if v.d in self.loc:
                    iv = self.value(v.init, s) if v.init is not None else None
                    if iv is None: iv = self.emptyinit(v)
                    s = self.set(s, v.d, iv)
            if self.cut == "state" and any(is_state(v.t) and v.init is not None and base_of_state(v.init) and v.d not in self.loc for v in n.a.get("vars", ())): s = self.boundary(s)
            return (s,)
        a = asg(n)
        if a:
            k = self.key(a[0])
            if self.cut == "state" and n.k == "CXXOperatorCallExpr" and is_state(a[0].t) and a[1] is not None and base_of_state(a[1]):
                s = self.boundary(s, n)
            if k is not None:
                if a[1] is not None:
                    return (self.set(s, k, self.value(a[1], s) if self.isbool(k) else (self.strval(a[1]))),)
                return (self.set(s, k, None, True),)
            return None if n.k in CALLS and self.p.fns.get(n.a.get("fn")) is not None and self.p.fns[n.a["fn"]].cls == CLS else (s,)
        if n.k == "ImplicitCastExpr" and n.a.get("ck") == "LValueToRValue" and n.c:
            k = self.key(n.c[0])
            if k is not None: self.read(f, n, k, s)
            return (s,)
        if n.k == "CXXMemberCallExpr":
            o = obj(n); k = self.key(o); nm = (callee(n) or "").rsplit("::", 1)[-1]
            for x in cargs(n): s = self.args(f, n, x, s)
            if k is not None:
                if nm == "clear": return (self.set(s, k, "e"),)
                if nm in ("assign", "swap"): return (self.set(s, k, None),)
                if nm in ("push_back", "append", "insert", "emplace_back", "emplace", "resize", "push", "push_front", "reserve", "pop", "pop_back", "pop_front", "erase"):
                    return (self.set(s, k, "n" if nm in ("push_back", "push", "emplace_back") else None, True),)
                self.read(f, n, k, s)
                if not n.a.get("cm") and nm not in READONLY: s = self.set(s, k, None, True)
                return (s,)
        elif n.k in CALLS:
            if n.k == "CXXOperatorCallExpr" and len(n.c) >= 2:
                k = self.key(n.c[1])
                if k is not None: self.read(f, n, k, s); return (s,)
            for x in cargs(n): s = self.args(f, n, x, s)
        elif n.k == "CXXConstructExpr":
            for x in n.c:
                k = self.key(x)
                if k is not None and x.k == "DeclRefExpr": self.read(f, n, k, s)
        if self.cut == "reader" and n.k == "CXXMemberCallExpr" and (callee(n) or "") == "StreamReader::next": return (self.boundary(s),)
        if self.cut == "null" and nulout(self.p, n): return (self.boundary(s),)
        if n.k in CALLS and s is not s0:
            h = self.p.fns.get(n.a.get("fn"))
            return fl_default(self, fl, f, n, h, s)
        return None
    def args(self, f, n, x, s):
        h = self.p.fns.get(n.a.get("fn")); k = self.key(x)
        if k is None or x.k == "ImplicitCastExpr" and x.a.get("ck") == "LValueToRValue": return s
        if h is None: return self.set(s, k, None, True)
        a = cargs(n); i = next((i for i, y in enumerate(a) if y is x), None)
        if i is not None and i < len(h.params) and h.params[i].t.ref:
            if h.params[i].t.const or h.params[i].t.s.startswith("const "): self.read(f, n, k, s)
            else: return self.set(s, k, None, True)
        return s
    def strval(self, e):
        x = strip(e)
        if x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not x.c: return "e"
        return None
    def emptyinit(self, v):
        t = v.t.s
        if v.t.ref or v.t.isint or v.t.ptr: return None
        if v.init is None or strip(v.init) is None or strip(v.init).k in ("CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr") and not [c for c in strip(v.init).c if c is not None and c.k != "CXXDefaultArgExpr"]:
            return "e" if "basic_string" in t or "vector<" in t or "set<" in t or "map<" in t else None
        return None
    def enter(self, fl, f, n, g, s):
        if g.cls != CLS or n.k != "CXXMemberCallExpr" or strip(obj(n)) is None or strip(obj(n)).k != "CXXThisExpr": return None
        if g.key not in self.touch or any(g.key == k[0] for k in fl.stack): return None
        return (frozenset((k, v) for k, v in s[0] if isinstance(k, tuple) and k[0] == "m"), frozenset(k for k in s[1] if isinstance(k, tuple) and k[0] == "m"))
    def leave(self, fl, f, n, g, s, x):
        m = lambda k: isinstance(k, tuple) and k[0] == "m"
        return (frozenset((k, v) for k, v in s[0] if not m(k)) | x[0], frozenset(k for k in s[1] if not m(k)) | x[1])

def fl_default(cl, fl, f, n, h, s):
    """what the engine does with a call the client has not dealt with"""
    if n.a.get("nr"): return ()
    if h is not None and h.cfgj:
        s2 = cl.enter(fl, f, n, h, s)
        if s2 is not None: return {cl.leave(fl, f, n, h, s, x) for x in fl._call(h, s2)}
    return (s,)
def warnonly(n):
    """read as the condition of a warning on the error stream that is given once, and nothing else"""
    p = n.parent
    while p is not None and p.k in ("ImplicitCastExpr", "UnaryOperator", "ParenExpr"): p = p.parent
    if p is None or p.k != "IfStmt" or p.a.get("else") is not None: return False
    ok = False
    for x in p.a["then"].walk():
        if x.k in ("ReturnStmt", "BreakStmt", "ContinueStmt", "CXXThrowExpr", "GotoStmt"): return False
        if x.k in CALLS and x.k != "CXXConstructExpr":
            q = callee(x) or ""
            if x.k == "CXXOperatorCallExpr" and x.a.get("op") == "<<": ok = True; continue
            if not q.startswith(("u_finit", "u_fprintf", "fprintf", "u_fflush", "u_fclose", "std::endl")): return False
            ok = True
        a = asg(x)
        if a and x.k != "CXXOperatorCallExpr" and access_path(a[0]) != access_path(leafread(n)): return False
    return ok
def leafread(n):
    x = n
    while x.k == "ImplicitCastExpr" and x.c: x = x.c[0]
    return x
def base_of_state(e):
    """the value is a State kept in a member (the start of the dictionary)"""
    for x in e.walk():
        if x.k == "MemberExpr" and x.a.get("dk") == "Field" and is_state(x.t): return True
    return False
def nulout(prog, n):
    if n.k == "CallExpr" and (callee(n) or "").startswith("u_fputc") and cargs(n): 
        a = cargs(n)[0]
        return const_of(a) == 0 or (a.a.get("cv") is not None and int(a.a["cv"]) == 0)
    return False
def carried(f):
    """locals declared before the processing loops whose value can pass from one round to the next"""
    loops = [n for n in fnodes(f) if n.k in LOOPS and not inloop(n)]
    if not loops: return {}
    buf = any(n.k == "MemberExpr" and n.t is not None and n.t.s.startswith("Buffer<") or n.k == "CXXMemberCallExpr" and callee(n) == "StreamReader::next" for n in fnodes(f))
    out = {}
    for n in fnodes(f):
        if n.k != "DeclStmt" or inloop(n) or "." in str(n.id): continue
        for v in n.a.get("vars", ()):
            t = v.t
            if v.static or t.ref or t.ptr or "StreamReader" in t.s: continue
            if t.bool or "basic_string<" in t.s or is_state(t) or "vector<" in t.s or "set<" in t.s or "map<" in t.s and "iterator" not in t.s or (t.isint and buf): out[v.d] = v
    mod = set()
    for n in fnodes(f):
        if not inloop(n): continue
        a = asg(n); t = [a[0]] if a else []
        if n.k == "CXXMemberCallExpr" and not n.a.get("cm") and obj(n) is not None: t.append(obj(n))
        if n.k in CALLS: t += [x for x in cargs(n) if x is not None and x.k in ("DeclRefExpr", "UnaryOperator")]
        for x in t:
            x = strip(x)
            while x is not None and x.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator") and x.c or x is not None and x.k == "CXXOperatorCallExpr" and x.a.get("op") == "[]":
                x = strip(x.c[1] if x.k == "CXXOperatorCallExpr" else x.c[0])
            if x is not None and x.k == "DeclRefExpr": mod.add(x.a.get("d"))
    return {d: v for d, v in out.items() if d in mod}
def inloop(n):
    p = n.parent
    while p is not None:
        if p.k in LOOPS: return True
        p = p.parent
    return False

def P14(prog, res, tier):
    res.rules += ["a variable or member that carries a value from one word (token, segment) to the next is set again before it is read",
                  "members the processing changes are only the queues of text not yet written, or are set before they are read",
                  "no static or global variable and no part of the loaded dictionary is changed while processing",
                  "a recycled buffer is emptied or overwritten before it is used"]
    ms = modes(prog)
    rec = prog.records.get(CLS); fields = {x["n"]: x["t"] for x in rec["fields"]}
    allreach = reach(prog, ms)
    with res.guard("static state"): statics(prog, res, allreach)
    with res.guard("dictionary"): readonly(prog, res, allreach, fields)
    with res.guard("pool"): pool(prog, res)
    with res.guard("StreamReader"): reader(prog, res)
    own = {}
    for f in prog.fns.values():
        if f.cls == CLS and f.body is not None: own[f.key] = mwrites(prog, f)
    for f in ms:
        with res.guard(f.qn):
            rc = reach(prog, [f])
            written = set()
            for k in rc:
                for m in own.get(k, {}): written.add(m)
            written = {m for m in written if m in fields and not fields[m].s.startswith(QUEUES) and fields[m].rec != "Alphabet" and not fields[m].s.startswith("Alphabet")}
            lr = loopreach(prog, f)
            inl = {m for k in lr for m in own.get(k, {})} | {m for m, ns in own.get(f.key, {}).items() if any(inloop(n) for n in ns)}
            written = {m for m in written if m in inl or not all(setting(prog, own.get(k, {}).get(m, [])) for k in rc)}
            res.count("modes"); res.sample("members_changed", "%s: %s" % (f.qn, sorted(written)))
            touch = {k for k, g in rc.items() if g.cls == CLS and any(x.k == "MemberExpr" and x.a.get("n") in written for x in fnodes(g))}
            reader_ = any(n.k == "CXXMemberCallExpr" and callee(n) == "StreamReader::next" for n in fnodes(f))
            cuts = ["entry", "null"] if f.qn in JOINS else ["entry", "reader"] if reader_ else ["entry", "state"]
            for cut in cuts:
                cl = Stale(prog, f, res, cut); cl.mem = written if cut == "entry" else written & inl; cl.mt = fields; cl.touch = touch
                cl.init = {}
                for d, v in cl.loc.items():
                    iv = const_of(v.init) if v.init is not None else None
                    cl.init[d] = bool(iv) if v.t.bool and iv is not None else (cl.emptyinit(v) or "?")
                if f.qn in JOINS and cut == "null": cl.loc = {d: v for d, v in cl.loc.items()}
                s0 = (frozenset(), frozenset(("m", m) for m in written) if cut == "entry" else frozenset())
                fl = Flow(prog, cl); fl.run(f, s0)
                if cut == "entry":
                    for nm, (n, k) in cl.found.items():
                        if isinstance(k, tuple) and k[0] == "m": res.violation("%s|segment|%s" % (f.qn, nm), "%s: '%s' is read with the value it was left with by the text processed before (mode %s)" % (where(n), nm, f.qn))
                else:
                    for nm, (n, k) in cl.found.items():
                        res.violation("%s|carry|%s" % (f.qn, nm), "%s: '%s' is read with the value it was left with by the word before, in %s" % (where(n), nm, f.qn))
                res.count("carried_variables", len(cl.loc)); res.count("boundaries", cl.cuts); res.count("reads_checked", cl.reads)
    # functions that translate or look up one word
    for f in sorted(prog.fns.values(), key=lambda f: f.line):
        if f.cls != CLS or f.body is None or f.dk != "CXXMethod" or any("InputFile" in p.t.s or "UFILE" in p.t.s for p in f.params): continue
        if not (f.params and "basic_string_view<char16_t" in f.params[0].t.s and f.flags.get("acc", 0) == 0): continue
        if f.n.startswith(("parse", "set", "init", "load")): continue
        res.count("lookup_functions")
        for k, g in reach(prog, [f]).items():
            for m, ns in own.get(k, {}).items():
                if m in fields and not fields[m].s.startswith("Alphabet") and not fields[m].s.startswith(QUEUES) and not setting(prog, ns):
                    res.violation("%s|lookup|%s" % (f.qn, m), "%s: looking up a word changes '%s', which stays for the next one" % (where(ns[0]), m))
    res.require()

def setting(prog, ns):
    """only constant assignments: a switch, not something remembered from the text"""
    for n in ns:
        a = asg(n)
        if not a or a[1] is None: return False
        if const_of(a[1]) is None and not (strip(a[1]) is not None and strip(a[1]).k == "DeclRefExpr" and n.fn.n.startswith("set")): return False
        if inloop(n): return False
    return True
def loopreach(prog, f):
    """functions called (transitively) from inside the loops of f"""
    roots = [h for n, h in callees(prog, f) if inloop(n) and h.key != f.key]
    seen = {h.key for h in roots}; work = list(roots)
    while work:
        for n, h in callees(prog, work.pop()):
            if h.key not in seen and h.key != f.key: seen.add(h.key); work.append(h)
    return seen
def statics(prog, res, rc):
    for f in rc.values():
        if f.file.startswith("/usr"): continue
        st = {v.d: v for n in fnodes(f) if n.k == "DeclStmt" for v in n.a.get("vars", ()) if v.static}
        for n in fnodes(f):
            a = asg(n); tgt = a[0] if a else None
            if tgt is None and n.k == "CXXMemberCallExpr" and not n.a.get("cm") and (callee(n) or "").rsplit("::", 1)[-1] not in READONLY: tgt = obj(n)
            if tgt is None: continue
            x = strip(tgt)
            while x is not None and x.k in ("MemberExpr", "ArraySubscriptExpr") and x.c or x is not None and x.k == "CXXOperatorCallExpr" and x.a.get("op") == "[]":
                x = strip(x.c[1] if x.k == "CXXOperatorCallExpr" else x.c[0])
            if x is None or x.k != "DeclRefExpr": continue
            g = x.a.get("g") or (x.a.get("d") in st and st[x.a["d"]].n)
            if g and not str(g).startswith("std::"):
                res.violation("static|%s|%s" % (f.qn, g), "%s: '%s' is shared by all words and changed while processing" % (where(n), g))
        res.count("functions_reached")
DICT = {"Node", "Dest", "TransExe", "MatchNode", "MatchExe"}
def readonly(prog, res, rc, fields):
    for f in rc.values():
        if f.cls in DICT and (f.dk in ("CXXConstructor", "CXXDestructor") or f.n in ("operator=", "copy", "destroy")): continue
        for n in fnodes(f):
            a = asg(n); tgt = a[0] if a else None
            if tgt is None and n.k == "CXXMemberCallExpr" and not n.a.get("cm") and (callee(n) or "").rsplit("::", 1)[-1] not in READONLY: tgt = obj(n)
            if tgt is None: continue
            x = strip(tgt)
            while x is not None:
                if x.k == "MemberExpr" and x.a.get("dk") == "Field":
                    c = (x.a.get("m") or "").rsplit("::", 1)[0]
                    if c in DICT:
                        res.violation("dictionary|%s|%s" % (f.qn, x.a["n"]), "%s: processing changes the loaded dictionary (%s)" % (where(n), x.a.get("m"))); break
                    if c == CLS and is_state(x.t) and f.cls == CLS:
                        res.violation("dictionary|%s|%s" % (f.qn, x.a["n"]), "%s: processing changes '%s', the state every word starts from" % (where(n), x.a["n"])); break
                    x = strip(x.c[0]) if x.c else None; continue
                if x.k in ("ArraySubscriptExpr", "UnaryOperator"): x = strip(x.c[0]); continue
                if x.k == "CXXOperatorCallExpr" and x.a.get("op") in ("[]", "->", "*"): x = strip(x.c[1]); continue
                if x.k == "CXXMemberCallExpr": x = strip(obj(x)); continue
                break
            res.count("writes_checked")

class Recycled(Client):
    """a buffer from the pool has old contents until it is assigned or cleared"""
    def __init__(self, prog, res, src): self.p = prog; self.res = res; self.src = src; self.n = 0; self.bad = []
    def fresh(self, e):
        e = strip(e)
        return e is not None and e.k in CALLS and e.a.get("fn") in self.src
    def elem(self, fl, f, n, s):
        if n.k == "DeclStmt":
            for v in n.a.get("vars", ()):
                if v.init is not None and self.fresh(v.init): self.n += 1; s = s | {v.d}
                elif v.d in s: s = s - {v.d}
            return (s,)
        a = asg(n)
        if a:
            l = strip(a[0])
            if a[1] is not None and l.k == "DeclRefExpr" and self.fresh(a[1]): self.n += 1; return (s | {l.a.get("d")},)
            if a[1] is not None and l.k == "UnaryOperator" and l.a.get("op") == "*":
                x = strip(l.c[0])
                if x is not None and x.k == "DeclRefExpr" and x.a.get("d") in s: return (s - {x.a["d"]},)
            if a[1] is not None and self.fresh(a[1]): self.n += 1
        if n.k == "CXXMemberCallExpr":
            o = strip(obj(n)) if obj(n) is not None else None
            if o is not None and o.k == "UnaryOperator" and o.a.get("op") == "*": o = strip(o.c[0])
            nm = (callee(n) or "").rsplit("::", 1)[-1]
            if o is not None and o.k == "DeclRefExpr" and o.a.get("d") in s:
                if nm in ("clear", "assign", "operator=", "swap"): return (s - {o.a["d"]},)
                if nm in ("push_back", "insert", "emplace_back", "size", "begin", "end", "back"): self.bad.append(n)
                return None
        if n.k in CALLS or n.k == "CXXConstructExpr":
            for x in (cargs(n) if n.k in CALLS else n.c):
                y = strip(x)
                if y is not None and y.k == "DeclRefExpr" and y.a.get("d") in s and n.k == "CXXConstructExpr" and y.t is not None and y.t.ptr: self.bad.append(n)
        return None
def pool(prog, res):
    """functions that hand out recycled vectors: return the last element of a member vector of pointers"""
    src = set()
    for f in prog.fns.values():
        if f.cls != "State" or f.body is None or f.params: continue
        if any(n.k == "ReturnStmt" for n in fnodes(f)) and any(n.k == "CXXMemberCallExpr" and (callee(n) or "").endswith("::pop_back") for n in fnodes(f)) and "*" in ((f.ret.s if getattr(f, "ret", None) is not None else "*")): src.add(f.key)
    # cleared by the pool itself?
    if not src: raise AnalysisBroken("no pool of recycled buffers found")
    for k in list(src):
        f = prog.fns[k]
        if any(n.k == "CXXMemberCallExpr" and (callee(n) or "").endswith("::clear") for n in fnodes(f)): src.discard(k)
    if not src: return
    for f in prog.fns.values():
        if f.cls != "State" or f.body is None or f.key in src: continue
        if not any(n.k in CALLS and n.a.get("fn") in src for n in fnodes(f)): continue
        cl = Recycled(prog, res, src); Flow(prog, cl).run(f, frozenset())
        res.count("recycled_buffers", cl.n)
        for n in cl.bad: res.violation("pool|%s" % f.qn, "%s: a recycled buffer is used while it may still hold the output of an earlier word" % where(n)); break
        # stored directly into a container without a name: must be cleared through that container afterwards
        for n in fnodes(f):
            if n.k in CALLS and n.a.get("fn") in src:
                p = n.parent
                while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"): p = p.parent
                if p is not None and p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr") or p is not None and p.k in CALLS:
                    if not any(x.k == "CXXMemberCallExpr" and (callee(x) or "").endswith("::clear") and any(y.k == "MemberExpr" and y.a.get("n") == "sequence" for y in obj(x).walk()) or
                               asg(x) and any(y.k == "MemberExpr" and y.a.get("n") == "sequence" for y in asg(x)[0].walk()) for x in fnodes(f) if x.line >= n.line):
                        res.violation("pool|%s" % f.qn, "%s: a recycled buffer is stored without being emptied" % where(n))

class Reset(Client):
    def __init__(self, prog, fields): self.p = prog; self.f = fields
    def elem(self, fl, f, n, s):
        a = asg(n); m = None
        if a and a[1] is not None: m = member(a[0]) if access_path(a[0]) and len(access_path(a[0])) == 2 else None
        elif n.k == "CXXMemberCallExpr" and (callee(n) or "").rsplit("::", 1)[-1] in ("clear", "assign", "swap") and obj(n) is not None:
            p = access_path(obj(n)); m = p[1] if p and p[0] == "this" and len(p) == 2 else None
        if m: return (s | {m},)
        return None
    def enter(self, fl, f, n, g, s):
        if g.cls == f.cls and n.k == "CXXMemberCallExpr" and strip(obj(n)) is not None and strip(obj(n)).k == "CXXThisExpr": return s
    def edge(self, fl, f, cond, val, s):
        x = strip(cond)
        if val is True and x is not None and x.k == "MemberExpr" and x.a.get("n") == "at_eof": return None
        return s
CONFIG = {"in", "alpha", "add_unknowns", "at_eof"}
def reader(prog, res):
    f = prog.fn("StreamReader::next")
    fields = {x["n"] for x in prog.records["StreamReader"]["fields"]} - CONFIG
    out = Flow(prog, Reset(prog, fields)).run(f, frozenset())
    if not out: raise AnalysisBroken("no path through StreamReader::next")
    for m in sorted(fields):
        res.count("reader_fields")
        if any(m not in s for s in out): res.violation("reader|%s" % m, "%s (%s): '%s' keeps what the token before had on some path" % (f.loc, f.qn, m))
