"""P08 copies are complete and independent; P15 no value is read before it is set."""
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, Client, strip, access_path, cargs, obj, callee, const_of, cfg

MUT = {"insert", "assign", "push_back", "emplace", "emplace_back", "swap", "append", "push", "push_front", "resize", "merge"}

ADD = {"insert", "push_back", "emplace", "emplace_back", "append", "push", "push_front", "merge"}
def is_assign(n):
    return (n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.a.get("op") == "=")
def assign_sides(n):
    return (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
def paths_in(n):
    for x in n.walk():
        if x.k in ("MemberExpr", "DeclRefExpr", "ArraySubscriptExpr", "CXXThisExpr"):
            p = access_path(x)
            if p: yield p

def owned_members(prog, cls):
    """raw pointer members (and container-element pointer fields) this class deletes"""
    own = set()
    for f in prog.fns.values():
        if f.cls != cls: continue
        for n in fnodes(f):
            if n.k == "CXXDeleteExpr":
                p = access_path(n.c[0])
                if p and p[0] == "this":
                    q = tuple(x for x in p[1:] if x != "*")
                    own.add(q)
    return own

def mutated_elsewhere(prog, cls, member):
    """writes to Class::member anywhere except member-wise copies"""
    for f in prog.fns.values():
        for n in fnodes(f):
            if n.k == "MemberExpr" and n.a.get("m") == cls + "::" + member:
                p = n.parent
                while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
                    if p.k == "ImplicitCastExpr" and p.a.get("ck") == "LValueToRValue": break
                    p = p.parent
                if p is None: continue
                if p.k == "ImplicitCastExpr": continue
                if is_assign(p):
                    l, r = assign_sides(p)
                    if strip(l) is n:
                        q = access_path(r)
                        if q and q[-1] == member: continue
                        return (f, n)
                    continue
                if p.k == "MemberExpr" and p.parent is not None and p.parent.k == "CXXMemberCallExpr" and p.a.get("cm"): continue
                if p.k in CALLS and not any(x is n for x in ()):
                    return (f, n)
                if p.k in ("UnaryOperator", "CompoundAssignOperator", "MemberExpr", "ArraySubscriptExpr"): return (f, n)
    return None

def refmap(f):
    """local references -> what they stand for"""
    m = getattr(f, "_refmap", None)
    if m is not None: return m
    m = {}
    for n in fnodes(f):
        if n.k == "DeclStmt":
            for v in n.a.get("vars", ()):
                if (v.t.ref or (v.n or "").startswith("__begin")) and v.init is not None and access_path(v.init): m[v.d] = access_path(v.init)
    f._refmap = m
    return m
def full_path(f, n):
    p = access_path(n); seen = set()
    while p and p[0] in refmap(f) and p[0] not in seen: seen.add(p[0]); p = refmap(f)[p[0]] + p[1:]
    return p

class CopyClient(Client):
    """state: (facts, sources, maybeself)"""
    def __init__(self, cls, res, own): self.cls = cls; self.res = res; self.own = own; self.elems = set(); self.sites = []; self.obl = 0
    def src_member(self, e, src):
        out = set()
        for p in paths_in(e):
            if p[0] in src and len(p) > 1:
                q = [x for x in p[1:] if x not in ("*",)]
                if q and q[0] != "[]": out.add(q[0])
        return out
    def elem(self, fl, f, n, s):
        facts, src, ms = s
        if n.k == "DeclStmt":
            add = set()
            for v in n.a["vars"]:
                if v.init is not None and v.t.rec == self.cls or (v.t.s.rstrip("&* ").replace("const ", "") == self.cls):
                    i = strip(v.init) if v.init is not None else None
                    if i is not None and any(p[0] in src and len(p) == 1 for p in paths_in(i)): add.add(v.d)
            if add: return ((facts, src | frozenset(add), ms),)
        if n.k == "CXXDeleteExpr":
            p = access_path(n.c[0])
            if p and p[0] == "this" and ms: return ((facts | {"dead:" + p[1]}, src, ms),)
        if n.k == "CXXMemberCallExpr" and (callee(n) or "").endswith("::clear"):
            p = access_path(obj(n))
            if p and p[0] == "this" and len(p) == 2: return ((facts | ({"dead:" + p[1], "clear:" + p[1]} if ms else {"clear:" + p[1]}), src, ms),)
        if n.k == "MemberExpr" and n.a.get("dk") == "Field":
            p = access_path(n)
            if p and len(p) == 2 and p[0] in src and "dead:" + p[1] in facts:
                self.res.violation("%s|self-assign|%s" % (self.cls, p[1]), "%s: assigning a %s to itself reads member '%s' after releasing it" % (where(n), self.cls, p[1]))
        if is_assign(n):
            l, r = assign_sides(n)
            p = full_path(f, l)
            if p == ("this", "*") and any(q[0] in src and len(q) == 1 for q in paths_in(r)) and n.k == "CXXOperatorCallExpr": return None
            if p and p[0] == "this" and len(p) >= 2:
                m = p[1]; sm = self.src_member(r, src)
                add = {"clear:" + m} if len(p) == 2 else set()
                if len(p) == 2:
                    st = strip(r)
                    if (m,) in self.own:
                        if st.k == "CXXNewExpr" or (st.k in CALLS): add.add("alloc:" + m); facts = facts - {"null:" + m}
                        elif const_of(r) == 0: facts = (facts | {"null:" + m}) - {"alloc:" + m}
                        elif m in sm and st.k in ("MemberExpr",):
                            self.res.violation("%s|alias|%s" % (self.cls, m), "%s: copying a %s makes both objects share (and both release) '%s'" % (where(n), self.cls, m))
                            add.add("alloc:" + m)
                        if st.k == "CXXNewExpr" and m in self.src_member(r, src): self.elems.add((m, None))
                    if m in sm: add.add("copied:" + m)
                else:
                    fld = p[-1] if p[-1] not in ("[]", "*") else None
                    if m in sm: self.elems.add((m, fld)); self.loopcheck(f, n, m, src)
                    if fld and (m, "[]", fld) in self.own and m not in sm:
                        self.elems.add((m, "fresh:" + fld)); self.every(f, n, m, fld)
                return ((facts | frozenset(add), src, ms),)
        if n.k in CALLS:
            q = callee(n) or ""; nm = q.rsplit("::", 1)[-1]
            if nm in ("memcpy", "memmove", "__builtin_memcpy") and len(cargs(n)) == 3:
                a = cargs(n); d = access_path(a[0]); sm = self.src_member(a[1], src)
                if d and d[0] == "this" and d[1] in sm:
                    self.elems.add((d[1], None)); self.obl += 1
                    et = None
                    t = strip(a[0]).t
                    ew = ELEM.get((t.ptr or "").replace("const ", "")) if t is not None else None
                    if not any(x.k == "UnaryExprOrTypeTraitExpr" for x in a[2].walk()) and (ew is None or ew > 1) and not any(const_of(x) == ew for x in a[2].walk()):
                        self.res.violation("%s|bytes|%s" % (self.cls, d[1]), "%s: copying a %s transfers the number of elements of '%s' as a number of bytes, so only part of the contents is copied" % (where(n), self.cls, d[1]))
                    return (s,)
            if nm in ("copy", "copy_n") and q.startswith("std::"):
                a = cargs(n)
                for x in a:
                    d = access_path(x)
                    if d and d[0] == "this" and len(d) >= 2 and any(d[1] in self.src_member(y, src) for y in a):
                        self.elems.add((d[1], None)); return ((facts | {"copied:" + d[1]}, src, ms),)
            if nm == "swap" or nm in MUT:
                ps = [access_path(x) for x in ([obj(n)] if n.k == "CXXMemberCallExpr" and obj(n) is not None else []) + list(cargs(n))]
                ms_ = {p[1] for p in ps if p and p[0] == "this" and len(p) >= 2}
                add = set()
                op = access_path(obj(n)) if n.k == "CXXMemberCallExpr" and obj(n) is not None else None
                if nm in ADD and op and len(op) == 2 and op[0] == "this" and "assign" in facts and "copied:" + op[1] not in facts and "clear:" + op[1] not in facts and op[1] in self.src_member(n, src):
                    self.res.violation("%s|keeps|%s" % (self.cls, op[1]), "%s: assigning a %s adds the elements of the source to those '%s' already had instead of replacing them" % (where(n), self.cls, op[1]))
                if op and len(op) == 2 and op[0] == "this" and nm not in ADD: add.add("clear:" + op[1])
                for m in ms_:
                    if m in self.src_member(n, src): add.add("copied:" + m); add.add("alloc:" + m); self.elems.add((m, None))
                    elif any(m in self.src_member(y, src) for y in fnodes(f) if y.k in ("CXXForRangeStmt", "ForStmt", "DeclStmt")): add.add("copied:" + m)
                if add: return ((facts | frozenset(add), src, ms),)
                if nm != "swap": return (s,)
            if n.k == "CXXMemberCallExpr" and obj(n) is not None and nm in ("erase", "clear", "reset"):
                op = access_path(obj(n))
                if op and len(op) == 2 and op[0] == "this": return ((facts | {"clear:" + op[1]}, src, ms),)
        return None
    def every(self, f, n, m, fld):
        """the element's own storage is set in every turn of the loop (a test for null apart)"""
        self.obl += 1; p = n; conds = []
        while p.parent is not None and p.k not in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"):
            if p.parent.k == "IfStmt" and p is not p.parent.a.get("cond"):
                both = [x for b in ("then", "else") for x in [p.parent.a.get(b)] if x is not None and any(is_assign(y) and (access_path(assign_sides(y)[0]) or ())[-1:] == (fld,) for y in x.walk())]
                if len(both) < 2: conds.append(p.parent.a.get("cond"))
            p = p.parent
        if p.k not in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"): return
        tgt = strip(assign_sides(n)[0])
        if not any(x.k == "MemberExpr" and x.a.get("n") == fld and x is not tgt for x in p.walk()):
            self.res.violation("%s|contents|%s.%s" % (self.cls, m, fld), "%s: copying a %s gives the elements of '%s' a '%s' of their own without what the original held" % (where(n), self.cls, m, fld))
        for x in p.walk():
            if x.k in ("ContinueStmt", "BreakStmt"):
                q = x
                while q.parent is not None and q.k != "IfStmt" and q is not p: q = q.parent
                if q.k == "IfStmt" and not any(is_assign(y) and (access_path(assign_sides(y)[0]) or ())[-1:] == (fld,) for y in q.walk()): conds.append(q.a.get("cond"))
        for c in conds:
            if c is None: continue
            nulltest = not any(y.k in CALLS and y.k != "CXXOperatorCallExpr" for y in c.walk()) and any(y.k == "MemberExpr" and y.a.get("n") == fld for y in c.walk())
            if not nulltest:
                self.res.violation("%s|alias|%s.%s" % (self.cls, m, fld), "%s: copying a %s gives an element of '%s' its own '%s' only under a condition, so some stay shared" % (where(n), self.cls, m, fld))
    def loopcheck(self, f, n, m, src):
        """for (i = 0; i != bound; i++) copies: starts at 0, steps by one, bound is the allocated extent"""
        p = n
        while p is not None and p.k != "ForStmt": p = p.parent
        if p is None: return
        init, cond, inc = p.a.get("init"), strip(p.a.get("cond")), p.a.get("inc")
        if init is None or cond is None or init.k != "DeclStmt" or not init.a["vars"] or cond.k != "BinaryOperator": return
        v = init.a["vars"][0]
        st = const_of(v.init) if v.init is not None else None
        if st not in (None, 0): self.res.violation("%s|range|%s" % (self.cls, m), "%s: copying a %s starts at element %s of '%s'" % (where(n), self.cls, st, m))
        b = strip(cond.c[1]) if access_path(cond.c[0]) == (v.d,) else None
        if b is not None:
            if cond.a["op"] not in ("<", "!=", "<="): return
            if b.k == "BinaryOperator" and b.a.get("op") in ("-", "/") :
                self.res.violation("%s|range|%s" % (self.cls, m), "%s: copying a %s stops before the last element of '%s'" % (where(n), self.cls, m))
    def init(self, fl, f, e, s):
        facts, src, ms = s
        m = e.get("init"); n = f.nodes.get(e.get("s"))
        if n is None or m == "<base>": return s
        add = set()
        if m in self.src_member(n, src): add.add("copied:" + m)
        if (m,) in self.own:
            if any(x.k == "CXXNewExpr" for x in n.walk()): add.add("alloc:" + m)
            elif const_of(n) == 0: add.add("null:" + m)
            elif m in self.src_member(n, src):
                self.res.violation("%s|alias|%s" % (self.cls, m), "%s: copying a %s makes both objects share (and both release) '%s'" % (where(n), self.cls, m)); add.add("alloc:" + m)
        return (facts | frozenset(add), src, ms)
    def enter(self, fl, f, n, g, s):
        facts, src, ms = s
        if g.cls != self.cls: return None
        on_this = False
        if n.k == "CXXMemberCallExpr":
            o = obj(n); on_this = o is None or access_path(o) in (("this",),)
            if o is not None and strip(o).k == "CXXThisExpr": on_this = True
        elif n.k == "CXXOperatorCallExpr":
            on_this = access_path(n.c[1]) == ("this", "*")
        elif n.k == "CXXConstructExpr": on_this = any(i.get("deleg") and i.get("e") is not None and any(x is n for x in i["e"].walk()) for i in f.inits)
        if not on_this: return None
        ns = set()
        for p, a in zip(g.params, cargs(n) if n.k != "CXXOperatorCallExpr" else n.c[2:]):
            q = access_path(a)
            if q and q[0] in src and len([x for x in q[1:] if x != "*"]) == 0: ns.add(p.d)
            st = strip(a)
            if st is not None and st.k == "UnaryOperator" and st.a.get("op") == "&":
                q = access_path(st.c[0])
                if q and q[0] in src and len(q) == 1: ns.add(p.d)
        return (facts, frozenset(ns), ms)
    def leave(self, fl, f, n, g, s, x): return (x[0], s[1], s[2])
    def edge(self, fl, f, cond, val, s):
        facts, src, ms = s
        c = strip(cond) if cond is not None else None
        pol = bool(val)
        while c is not None and c.k == "UnaryOperator" and c.a.get("op") == "!": c = strip(c.c[0]); pol = not pol
        q = access_path(c) if c is not None else None; isnull = None
        if q and len(q) == 2 and q[0] == "this": isnull = not pol
        elif c is not None and c.k == "BinaryOperator" and c.a.get("op") in ("==", "!="):
            for x, y in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                if const_of(y) == 0: q = access_path(x); isnull = (c.a["op"] == "==") == pol
        if isnull is not None and q and len(q) == 2 and q[0] == "this":
            if isnull and "alloc:" + q[1] in facts: return None
            if not isnull and "null:" + q[1] in facts: return None
            return s
        if c is not None and c.k == "BinaryOperator" and c.a.get("op") in ("==", "!="):
            a, b = strip(c.c[0]), strip(c.c[1])
            for x, y in ((a, b), (b, a)):
                if x.k == "CXXThisExpr" and y.k == "UnaryOperator" and y.a.get("op") == "&" and access_path(y.c[0]) and access_path(y.c[0])[0] in src:
                    same = (c.a["op"] == "==") == bool(val)
                    if same: return None
                    return (facts, src, False)
        return s

ELEM = {"int": 4, "double": 8, "char": 1, "unsigned char": 1, "char16_t": 2, "unsigned int": 4, "short": 2, "long": 8, "float": 4}
# members a copy deliberately does not carry over: cache of recycled buffers (contents are never observed: P14)
NOT_COPIED = {("State", "sequence_pool")}

def P08(prog, res, tier):
    res.rules += ["every member of a class with its own copy constructor or assignment is set from the same member of the source on every path (members that never change after construction excepted)",
                  "a member the class releases is never shared between original and copy: the copy allocates its own storage and transfers every element",
                  "assigning an object to itself never reads storage already released",
                  "pointers into a member container are not copied verbatim"]
    n = 0
    for cls, r in sorted(prog.records.items()):
        if r.get("lambda") or not (r.get("ucc") or r.get("uca")): continue
        fs = [f for f in prog.fns.values() if f.cls == cls and (f.flags.get("cc") or f.flags.get("ca")) and not f.flags.get("def")]
        if not fs: continue
        own = owned_members(prog, cls)
        fields = [x["n"] for x in r["fields"]]
        const = {m for m in fields if not mutated_elsewhere(prog, cls, m) and next(x for x in r["fields"] if x["n"] == m)["t"].s in ("double", "int", "bool")}
        for f in sorted(fs, key=lambda f: f.line):
            what = "copy construction" if f.flags.get("cc") else "assignment"
            cl = CopyClient(cls, res, own)
            fl = Flow(prog, cl)
            out = fl.run(f, (frozenset(["assign"] if f.flags.get("ca") else []), frozenset([f.params[0].d]), bool(f.flags.get("ca"))))
            if not out: raise AnalysisBroken("no path through %s" % f.qn)
            res.count("copy_operations"); res.count("functions_walked", len(fl.visited))
            for m in fields:
                if (cls, m) in NOT_COPIED: continue
                t = next(x for x in r["fields"] if x["n"] == m)["t"]
                res.count("member_obligations"); n += 1
                owned = (m,) in own
                for facts, _, _ in out:
                    if owned:
                        ok = "alloc:" + m in facts
                        el = {x for mm, x in cl.elems if mm == m}
                        rec = prog.records.get((t.ptr or "").strip())
                        need = {x["n"] for x in rec["fields"]} if rec else set()
                        full = None in el or (need and need <= el)
                        if not ok and "copied:" + m not in facts:
                            res.violation("%s|%s|%s" % (cls, what, m), "%s (%s): %s of a %s leaves '%s' without storage of its own on some path" % (f.loc, f.qn, what, cls, m)); break
                        if not full:
                            res.violation("%s|contents|%s" % (cls, m), "%s (%s): %s of a %s allocates '%s' but does not copy its contents%s" % (f.loc, f.qn, what, cls, m, (" (fields %s missing)" % sorted(need - el)) if need and el else "")); break
                    elif "copied:" + m not in facts and m not in const:
                        res.violation("%s|%s|%s" % (cls, what, m), "%s (%s): %s of a %s does not carry over '%s' on some path" % (f.loc, f.qn, what, cls, m)); break
                for o in own:
                    if o[0] == m and len(o) == 3 and o[1] == "[]" and not any(mm == m and x == "fresh:" + o[2] for mm, x in cl.elems):
                        res.violation("%s|alias|%s.%s" % (cls, m, o[2]), "%s (%s): %s of a %s leaves both objects owning the same '%s' of the elements of '%s'" % (f.loc, f.qn, what, cls, o[2], m))
            # interior pointers
            for x in r["fields"]:
                for y in r["fields"]:
                    if x is y: continue
                    e = elem_type(y["t"].s)
                    if e and e + " *" in x["t"].s and (e in prog.records) and container(y["t"].s):
                        res.count("interior_pointer_obligations")
                        if any("copied:" + x["n"] in o[0] for o in out) and not rebased(prog, cls, x["n"]):
                            res.violation("%s|interior|%s" % (cls, x["n"]), "%s (%s): %s of a %s copies '%s' verbatim, so the copy's entries point into the source object's '%s'" % (f.loc, f.qn, what, cls, x["n"], y["n"]))
    if n < 60: raise AnalysisBroken("only %d member obligations" % n)

def container(s): return s.startswith("std::vector<") or s.startswith("std::deque<") or s.startswith("std::list<")
def elem_type(s):
    if not container(s): return None
    i = s.index("<"); d = 0; o = ""
    for c in s[i + 1:]:
        if c == "<": d += 1
        if c == ">": d -= 1
        if c == "," and d == 0: break
        o += c
    return o.strip()
def rebased(prog, cls, m):
    """in the class's copy functions, m is filled element by element with addresses of own storage"""
    for f in prog.fns.values():
        if f.cls == cls and (f.n == "copy" or f.flags.get("cc") or f.flags.get("ca")):
            for n in fnodes(f):
                if n.k in CALLS and (callee(n) or "").rsplit("::", 1)[-1] in ("insert", "emplace", "operator[]"):
                    p = access_path(obj(n)) if obj(n) is not None else None
                    if p == ("this", m) and any(x.k == "UnaryOperator" and x.a.get("op") == "&" for x in n.walk()): return True
    return False

# ------------------------------------------------------------------ P15
def scalar(t): return (t.isint or t.fl or t.ptr is not None) and not t.ref

class InitClient(Client):
    """state: frozenset of members not yet set"""
    def __init__(self, cls, res): self.cls = cls; self.res = res
    def init(self, fl, f, e, s):
        return s - {e.get("init")}
    def elem(self, fl, f, n, s):
        if is_assign(n):
            p = access_path(assign_sides(n)[0])
            if p and p[0] == "this" and len(p) == 2: return (s - {p[1]},)
            return None
        if n.k == "ImplicitCastExpr" and n.a.get("ck") == "LValueToRValue" and n.c:
            p = access_path(n.c[0])
            if p and p[0] == "this" and len(p) >= 2 and p[1] in s and strip(n.c[0]).k == "MemberExpr" and len(p) == 2:
                self.res.violation("%s|read|%s" % (self.cls, p[1]), "%s: '%s' of a %s under construction is read before it is set" % (where(n), p[1], self.cls))
                return (s - {p[1]},)
        if n.k in CALLS:
            for a in cargs(n):
                st = strip(a)
                if st is not None and st.k == "UnaryOperator" and st.a.get("op") == "&":
                    p = access_path(st.c[0])
                    if p and p[0] == "this" and len(p) == 2 and p[1] in s: s = s - {p[1]}
                elif st is not None and st.k == "MemberExpr" and st is a:
                    p = access_path(st)
                    if p and p[0] == "this" and len(p) == 2 and p[1] in s: s = s - {p[1]}
            h = self.p.fns.get(n.a.get("fn"))
            if h is not None and h.cfgj and self.on_this(f, n, h): return None
            return None if n.a.get("nr") else (s,)
        return None
    def on_this(self, f, n, g):
        if g.cls != self.cls: return False
        if n.k == "CXXMemberCallExpr":
            o = obj(n); return o is None or strip(o).k == "CXXThisExpr"
        if n.k == "CXXOperatorCallExpr": return access_path(n.c[1]) == ("this", "*")
        if n.k == "CXXConstructExpr": return any(i.get("deleg") and i.get("e") is not None and any(x is n for x in i["e"].walk()) for i in f.inits)
        return False
    def enter(self, fl, f, n, g, s): return s if self.on_this(f, n, g) else None

class LocalClient(Client):
    """state: frozenset of scalar locals declared and not yet set"""
    def __init__(self, res): self.res = res; self.n = 0
    def elem(self, fl, f, n, s):
        if n.k == "DeclStmt":
            for v in n.a["vars"]:
                if v.static: continue
                if scalar(v.t) and v.init is None and v.t.alen is None: s = s | {v.d}; self.n += 1
                else: s = s - {v.d}
            return (s,)
        if n.k == "BinaryOperator" and n.a.get("op") == "=":
            p = access_path(n.c[0])
            if p and len(p) == 1: return (s - {p[0]},)
        if n.k == "ImplicitCastExpr" and n.a.get("ck") == "LValueToRValue" and n.c:
            x = strip(n.c[0])
            if x.k == "DeclRefExpr" and x.a.get("d") in s:
                self.res.violation("%s|local|%s" % (f.qn, x.a["n"]), "%s: local '%s' may be read before it is set" % (where(n), x.a["n"]))
                return (s - {x.a["d"]},)
        if n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.a.get("op") in ("++", "--"):
            x = strip(n.c[0])
            if x.k == "DeclRefExpr" and x.a.get("d") in s:
                self.res.violation("%s|local|%s" % (f.qn, x.a["n"]), "%s: local '%s' may be read before it is set" % (where(n), x.a["n"]))
                return (s - {x.a["d"]},)
        if n.k == "UnaryOperator" and n.a.get("op") == "&":
            x = strip(n.c[0])
            if x.k == "DeclRefExpr": return (s - {x.a.get("d")},)
        if n.k in CALLS:
            for a in n.c:
                st = a
                while st.k in ("ParenExpr", "MaterializeTemporaryExpr") or (st.k == "ImplicitCastExpr" and st.a.get("ck") != "LValueToRValue"):
                    if not st.c: break
                    st = st.c[0]
                if st.k == "DeclRefExpr" and st.a.get("lv"): s = s - {st.a.get("d")}
            return None if n.a.get("nr") else (s,)
        if n.k == "LambdaExpr":
            return (s - {c.get("d") for c in n.a.get("caps", []) if c.get("ref")},)
        return None

def P15(prog, res, tier):
    res.rules += ["every constructor sets every scalar and pointer member on every path, and no member is read earlier",
                  "no scalar local is read on a path on which it was never set",
                  "no code takes a value from a clock, a random source, the process identity or hash-ordered containers"]
    for cls, r in sorted(prog.records.items()):
        if r.get("lambda") or r.get("union"): continue
        need = frozenset(x["n"] for x in r["fields"] if scalar(x["t"]) and x["t"].alen is None)
        for f in sorted((f for f in prog.fns.values() if f.cls == cls and f.dk == "CXXConstructor" and not f.flags.get("def") and not f.flags.get("implicit")), key=lambda f: f.line):
            if not f.cfgj: continue
            c = InitClient(cls, res); c.p = prog
            out = Flow(prog, c).run(f, need)
            res.count("constructors"); res.count("member_obligations", len(need))
            for o in out:
                for m in sorted(o):
                    res.violation("%s|unset|%s" % (cls, m), "%s: this constructor of %s can leave '%s' unset" % (f.loc, cls, m))
    for f in prog.fns.values():
        if not f.cfgj or not any(n.k == "DeclStmt" and any(scalar(v.t) and v.init is None for v in n.a["vars"]) for n in fnodes(f)): continue
        c = LocalClient(res); c.limit = 20000
        Flow(prog, c).run(f, frozenset())
        res.count("functions_with_uninitialised_declarations")
    bad = {"rand", "srand", "random", "drand48", "time", "clock", "getpid", "gettimeofday", "clock_gettime", "std::rand", "std::time", "std::clock", "mkstemp", "tmpnam"}
    for f in prog.fns.values():
        for n in fnodes(f):
            if n.k in CALLS:
                res.count("call_sites")
                q = n.a.get("qn") or ""
                if q in bad or q.startswith("std::random_device") or q.startswith("std::chrono::") or q.startswith("std::mersenne_twister"):
                    res.violation("%s|nondet|%s" % (f.qn, q), "%s: result depends on %s" % (where(n), q))
            if n.k == "DeclStmt":
                for v in n.a["vars"]:
                    if "std::unordered_" in v.t.s: res.count("hash_ordered_containers")
    if res.cov.get("constructors", 0) < 25: raise AnalysisBroken("only %d constructors" % res.cov.get("constructors", 0))
