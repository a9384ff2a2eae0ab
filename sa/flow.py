"""Disjunctive forward dataflow over the clang CFGs, interprocedural by call summaries.

A client supplies abstract states (hashable) and transfer functions; the engine computes,
per block, the set of reachable states, descending into callees the client asks for and
memoising (callee, entry state) -> exit states.  Recursion is solved by fixpoint."""
from .prog import AnalysisBroken, CALLS, Node

class CFG:
    def __init__(self, f):
        j = f.cfgj
        if not j: raise AnalysisBroken("no control-flow graph for %s" % f.qn)
        self.f = f; self.entry = j["entry"]; self.exit = j["exit"]
        self.b = {b["id"]: b for b in j["b"]}
        for b in j["b"]:                       # "int a, b;" appears as one statement per variable
            for i, e in enumerate(b["e"]):
                if isinstance(e, dict) and "syn" in e:
                    o = f.nodes.get(e["syn"])
                    if o is None: continue
                    did = e["d"] if isinstance(e["d"], tuple) else None
                    v = [x for x in o.a.get("vars", ()) if x.d == e["d"] or (isinstance(x.d, tuple) and x.d[1] == e["d"])]
                    n = Node(); n.id = "%s.%s" % (o.id, e["d"]); n.k = "DeclStmt"; n.t = None; n.line = o.line; n.fn = o.fn; n.parent = o.parent
                    n.a = dict(o.a); n.a["vars"] = v; n.c = []
                    f.nodes[n.id] = n; b["e"][i] = n.id

def cfg(f):
    c = getattr(f, "_cfg", None)
    if c is None: c = f._cfg = CFG(f)
    return c

class Client:
    """override what is needed"""
    limit = 4000                       # states per block before giving up
    def elem(self, fl, f, n, s): return None          # None: default handling
    def dtor(self, fl, f, e, s): return s
    def init(self, fl, f, e, s): return s
    def edge(self, fl, f, cond, val, s): return s     # val: True/False/("case",node)/("default",[nodes])
    def enter(self, fl, f, n, g, s): return None       # entry state to descend, None: do not descend
    def leave(self, fl, f, n, g, s, x): return x
    def noreturn(self, fl, f, n, s): pass
    def extra(self, fl, f, g, s): return ()            # further (block, state) entries of f
    def ret(self, fl, f, s): return s                  # state at function exit -> summary state

class Flow:
    def __init__(self, prog, client):
        self.p = prog; self.c = client; self.memo = {}; self.stack = []; self.visited = set()
        self.edges = 0
    def run(self, f, s):
        """exit states of f from entry state s (least fixpoint, also for recursion)"""
        while True:
            self.grew = False; self._round = set(); self._used = set()
            r = self._call(f, s)
            if not self.grew: return r
    def _call(self, f, s):
        key = (f.key, s)
        if key in self._round:
            if key in self.stack: self._used.add(key)
            return self.memo.get(key, frozenset())
        self._round.add(key); self.visited.add(f.key)
        self.stack.append(key)
        r = frozenset(self._intra(f, s)) | self.memo.get(key, frozenset())
        self.stack.pop()
        if r != self.memo.get(key, frozenset()):
            self.memo[key] = r
            if key in self._used: self.grew = True
        return r
    def _intra(self, f, s):
        g = cfg(f)
        inn = {g.entry: {s}}; work = [g.entry]; done = {}
        for bid, st in self.c.extra(self, f, g, s):      # e.g. exception handlers
            inn.setdefault(bid, set()).add(st); work.append(bid)
        exits = set()
        while work:
            bid = work.pop()
            b = g.b[bid]
            for st in list(inn.get(bid, ())):
                if st in done.setdefault(bid, set()): continue
                done[bid].add(st)
                if bid == g.exit:
                    x = self.c.ret(self, f, st)
                    if x is not None: exits.add(x)
                    continue
                for o in self.block(f, g, b, st):
                    for t, st2 in self.out(f, g, b, o):
                        self.edges += 1
                        q = inn.setdefault(t, set())
                        if st2 not in q:
                            q.add(st2)
                            if len(q) > self.c.limit: raise AnalysisBroken("state explosion in %s" % f.qn)
                            if t not in work: work.append(t)
        return exits
    def block(self, f, g, b, s):
        cur = {s}
        for e in b["e"]:
            nxt = set()
            for st in cur:
                if isinstance(e, dict):
                    r = self.c.dtor(self, f, e, st) if "dtor" in e else self.c.init(self, f, e, st)
                    if r is not None: nxt.add(r)
                else:
                    n = f.nodes.get(e)
                    if n is None: nxt.add(st); continue
                    for r in self.stmt(f, n, st): nxt.add(r)
            cur = nxt
            if not cur: break
        return cur
    def stmt(self, f, n, st):
        r = self.c.elem(self, f, n, st)
        if r is not None: return r
        if n.k in CALLS:
            if n.a.get("nr") and n.k != "CXXConstructExpr":
                self.c.noreturn(self, f, n, st); return ()
            h = self.p.fns.get(n.a.get("fn"))
            if h is not None and h.cfgj:
                s2 = self.c.enter(self, f, n, h, st)
                if s2 is not None:
                    out = set()
                    for x in self._call(h, s2):
                        y = self.c.leave(self, f, n, h, st, x)
                        if y is not None: out.add(y)
                    return out
        if n.k == "CXXThrowExpr":
            self.c.noreturn(self, f, n, st)      # CFG leads to exit; treated as abnormal end
            return ()
        return (st,)
    def split(self, f, cond, v, s):
        l = logical(cond)
        if l is None:
            n = cond
            while n is not None and n.k in ("ParenExpr", "ExprWithCleanups") and n.c: n = n.c[0]
            if n is not None and n.k == "UnaryOperator" and n.a.get("op") == "!" and logical(n.c[0]) is not None:
                yield from self.split(f, n.c[0], not v, s); return
            x = self.c.edge(self, f, n, v, s)
            if x is not None: yield x
            return
        both = l.a["op"] == "&&"
        if v == both:                                  # both operands have this value
            for x in self.split(f, l.c[0], v, s): yield from self.split(f, l.c[1], v, x)
        else:                                          # the first one, or only the second
            yield from self.split(f, l.c[0], v, s)
            for x in self.split(f, l.c[0], not v, s): yield from self.split(f, l.c[1], v, x)
    def out(self, f, g, b, s):
        succ = b["s"]
        term = f.nodes.get(b.get("term")) if b.get("term") else None
        if term is not None and term.k == "SwitchStmt":
            labs = [f.nodes.get(g.b[t].get("lab")) if t is not None and g.b[t].get("lab") else None for t in succ]
            cond = term.a.get("cond")
            cases = [l for l in labs if l is not None and l.k == "CaseStmt"]
            for t, l in zip(succ, labs):
                if t is None: continue
                val = ("case", l) if l is not None and l.k == "CaseStmt" else ("default", tuple(cases))
                x = self.c.edge(self, f, cond, val, s)
                if x is not None: yield t, x
            return
        if len(succ) == 2 and b.get("tc") is not None:
            cond = f.nodes.get(b["tc"])
            if joined(f, g, b, cond):                  # the operands have been evaluated in blocks before, on some paths
                for t, v in zip(succ, (True, False)):
                    if t is None: continue
                    for x in self.split(f, cond, v, s): yield t, x
                return
            while True:                                # after short-circuiting, the last operand decides
                c = cond
                while c is not None and c.k == "ParenExpr" and c.c: c = c.c[0]
                if c is None or c.k != "BinaryOperator" or c.a.get("op") not in ("&&", "||"): break
                cond = c.c[1]
            for t, v in zip(succ, (True, False)):
                if t is None: continue
                x = self.c.edge(self, f, cond, v, s) if cond is not None else s
                if x is not None: yield t, x
            return
        for t in succ:
            if t is not None: yield t, s

def logical(n):
    while n is not None and n.k in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr") and n.c: n = n.c[0]
    return n if n is not None and n.k == "BinaryOperator" and n.a.get("op") in ("&&", "||") else None
def joined(f, g, b, cond):
    """the whole of a && b is tested in a block of its own (do-while, conditions with temporaries)"""
    l = logical(cond)
    if l is None: return False
    js = getattr(g, "_joined", None)
    if js is None: js = g._joined = {e for x in g.b.values() for e in x["e"] if not isinstance(e, dict)}
    return l.id in js
# ---------------------------------------------------------------- expression helpers
def catch_blocks(f, g):
    out = []
    for bid, b in g.b.items():
        l = f.nodes.get(b.get("lab")) if b.get("lab") else None
        if l is not None and l.k == "CXXCatchStmt": out.append(bid)
    return out

def strip(n):
    """through implicit/explicit casts, parens, temporaries, default-arg wrappers"""
    while n is not None and (n.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
                                      "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ConstantExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator")):
        k = n.c[0] if n.c else n.a.get("sub")
        if k is None: return n
        n = k
    return n

def is_call(n): return n is not None and n.k in CALLS
def callee(n): return n.a.get("qn")
def cargs(n):
    """explicit arguments of a call node"""
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return n.c
    if n.k == "CXXOperatorCallExpr": return n.c[1:]
    return n.c[1:]
def obj(n):
    """object expression of a member call / operator call on an object"""
    if n.k == "CXXMemberCallExpr":
        m = strip(n.c[0])
        return m.c[0] if m is not None and m.k == "MemberExpr" and m.c else None
    if n.k == "CXXOperatorCallExpr": return n.c[1]
    return None
def const_of(n):
    n0 = n
    while n is not None:
        if n.a.get("cv") is not None: return int(n.a["cv"])
        if n.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"): return int(n.a["v"])
        if n.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return 0
        m = strip(n)
        if m is n: return None
        n = m
    return None
def access_path(n):
    """('this','a','b') / (declid,'f') for lvalue chains without calls; None otherwise"""
    n = strip(n)
    if n is None: return None
    if n.k == "CXXThisExpr": return ("this",)
    if n.k == "DeclRefExpr": return (n.a["d"],) if n.a.get("dk") != "Function" else None
    if n.k == "MemberExpr":
        b = access_path(n.c[0]) if n.c else ("this",)
        return None if b is None else b + (n.a["n"],)
    if n.k == "UnaryOperator" and n.a.get("op") == "*":
        b = access_path(n.c[0]); return None if b is None else b + ("*",)
    if n.k == "ArraySubscriptExpr":
        b = access_path(n.c[0]); return None if b is None else b + ("[]",)
    if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("[]",):
        b = access_path(n.c[1]); return None if b is None else b + ("[]",)
    if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("*", "->"):
        b = access_path(n.c[1]); return None if b is None else b + ("*",)
    if n.k == "CXXMemberCallExpr" and (callee(n) or "").rsplit("::", 1)[-1] in ("back", "front", "at", "begin", "end", "data", "find", "get"):
        o = obj(n); b = access_path(o) if o is not None else None
        return None if b is None else b + ("[]",)
    if n.k == "CXXConstructExpr" and n.a.get("cc") and n.c: return access_path(n.c[0])
    return None
def strlit(n):
    """text of a string/char16 literal (through _u / _uv user literals and UString constructors)"""
    n = strip(n)
    if n is None: return None
    if n.k == "StringLiteral": return n.a["v"]
    if n.k == "UserDefinedLiteral":
        for x in n.walk():
            if x.k == "StringLiteral": return x.a["v"]
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.c: return strlit(n.c[0])
    return None
