"""Writer/reader agreement by value numbering.

A writer is interpreted abstractly over its syntax tree into a *tape*: the sequence of primitive items it
puts into the file, with every value an affine expression over the fields of the object written and loops
kept as loops (trip count, body, loop-carried variables).  The reader is then interpreted against that tape:
every primitive read takes the next item, a loop is matched with a loop, loop-carried variables of the reader
are paired with those of the writer by induction.  What the reader stores is compared with what was written.
Nothing is executed and no loop is unrolled."""
import random
from .prog import AnalysisBroken, CALLS, where
from .flow import strip, cargs, callee, strlit

class Mismatch(Exception):
    def __init__(self, node, msg): self.node = node; self.msg = msg; super().__init__(msg)
    def __str__(self): return "%s: %s" % (where(self.node) if self.node is not None else "?", self.msg)
class NeedTape(Exception): pass
class Thrown(Exception): pass

# ------------------------------------------------------------------ values
class E:
    """affine expression: c + sum coef*atom"""
    __slots__ = ("c", "t", "_h")
    def __init__(self, c=0, t=()): self.c = c; self.t = t; self._h = hash((c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, E) and self.c == o.c and self.t == o.t
    def __repr__(self): return "(" + "+".join([str(self.c)] * (self.c != 0 or not self.t) + ["%s%s" % ("" if k == 1 else "%s*" % k, show(a)) for a, k in self.t]) + ")"
    @property
    def const(self): return None if self.t else self.c
def narrow(v, t):
    """conversion of a constant that does not fit the type"""
    if isinstance(v, E) and v.const is not None and isinstance(v.c, int) and v.c > 0 and t is not None and t.isint and t.w:
        x = v.c & ((1 << t.w) - 1)
        if t.bool: return E(int(v.c != 0))
        if t.sg and x >> (t.w - 1): x -= 1 << t.w
        return E(x)
    return v
def atom(*a): return E(0, ((a, 1),))
def mk(c, d): return E(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0]))))
def add(a, b, s=1):
    d = dict(a.t)
    for x, k in b.t: d[x] = d.get(x, 0) + s * k
    return mk(a.c + s * b.c, d)
def scale(a, k): return mk(a.c * k, {x: c * k for x, c in a.t})
class Ref:
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def __hash__(self): return hash(("Ref", self.p))
    def __eq__(self, o): return isinstance(o, Ref) and self.p == o.p
    def __repr__(self): return "&%s" % show(self.p)
class Iter:
    __slots__ = ("p", "i")
    def __init__(self, p, i): self.p = p; self.i = i
    def __hash__(self): return hash(("Iter", self.p, self.i))
    def __eq__(self, o): return isinstance(o, Iter) and (self.p, self.i) == (o.p, o.i)
    def __repr__(self): return "it(%s,%r)" % (show(self.p), self.i)
class Ins:
    """insert iterator"""
    def __init__(self, p): self.p = p
    def __hash__(self): return hash(("Ins", self.p))
    def __eq__(self, o): return isinstance(o, Ins) and self.p == o.p
class Str:
    """parts: int code units, ("whole", place), ("inner", place), ("rep", Loop, parts), ("phi", ...)"""
    __slots__ = ("s",)
    def __init__(self, s=()): self.s = norm_str(tuple(s))
    def __hash__(self): return hash(("Str", self.s))
    def __eq__(self, o): return isinstance(o, Str) and self.s == o.s
    def __repr__(self): return "str" + repr(self.s)
class Rec:
    """pair-like value"""
    __slots__ = ("f",)
    def __init__(self, f): self.f = tuple(f)
    def __hash__(self): return hash(("Rec", self.f))
    def __eq__(self, o): return isinstance(o, Rec) and self.f == o.f
    def __repr__(self): return "{%s}" % ", ".join("%s" % (v,) for _, v in self.f)
    def get(self, n): return dict(self.f).get(n)
class Opq:
    """a value the analysis knows nothing about"""
    n = 0
    def __init__(self, tag=""): Opq.n += 1; self.tag = "%s#%d" % (tag, Opq.n)
    def __repr__(self): return "?" + self.tag
class FileV:
    def __eq__(self, o): return isinstance(o, FileV)
    def __hash__(self): return 7
    def __repr__(self): return "FILE"
FILEV = FileV()
class Loop:
    n = 0
    def __init__(self, node): Loop.n += 1; self.id = Loop.n; self.node = node; self.k = atom("k", self.id); self.count = None; self.body = []; self.phis = {}
    def __repr__(self): return "loop%d*%r" % (self.id, self.count)
def show(p):
    if isinstance(p, tuple) and p and isinstance(p[0], tuple) and p[0] and p[0][0] in ("W", "R", "L"):
        return "".join(["%s" % (p[0][1],)] + [("[%r]" % (x[1],) if isinstance(x, tuple) and x[0] == "[]" else ".%s" % (x,)) for x in p[1:]])
    if isinstance(p, tuple): return "%s(%s)" % (p[0], ",".join(show(x) if isinstance(x, tuple) else "%s" % (x,) for x in p[1:]))
    return str(p)

def norm_str(s):
    out = []
    for x in s:
        if isinstance(x, tuple) and x[0] == "rep":
            L, parts = x[1], x[2]
            if L.count is not None and L.count.const == 0: continue
            if len(parts) == 1 and isinstance(parts[0], E) and len(parts[0].t) == 1 and parts[0].c == 0:
                a, k = parts[0].t[0]
                if k == 1 and a[0] == "cp" and a[2] == L.k and L.count == ncps(a[1]): out.extend(a[1].s); continue
                if k == 1 and a[0] == "leaf" and a[1][-1] == ("[]", L.k) and L.count == atom("units", Str((("whole", a[1][:-1]),))): out.append(("whole", a[1][:-1])); continue
        out.append(x)
    i = 0
    while i + 2 < len(out):
        if out[i] == 60 and out[i + 2] == 62 and isinstance(out[i + 1], tuple) and out[i + 1][0] == "inner": out[i:i + 3] = [("whole", out[i + 1][1])]
        i += 1
    return tuple(out)
def ncps(s):
    if not s.s: return E(0)
    if len(s.s) == 1 and isinstance(s.s[0], tuple) and s.s[0][0] == "rep" and len(s.s[0][2]) == 1: return s.s[0][1].count
    if all(isinstance(x, int) for x in s.s): return E(len(s.s))
    return atom("ncps", s)
def cp(s, i):
    if len(s.s) == 1 and isinstance(s.s[0], tuple) and s.s[0][0] == "rep" and len(s.s[0][2]) == 1 and isinstance(s.s[0][2][0], E):
        return subst(s.s[0][2][0], {s.s[0][1].k.t[0][0]: i})
    if all(isinstance(x, int) for x in s.s) and i.const is not None and 0 <= i.const < len(s.s): return E(s.s[i.const])
    return atom("cp", s, i)

def subst(v, m):
    """replace atoms (keys of m) by expressions, everywhere inside v"""
    if isinstance(v, E):
        r = E(v.c)
        for a, k in v.t:
            x = m.get(a)
            if x is None:
                b = subst_t(a, m)
                x = rebuild(b) if b != a else E(0, ((a, 1),))
            r = add(r, scale(x, k))
        return r
    if isinstance(v, Rec): return Rec((n, subst(x, m)) for n, x in v.f)
    if isinstance(v, Ref): return Ref(subst_t(v.p, m))
    if isinstance(v, Iter): return Iter(subst_t(v.p, m), subst(v.i, m))
    if isinstance(v, Str): return Str(tuple(subst_t(x, m) if isinstance(x, tuple) and x[0] != "rep" else subst(x, m) if isinstance(x, E) else x for x in v.s))
    return v
def subst_t(t, m):
    return tuple(subst_t(x, m) if isinstance(x, tuple) else subst(x, m) if isinstance(x, (E, Rec, Ref, Iter, Str)) else x for x in t)
REBUILD = {}
def rebuild(a):
    if a[0] == "mod": return mod(a[1], a[2])
    if a[0] == "ite": return ite(a[1], a[2], a[3])
    return E(0, ((a, 1),))
def ite(c, x, y):
    if x == y: return x
    if c[0] == "not": return ite(c[1], y, x)
    return E(0, ((("ite", c, x, y), 1),))
def lift(e):
    """pull the first conditional of e to the top"""
    for a, k in e.t:
        if a[0] == "ite":
            rest = add(e, E(0, ((a, k),)), -1)
            x, y = add(rest, scale(a[2], k)), add(rest, scale(a[3], k))
            return a[1], lift1(x), lift1(y)
    return None
def lift1(e):
    l = lift(e)
    return e if l is None else ite(*l)
INRANGE = []                                     # facts: functions (expr, bound) -> 0 <= expr < bound
def mod(a, b):
    l = lift(a)
    if l is not None: return ite(l[0], mod(l[1], b), mod(l[2], b))
    for x, k in a.t:
        if x[0] == "mod" and x[2] == b: return mod(add(add(a, E(0, ((x, k),)), -1), scale(x[1], k)), b)
    if a.const is not None and b.const: return E(a.const % b.const)
    if len(b.t) == 1 and b.c == 0 and b.t[0][1] == 1:
        d = dict(a.t); d.pop(b.t[0][0], None); a = mk(a.c, d)
    if any(f(a, b) for f in INRANGE): return a
    return E(0, ((("mod", a, b), 1),))

# ------------------------------------------------------------------ numeric models (witnesses of a difference)
class Model:
    def __init__(self, seed, loops, leaf=None, big=False): self.big = big; self.seed = seed; self.loops = loops; self.memo = {}; self.leaf = leaf; self.depth = 0
    def rnd(self, key, lo, hi): return random.Random("%s|%r" % (self.seed, key)).randint(lo, hi)
    def num(self, e, ks):
        if isinstance(e, E): return e.c + sum(k * self.atom(a, ks) for a, k in e.t)
        if isinstance(e, Rec): return tuple(self.num(v, ks) for _, v in e.f)
        if isinstance(e, Ref): return self.place(e.p, ks)
        if isinstance(e, Str): return self.string(e, ks)
        if isinstance(e, Iter): return (self.place(e.p, ks), self.num(e.i, ks))
        raise AnalysisBroken("value %r cannot be compared" % (e,))
    def string(self, s, ks):
        out = []
        for x in s.s:
            if isinstance(x, int): out.append(x)
            elif isinstance(x, E): out.append(self.num(x, ks))
            elif x[0] == "rep":
                for i in range(max(0, min(self.num(x[1].count, ks), 6))):
                    k2 = dict(ks); k2[x[1].id] = i
                    out.extend(self.string(Str(x[2]), k2))
            elif x[0] in ("whole", "inner"):
                w = self.sval(self.place(x[1], ks)); out.extend(w if x[0] == "whole" else w[1:-1])
            else: raise AnalysisBroken("string %r cannot be compared" % (s,))
        return tuple(out)
    def sval(self, p): return (60,) + tuple(self.rnd(("ch", p, i), 65, 0x1F600) for i in range(self.rnd(("sl", p), 1, 4))) + (62,)
    def place(self, p, ks):
        return tuple(("[]", self.num(x[1], ks)) if isinstance(x, tuple) and x[0] == "[]" and isinstance(x[1], (E, Rec, Str)) else x for x in p)
    def atom(self, a, ks):
        t = a[0]
        if t == "k":
            if a[1] not in ks: raise AnalysisBroken("loop index outside its loop")
            return ks[a[1]]
        if t == "leaf":
            p = self.place(a[1], ks)
            if self.leaf is not None:
                v = self.leaf(self, p)
                if v is not None: return v
            if p[-1] == "#len": return self.rnd(p, 2, 4) if not self.big else self.rnd(p, 250, 70000)
            return self.rnd(p, -40, 60) if not self.big else self.rnd(p, 0, 70000)
        if t == "phi":
            L = self.loops[a[1]]; init, end = L.phis[a]
            k = ks.get(L.id, 0)
            if k <= 0: return self.num(init, ks)
            k2 = dict(ks); k2[L.id] = k - 1
            return self.num(end, k2)
        if t == "fin":
            L = self.loops[a[1]]; init, end = L.phis[("phi",) + a[1:]]
            n = self.num(L.count, ks)
            if n <= 0: return self.num(init, ks)
            k2 = dict(ks); k2[L.id] = n - 1
            return self.num(end, k2)
        if t == "mod":
            x, y = self.num(a[1], ks), self.num(a[2], ks)
            return 0 if y == 0 else abs(x) % abs(y) * (1 if x >= 0 else -1)
        if t == "ite": return self.num(a[2] if self.cond(a[1], ks) else a[3], ks)
        if t == "ncps": return len(self.string(a[1], ks))
        if t == "cp":
            s = self.string(a[1], ks); i = self.num(a[2], ks)
            return s[i] if 0 <= i < len(s) else 0
        if t in ("t16", "t8"): return self.num(a[1], ks) & (0xFFFF if t == "t16" else 0xFF)
        if t == "op":
            x, y = self.num(a[2], ks), self.num(a[3], ks)
            return {"*": lambda: x * y, "/": lambda: int(x / y) if y else 0, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << (y & 31), ">>": lambda: x >> (y & 31)}[a[1]]()
        if t in ("call", "const", "float"): return self.rnd(subst_num(self, a, ks), 1, 50)
        raise AnalysisBroken("term %r cannot be compared" % (a,))
    def cond(self, c, ks):
        if c[0] == "not": return not self.cond(c[1], ks)
        if c[0] == "cmp" and isinstance(c[2], E) and isinstance(c[3], E):
            x, y = self.num(c[2], ks), self.num(c[3], ks)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[c[1]]
        return bool(self.rnd(subst_num(self, c, ks), 0, 1))
def subst_num(m, t, ks):
    return tuple(subst_num(m, x, ks) if isinstance(x, tuple) else m.num(x, ks) if isinstance(x, (E, Rec, Ref, Str)) else repr(x) if not isinstance(x, (str, int)) else x for x in t)

def differ(a, b, loops, nest, leaf=None, tries=40):
    """None: equal; a witness text: different; AnalysisBroken: cannot be decided.  nest: loops around, outermost first"""
    if a == b: return None
    if isinstance(a, E) and isinstance(b, E) and lift1(a) == lift1(b): return None
    for s in range(tries + 8):
        big = s >= tries
        if big and "t8" not in repr((a, b)) and "t16" not in repr((a, b)): break
        m = Model(s, loops, leaf, big); ks = {}
        ok = True
        for L in nest:
            n = m.num(L.count, ks)
            if n <= 0: ok = False; break
            ks[L.id] = m.rnd(("pick", L.id), 0, min(n - 1, 8))
        if not ok: continue
        try: x, y = m.num(a, ks), m.num(b, ks)
        except RecursionError:
            if big: continue
            raise AnalysisBroken("value too deep")
        if x != y: return "for example %s instead of %s%s" % (txt(x), txt(y), " at element " + ",".join(str(ks[L.id]) for L in nest) if nest else "")
    raise AnalysisBroken("%r and %r look equal but are not proved equal" % (a, b))
def txt(x): return show(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str) else repr(x)

# ------------------------------------------------------------------ interpreter
class State:
    __slots__ = ("mem", "out", "cur", "ev", "guards")
    def __init__(self): self.mem = {}; self.out = []; self.cur = None; self.ev = []; self.guards = ()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.out = list(self.out); s.cur = self.cur; s.ev = list(self.ev); s.guards = self.guards
        return s

def tname(t): return ((t.s if t is not None else "") or "").replace("const ", "").strip()
STRCONT = []          # non-empty: strings are treated as containers of code units
def is_str(t):
    if STRCONT: return False
    s = tname(t).rstrip("&* ").strip()
    return s.startswith(("std::basic_string<", "std::__cxx11::basic_string<", "std::basic_string_view<", "std::string")) or s in ("UString", "UStringView")
CONT = ("std::map<", "std::multimap<", "std::set<", "std::vector<", "std::list<", "std::deque<", "std::unordered_map<", "std::multiset<", "std::unordered_set<", "sorted_vector", "std::__debug")
def is_cont(t):
    if STRCONT and tname(t).startswith(("std::basic_string<", "std::__cxx11::basic_string<")): return True
    return tname(t).rstrip("&* ").strip().startswith(CONT)

class Tp:
    maxdepth = 14
    def __init__(self, prog, mode, assume=None, modular=(), pairs=None, tape=None):
        self.p = prog; self.mode = mode; self.assume = assume or {}; self.modular = modular; self.tape = tape
        self.S = State(); self.env = [{}]; self.this = [None]; self.depth = 0; self.loops = {}; self.nest = []; self.fns = set(); self.nl = 0; self.reads = 0
        self.maythrow = []
        if tape is not None: self.S.cur = (tuple(tape), 0)
    # ---- places and memory
    def local(self, v): return (("L", "%s#%d" % (v.n, self.uid(v))),)
    def uid(self, v): self.nl += 1; return self.nl
    def load(self, p, t):
        S = self.S
        if p in S.mem: return S.mem[p]
        if is_str(t):
            r = self.elem_of(p)
            return r if r is not None else Str((("whole", p),))
        if t is not None and (t.rec and not t.ptr):
            r = self.elem_of(p)
            return r if r is not None else Ref(p)
        r = self.elem_of(p)
        if r is not None: return r
        return self.leafval(p)
    def leafval(self, p): return atom("leaf", p)
    def elem_of(self, p):
        """value of an element (or a field of one) of a local container from what was put into it"""
        for i in range(len(p) - 1, 0, -1):
            x = p[i]
            if isinstance(x, tuple) and x[0] == "[]" and p[0][0] == "L":
                c = p[:i]
                evs = [e for e in self.S.ev if e[2] == c and e[1] in ("push", "put")]
                if len(evs) != 1 or evs[0][4]: return None
                loops, op, _, v, g = evs[0]
                if len(loops) != len([l for l in self.nest if l in loops]) + 1: return None
                L = loops[-1]
                if not isinstance(x[1], E): return None
                v = subst(v, {L.k.t[0][0]: x[1]})
                for f in p[i + 1:]:
                    if isinstance(v, Rec): v = v.get(f)
                    elif isinstance(v, Ref): return self.load(v.p + p[i + 1:], None)
                    else: return None
                return v
        return None
    def store(self, p, v):
        for k in [k for k in self.S.mem if len(k) > len(p) and k[:len(p)] == p]: del self.S.mem[k]
        if isinstance(v, Rec):
            for n, x in v.f: self.store(p + (n,), x)
            return
        self.S.mem[p] = v
    def emit(self, item): self.S.out.append(item)
    def event(self, op, place, v): self.S.ev.append((tuple(self.nest), op, place, v, self.S.guards))
    # ---- tape
    def take(self, kinds, node):
        S = self.S; self.reads += 1
        if S.cur is None: raise NeedTape()
        if S.cur[0] == "dirty": raise Mismatch(node, "the contents are read without going back over the bytes that were not a header")
        tape, pos = S.cur
        if pos >= len(tape): raise Mismatch(node, "reads %s where nothing more was written" % self.kname(kinds[0]))
        it = tape[pos]
        if it[0] == "str" and "str" not in kinds:
            L = Loop(it[2]); L.count = ncps(it[1]); L.body = [("mb", cp(it[1], L.k), it[2])]; self.loops[L.id] = L
            tape = tape[:pos] + (("mb", L.count, it[2]), ("loop", L, it[2])) + tape[pos + 1:]; it = tape[pos]; S.cur = (tape, pos)
        if it[0] == "alt": raise AnalysisBroken("writer writes one of several forms at %s" % where(it[-1]))
        if it[0] not in kinds:
            if it[0] == "loop" or "raw" in kinds: raise AnalysisBroken("reader and writer are not aligned at %s / %s" % (where(node), where(it[-1])))
            raise Mismatch(node, "reads %s where %s was written (%s)" % (self.kname(kinds[0]), self.kname(it[0]), where(it[-1])))
        S.cur = (tape, pos + 1)
        return it
    KN = {"mb": "an integer", "lmb": "a weight", "be": "a 64-bit field", "raw": "header bytes", "str": "a string", "obj": "an object", "loop": "a repeated part", "sc": "a fixed-width number"}
    def kname(self, k): return self.KN.get(k, k)
    def peek(self):
        S = self.S
        if S.cur is None or S.cur[0] == "dirty": return None
        tape, pos = S.cur
        return tape[pos] if pos < len(tape) else None
    # ---- statements
    def run(self, f, args, this=None):
        """interpret f; args: list of values (Ref for references)"""
        if self.depth > self.maxdepth: raise AnalysisBroken("calls nested too deeply at %s" % f.qn)
        self.fns.add(f.key); self.depth += 1
        self.env.append({}); self.this.append(this)
        try:
            for q, v in zip(f.params, args): self.bind(q, v)
            for i in f.inits:
                if i.get("e") is None: continue
                self.member_init(f, i)
            sig = self.seq([f.body], 0, "fn") if f.body is not None else None
        finally:
            self.env.pop(); self.this.pop(); self.depth -= 1
        if sig is None: return None
        if sig[0] == "throw": raise Thrown()
        return sig[1] if sig[0] == "ret" else None
    def member_init(self, f, i):
        n = i.get("f") or i.get("field") or i.get("n")
        if n is None or self.this[-1] is None: return
        p = self.this[-1] + (n,)
        e = i["e"]
        t = e.t
        if e.k == "CXXConstructExpr" and (is_cont(t) or is_str(t)) and not [x for x in e.c if x.k != "CXXDefaultArgExpr"]:
            self.fresh(p, t); return
        v = self.rval(e)
        self.init_place(p, t, v)
    def init_place(self, p, t, v):
        if is_cont(t) and isinstance(v, Ref): self.S.mem[p] = v; return      # a copy of a container (read only)
        self.store(p, v)
    def fresh(self, p, t):
        if is_str(t): self.S.mem[p] = Str()
        elif is_cont(t): self.clear(p)
    def clear(self, p):
        self.S.ev = [e for e in self.S.ev if e[2][:len(p)] != p]
        for k in [k for k in self.S.mem if k[:len(p)] == p]: del self.S.mem[k]
        self.S.mem[p + ("#len",)] = E(0)
    def bind(self, q, v):
        if q.t is not None and q.t.ref and isinstance(v, Ref): self.env[-1][q.d] = v.p; return
        p = self.local(q); self.env[-1][q.d] = p
        if isinstance(v, Ref) and q.t is not None and q.t.rec and not q.t.ptr: self.env[-1][q.d] = v.p; return
        if v is None: v = Opq(q.n)
        if isinstance(v, Ref) and not (q.t is not None and q.t.ptr): v = self.deref(v, q.t)
        self.store(p, v)
    def seq(self, stmts, i, tail):
        while i < len(stmts):
            s = stmts[i]; i += 1
            last = i == len(stmts)
            if s is None: continue
            if s.k == "CompoundStmt":
                if last: return self.seq(list(s.c), 0, tail)
                # flatten so that early exits can be followed to the end
                stmts = list(s.c) + list(stmts[i:]); i = 0; continue
            if s.k == "IfStmt":
                if s.a.get("init") is not None: self.stmt(s.a["init"])
                if s.a.get("cvar") is not None: self.stmt(s.a["cvar"])
                c = self.cond(s.a["cond"])
                if c is True or c is False:
                    b = s.a["then"] if c else s.a.get("else")
                    if b is not None: stmts = [b] + list(stmts[i:]); i = 0
                    continue
                rest = list(stmts[i:])
                S0 = self.S.copy(); e0 = dict(self.env[-1])
                r = []
                for val, b in ((True, s.a["then"]), (False, s.a.get("else"))):
                    self.S = S0.copy(); self.env[-1] = dict(e0)
                    g = c if val else ("not", c)
                    self.S.guards = S0.guards + (g,)
                    sig = self.seq([b], 0, None) if b is not None else None
                    r.append([sig, self.S, self.env[-1]])
                for x in r:
                    x[1].guards = S0.guards
                if r[0][0] and r[0][0][0] == "throw" and r[1][0] and r[1][0][0] == "throw": return r[0][0]
                if r[0][0] and r[0][0][0] == "throw": self.maythrow.append((c, s)); sig, self.S, self.env[-1] = r[1]
                elif r[1][0] and r[1][0][0] == "throw": self.maythrow.append((("not", c), s)); sig, self.S, self.env[-1] = r[0]
                elif r[0][0] is None and r[1][0] is None:
                    self.S = self.merge(c, r[0][1], r[1][1]); self.env[-1] = {**r[1][2], **r[0][2]}; sig = None
                else:
                    if tail is None: raise AnalysisBroken("early exit under an undecided condition at %s" % where(s))
                    for j, x in enumerate(r):
                        if x[0] is None:
                            self.S, self.env[-1] = x[1], x[2]
                            self.S.guards = S0.guards + ((c if j == 0 else ("not", c)),)
                            x[0] = self.seq(rest, 0, tail); x[1] = self.S; x[2] = self.env[-1]; x[1].guards = S0.guards
                        if x[0] is None: x[0] = ("ret", None) if tail == "fn" else ("cont",)
                    if r[0][0][0] != r[1][0][0] or r[0][0][0] not in ("ret", "cont"): raise AnalysisBroken("paths end differently at %s" % where(s))
                    self.S = self.merge(c, r[0][1], r[1][1]); self.env[-1] = r[0][2]
                    if r[0][0][0] == "ret":
                        a, b = r[0][0][1], r[1][0][1]
                        return ("ret", self.mergev(c, a, b))
                    return r[0][0]
                if sig is not None: return sig
                continue
            sig = self.stmt(s)
            if sig is not None: return sig
        return None
    def mergev(self, c, a, b):
        if a is b or (type(a) is type(b) and not isinstance(a, Opq) and a == b): return a
        if isinstance(a, E) and isinstance(b, E): return ite(c, a, b)
        return Opq("merge")
    def merge(self, c, A, B):
        s = State(); s.guards = A.guards
        for k in set(A.mem) | set(B.mem):
            a, b = A.mem.get(k), B.mem.get(k)
            if a is None or b is None:
                x = a if a is not None else b
                if isinstance(x, E):
                    o = atom("leaf", k)
                    s.mem[k] = self.mergev(c, a if a is not None else o, b if b is not None else o)
                else: s.mem[k] = x if k[0][0] == "L" else Opq("merge")
            else: s.mem[k] = self.mergev(c, a, b)
        n = 0
        while n < len(A.out) and n < len(B.out) and A.out[n] is B.out[n]: n += 1
        x, y = A.out[n:], B.out[n:]
        s.out = A.out[:n]
        if len(x) == len(y) and all(u[0] == v[0] and u[0] in ("mb", "lmb", "be") for u, v in zip(x, y)):
            s.out += [(u[0], self.mergev(c, u[1], v[1]), u[2]) for u, v in zip(x, y)]
        elif x or y: s.out.append(("alt", c, x, y, (x or y)[0][-1]))
        if A.cur != B.cur: raise AnalysisBroken("reader takes different amounts on different paths")
        s.cur = A.cur
        n = 0
        while n < len(A.ev) and n < len(B.ev) and A.ev[n] is B.ev[n]: n += 1
        s.ev = A.ev[:n]; bb = list(B.ev[n:])
        for e in A.ev[n:]:
            m = [f for f in bb if f[:4] == e[:4]]
            if m: bb.remove(m[0]); s.ev.append(e[:4] + (A.guards[:-1] if A.guards and A.guards == e[4] else e[4][:-1] if e[4] else (),))
            else: s.ev.append(e)
        s.ev += bb
        return s
    def stmt(self, s):
        k = s.k
        if k == "CompoundStmt": return self.seq(list(s.c), 0, None)
        if k == "IfStmt": return self.seq([s], 0, None)
        if k == "DeclStmt":
            for v in s.a.get("vars", ()): self.declare(v)
            return None
        if k == "ReturnStmt":
            if not s.c: return ("ret", None)
            v = self.eval(s.c[0])
            if isinstance(v, Ref) and s.fn is not None and s.fn.ret is not None and not s.fn.ret.ref: v = self.deref(v, s.fn.ret)
            return ("ret", v)
        if k == "BreakStmt": return ("brk",)
        if k == "ContinueStmt": return ("cont",)
        if k == "NullStmt": return None
        if k == "ForStmt":
            if s.a.get("init") is not None: self.stmt(s.a["init"])
            return self.loop(s, s.a.get("cond"), s.a.get("inc"), [s.a["body"]])
        if k == "WhileStmt": return self.loop(s, s.a.get("cond"), None, [s.a["body"]])
        if k == "CXXForRangeStmt":
            for x in ("range", "begin", "end"):
                if s.a.get(x) is not None: self.stmt(s.a[x])
            return self.loop(s, s.a["cond"], s.a["inc"], [s.a["var"], s.a["body"]])
        if k == "DoStmt": raise AnalysisBroken("do-while loop at %s" % where(s))
        if k in ("SwitchStmt", "GotoStmt", "CXXTryStmt"): raise AnalysisBroken("%s at %s" % (k, where(s)))
        n = s
        while n.k in ("ExprWithCleanups", "ParenExpr") and n.c: n = n.c[0]
        if n.k == "CXXThrowExpr": return ("throw", n)
        if n.k in CALLS and n.a.get("nr"): return ("throw", n)
        self.eval(s)
        return None
    def declare(self, v):
        p = self.local(v); t = v.t
        if v.bind:
            r = self.eval(v.init)
            if isinstance(r, Rec): self.store(p, r); base = p
            elif isinstance(r, Ref): base = r.p
            else: raise AnalysisBroken("structured binding of %r" % (r,))
            for i, b in enumerate(v.bind):
                q = base + (("first", "second")[i] if i < 2 else "#%d" % i,)
                self.env[-1][b.d] = q
                if b.bind: self.env[-1][b.bind] = q
            return
        if t is not None and t.ref:
            r = self.eval(v.init)
            if isinstance(r, Ref): self.env[-1][v.d] = r.p; return
            self.env[-1][v.d] = p; self.store(p, r); return
        self.env[-1][v.d] = p
        for k in [k for k in self.S.mem if k[:1] == p]: del self.S.mem[k]
        i = strip(v.init) if v.init is not None else None
        if i is None or i.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not (i.a.get("cc") or i.a.get("mc")) and not [x for x in i.c if x.k != "CXXDefaultArgExpr"]:
            if is_cont(t) or is_str(t): self.fresh(p, t); return
            if i is not None and t is not None and t.rec:
                self.construct(i, p); return
            return
        r = self.eval(v.init)
        if isinstance(r, Ref) and (is_cont(t) or t is not None and t.rec and not t.ptr and not is_str(t)):
            if r.p[0][0] == "L" and r.p != p: self.rename(r.p, p) if self.is_temp(r.p) else self.env[-1].__setitem__(v.d, r.p)
            else: self.env[-1][v.d] = r.p
            return
        self.store(p, self.deref(r, t) if isinstance(r, Ref) and not (t is not None and t.ptr) else r)
    def is_temp(self, p): return False
    def rename(self, a, b):
        S = self.S; n = len(a)
        S.mem = {(b + k[n:] if k[:n] == a else k): v for k, v in S.mem.items() if not (k[:len(b)] == b and k[:n] != a)}
        S.ev = [(l, o, b + p[n:] if p[:n] == a else p, v, g) for l, o, p, v, g in S.ev if p[:len(b)] != b or p[:n] == a]
    # ---- loops
    def assigned(self, nodes):
        out = set()
        for r in nodes:
            if r is None: continue
            for n in r.walk():
                t = None
                if n.k == "BinaryOperator" and n.a.get("op") == "=" or n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.a.get("op") in ("++", "--"): t = n.c[0]
                elif n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("++", "--", "+=", "-=", "=") and len(n.c) > 1: t = n.c[1]
                t = strip(t) if t is not None else None
                if t is not None and t.k == "DeclRefExpr" and t.a.get("d") is not None:
                    p = self.env[-1].get(t.a["d"])
                    if p is not None and not isinstance(self.S.mem.get(p), Ins): out.add(p)
        return out
    def loop(self, s, cond, inc, body):
        S0 = self.S; e0 = self.env[-1]
        item = self.peek() if self.mode == "r" else None
        cands = {p for p in self.assigned([cond, inc] + body) if p in S0.mem}
        L = Loop(s); self.loops[L.id] = L
        consuming = None; known = {}
        for rounds in range(14):
            lp = L
            if self.mode == "r" and consuming and item is not None and item[0] == "loop": lp = item[1]
            self.S = S0.copy(); self.env[-1] = dict(e0); start = {}
            for p in cands:
                v = S0.mem[p]; a = ("phi", L.id, show(p))
                if p in known: x = known[p](lp)
                elif isinstance(v, E): x = E(0, ((a, 1),))
                elif isinstance(v, Iter): x = Iter(v.p, E(0, ((a, 1),)))
                elif isinstance(v, Str): x = Str((a,))
                else: x = Opq("loop")
                start[p] = x; self.S.mem[p] = x
            if self.mode == "r": self.S.cur = (tuple(item[1].body), 0) if item is not None and item[0] == "loop" else None
            cur0 = self.S.cur
            self.S.out = []
            nest0 = self.nest; self.nest = nest0 + [lp]
            reads0 = self.reads; self.reads = 0
            try:
                try:
                    c = self.condv(cond) if cond is not None else True
                    sig = self.seq(list(body), 0, "loop")
                    if sig is not None and sig[0] not in ("cont",): raise AnalysisBroken("loop left early at %s" % where(s))
                    if inc is not None: self.eval(inc)
                except NeedTape:
                    # a loop that reads, but the next thing written is not a loop
                    if item is None and S0.cur is None: raise
                    c = self.trycount(S0, e0, cond, cands)
                    if c is not None: return self.unroll(s, S0, e0, cond, inc, body, nest0, c)
                    raise AnalysisBroken("reader loops where the writer does not (%s)" % where(s))
            finally:
                self.nest = nest0; r1 = self.reads; self.reads = reads0 + r1
            if self.mode == "r" and consuming is None:
                consuming = self.S.cur != cur0
                if consuming: continue
            ends = {p: self.S.mem.get(p) for p in cands}
            # other places that changed
            more = {p for p, v in S0.mem.items() if p not in cands and self.S.mem.get(p) != v and self.S.mem.get(p) is not None and not isinstance(v, Opq)}
            if more: cands |= more; known = {}; continue
            # induction
            again = False
            for p in cands:
                if p in known: continue
                v0, st, en = S0.mem[p], start[p], ends[p]
                if isinstance(v0, E) and isinstance(en, E) or isinstance(v0, Iter) and isinstance(en, Iter) and en.p == v0.p:
                    i0, s0, n0 = (v0, st, en) if isinstance(v0, E) else (v0.i, st.i, en.i)
                    d = add(n0, s0, -1)
                    if d.const is not None:
                        known[p] = (lambda q, i0=i0, c=d.const, v0=v0: (lambda e: e if isinstance(v0, E) else Iter(v0.p, e))(add(i0, scale(q.k, c))))
                        known[p].step = d.const; again = True
                elif isinstance(v0, Str) and isinstance(en, Str) and en.s[:1] == st.s and en.s == st.s:
                    known[p] = lambda q, v0=v0: v0; known[p].step = 0; again = True
            if again: continue
            break
        else: raise AnalysisBroken("loop at %s does not settle" % where(s))
        # pair loop-carried variables of the reader with those of the writer
        if self.mode == "r" and consuming:
            wl = item[1]
            free = [p for p in cands if p not in known and isinstance(S0.mem[p], E)]
            used = {p: [a for a, (i, e) in sorted(wl.phis.items(), key=repr) if i == S0.mem[p]] for p in free}
            choice = {p: 0 for p in free if used[p]}
            for _ in range(12):
                k2 = dict(known)
                for p, i in choice.items():
                    if i < len(used[p]): k2[p] = (lambda q, a=used[p][i]: E(0, ((a, 1),))); k2[p].step = None
                start, ends, c = self.bodyrun(s, S0, e0, cond, inc, body, wl, item, cands, k2, L)
                bad = [p for p, i in choice.items() if i < len(used[p]) and (not isinstance(ends[p], E) or lift1(ends[p]) != lift1(wl.phis[used[p][i]][1]))]
                if not bad: break
                for p in bad: choice[p] += 1
            lp = wl
        elif self.mode == "r": lp = L
        else: lp = L
        count = self.count(s, c, lp, S0, known, start)
        if count.const is not None and count.const <= 0:
            self.S = S0; self.env[-1] = e0; return None          # never entered
        if self.mode == "r" and consuming:
            if self.S.cur[1] != len(self.S.cur[0]):
                it = self.S.cur[0][self.S.cur[1]]
                raise Mismatch(s, "each element holds %s (%s) that the loop does not read" % (self.kname(it[0]), where(it[-1])))
            w = differ(count, lp.count, self.loops, self.nest, getattr(self, "leaf", None))
            if w: raise Mismatch(s, "the number of elements read is not the number written: %s" % w)
            self.S.cur = (S0.cur[0] if S0.cur else None, S0.cur[1] + 1)
        elif self.mode == "r": self.S.cur = S0.cur
        if lp is L:
            L.count = count
        for p in cands:                     # remember how loop-carried values evolve (used for witnesses and pairing)
            if p in known: continue
            a = ("phi", L.id, show(p))
            if isinstance(S0.mem[p], E) and isinstance(ends[p], E): L.phis[a] = (S0.mem[p], ends[p])
        if lp is not L: L.count = lp.count; L.k = lp.k; self.alias(L, lp)
        if self.mode == "w":
            L.body = self.S.out; out = self.S.out; self.S.out = S0.out + ([("loop", L, s)] if out else [])
        # values after the loop
        for p in cands:
            v0 = S0.mem[p]
            if p in known and known[p].step is not None:
                st = known[p].step
                if isinstance(v0, E): x = add(v0, self.times(count, st))
                elif isinstance(v0, Iter): x = Iter(v0.p, add(v0.i, self.times(count, st)))
                else: x = v0
            elif isinstance(v0, E) and isinstance(ends[p], E): x = atom("fin", L.id, show(p))
            elif isinstance(v0, Str) and isinstance(ends[p], Str) and ends[p].s[:1] == start[p].s: x = Str(v0.s + (("rep", lp, ends[p].s[1:]),))
            else: x = Opq("after loop")
            self.S.mem[p] = x
        for d in [d for d in self.env[-1] if d not in e0]: pass
        return None
    def alias(self, L, lp):
        # the loop of the reader runs in step with the one of the writer: same index
        self.loops[L.id] = L; L.id_w = lp.id
        for a, (i, e) in list(L.phis.items()): lp_ph = getattr(lp, "rphis", None)
        self.loops[L.id] = _Alias(L, lp)
    def bodyrun(self, s, S0, e0, cond, inc, body, lp, item, cands, known, L):
        self.S = S0.copy(); self.env[-1] = dict(e0); start = {}
        for p in cands:
            v = S0.mem[p]; a = ("phi", L.id, show(p))
            if p in known: x = known[p](lp)
            elif isinstance(v, E): x = E(0, ((a, 1),))
            elif isinstance(v, Iter): x = Iter(v.p, E(0, ((a, 1),)))
            elif isinstance(v, Str): x = Str((a,))
            else: x = Opq("loop")
            start[p] = x; self.S.mem[p] = x
        self.S.cur = (tuple(item[1].body), 0); self.S.out = []
        nest0 = self.nest; self.nest = nest0 + [lp]
        try:
            c = self.condv(cond) if cond is not None else True
            self.seq(list(body), 0, "loop")
            if inc is not None: self.eval(inc)
        finally: self.nest = nest0
        return start, {p: self.S.mem.get(p) for p in cands}, c
    def times(self, e, k): return scale(e, k)
    def trycount(self, S0, e0, cond, cands):
        """number of iterations when it is a small constant (decided by running the condition)"""
        return 1 if cond is not None else None
    def unroll(self, s, S0, e0, cond, inc, body, nest0, _):
        self.S = S0.copy(); self.env[-1] = dict(e0); self.nest = nest0
        for i in range(5):
            c = self.cond(cond)
            if c is False: return None
            if c is not True: raise AnalysisBroken("reader loops where the writer does not (%s)" % where(s))
            sig = self.seq(list(body), 0, "loop")
            if sig is not None and sig[0] == "brk": return None
            if sig is not None and sig[0] != "cont": return sig
            if inc is not None: self.eval(inc)
        raise AnalysisBroken("loop at %s runs too often to be followed" % where(s))
    def count(self, s, c, L, S0, known, start):
        """trip count from the loop condition, an expression in L.k"""
        if isinstance(c, tuple) and c[0] == "not":
            inv = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}
            if c[1][0] == "cmp": c = ("cmp", inv[c[1][1]]) + c[1][2:]
        if isinstance(c, E): c = ("cmp", "!=", c, E(0))
        if not (isinstance(c, tuple) and c[0] == "cmp"): raise AnalysisBroken("loop condition at %s not understood" % where(s))
        op, a, b = c[1:4]
        if isinstance(a, Iter) and isinstance(b, Iter) and a.p == b.p: a, b = a.i, b.i
        if not isinstance(a, E) or not isinstance(b, E): raise AnalysisBroken("loop condition at %s not understood" % where(s))
        d = add(a, b, -1); ka = L.k.t[0][0]
        t = dict(d.t); st = t.pop(ka, 0); d0 = mk(d.c, t)
        if any(mentions(x, ka) for x in t): raise AnalysisBroken("loop bound at %s changes" % where(s))
        if st == 0 and d0.const is not None:
            v = {"<": d0.c < 0, ">": d0.c > 0, "!=": d0.c != 0, "==": d0.c == 0, "<=": d0.c <= 0, ">=": d0.c >= 0}[op]
            if not v: return E(0)
        if op in ("<", "!=") and st == 1: return scale(d0, -1)
        if op in (">", "!=") and st == -1: return d0
        if op == "<=" and st == 1: return add(scale(d0, -1), E(1))
        if op == ">=" and st == -1: return add(d0, E(1))
        raise AnalysisBroken("number of iterations at %s not understood" % where(s))
    # ---- conditions
    def cond(self, n):
        c = self.condv(n)
        if isinstance(c, E):
            if c.const is not None: return bool(c.const)
            return ("cmp", "!=", c, E(0))
        if isinstance(c, tuple) and c[0] == "cmp" and isinstance(c[2], E) and isinstance(c[3], E):
            d = add(c[2], c[3], -1)
            if d.const is not None: return {"<": d.c < 0, ">": d.c > 0, "!=": d.c != 0, "==": d.c == 0, "<=": d.c <= 0, ">=": d.c >= 0}[c[1]]
        if isinstance(c, tuple) and c[0] == "cmp" and isinstance(c[2], Iter) and isinstance(c[3], Iter) and c[2].p == c[3].p:
            d = add(c[2].i, c[3].i, -1)
            if d.const is not None: return (d.c == 0) == (c[1] == "==")
        if isinstance(c, tuple) and c[0] == "not":
            x = c[1]
            if x is True or x is False: return not x
        if isinstance(c, (Opq, Ref, Str, Iter, Rec)) or c is None: return ("opaque", repr(c))
        return c
    def condv(self, n):
        """comparison value ("cmp", op, a, b), ("not", x), E or bool"""
        n0 = n
        while n.k in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr", "CXXRewrittenBinaryOperator", "ConstantExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr") and n.c and (n.k != "ImplicitCastExpr" or n.a.get("ck") not in ("LValueToRValue",)) and n.a.get("cv") is None: n = n.c[0]
        if n.k == "UnaryOperator" and n.a.get("op") == "!":
            c = self.cond(n.c[0])
            return (not c) if c is True or c is False else c[1] if c[0] == "not" else ("not", c)
        if n.k == "BinaryOperator" and n.a.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            x, y = self.rval(n.c[0]), self.rval(n.c[1])
            sp = self.sameplace(x, y) if n.a["op"] in ("==", "!=") else None
            if sp is not None: return sp == (n.a["op"] == "==")
            return ("cmp", n.a["op"], x, y)
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("==", "!=", "<", ">", "<=", ">=") and n.a.get("fn") not in self.p.fns:
            a = cargs(n)
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, Str) and isinstance(y, Str) and all(isinstance(z, int) for z in x.s + y.s): return (x == y) == (n.a["op"] == "==")
            return ("cmp", n.a["op"], x, y)
        if n.k == "BinaryOperator" and n.a.get("op") in ("&&", "||"):
            a = self.cond(n.c[0]); isand = n.a["op"] == "&&"
            if a is (not isand): return a
            b = self.cond(n.c[1])
            if a is isand: return b
            if b is isand: return a
            return ("and" if isand else "or", a, b)
        v = self.rval(n)
        if isinstance(v, bool): return E(int(v))
        return v
    # ---- expressions
    def deref(self, r, t):
        while isinstance(r, Ref):
            v = self.load(r.p, t)
            if isinstance(v, Ref) and v.p == r.p: return v
            r = v
        return r
    def rval(self, n):
        v = self.eval(n)
        if isinstance(v, Ref) and n.a.get("lv") and not (n.t is not None and n.t.rec and not is_str(n.t)): return self.deref(v, n.t)
        return v
    def val(self, n):
        """value of an argument that may be passed by reference"""
        v = self.eval(n); t = n.t
        if isinstance(v, Ref):
            if is_str(t) or t is not None and (t.isint or t.fl or t.enum): return self.deref(v, t)
            m = self.S.mem.get(v.p)
            if isinstance(m, (Iter, Str, E)): return m
        return v
    def eval(self, n):
        k = n.k
        if n.a.get("cv") is not None and k not in ("DeclRefExpr",):
            try: return E(int(n.a["cv"]))
            except (TypeError, ValueError): pass
        m = getattr(self, "x_" + k, None)
        if m is not None: return m(n)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator", "CXXStdInitializerListExpr"):
            x = n.c[0] if n.c else n.a.get("sub")
            return self.eval(x) if x is not None else Opq(k)
        if k in CALLS: return self.call(n)
        for c in n.c:
            if c is not None: self.eval(c)
        return Opq(k)
    def x_IntegerLiteral(self, n): return E(int(n.a["v"]))
    x_CharacterLiteral = x_CXXBoolLiteralExpr = x_IntegerLiteral
    def x_FloatingLiteral(self, n): return atom("float", str(float(n.a["fv"]))) if float(n.a["fv"]) else E(0)
    def x_StringLiteral(self, n): return Str(tuple(ord(c) for c in n.a["v"]))
    def x_UserDefinedLiteral(self, n):
        s = strlit(n)
        return Str(tuple(ord(c) for c in s)) if s is not None else Opq("lit")
    def x_CXXThisExpr(self, n): return Ref(self.this[-1]) if self.this[-1] is not None else Opq("this")
    def x_DeclRefExpr(self, n):
        c = n.a.get("cv") if n.a.get("cv") is not None else n.a.get("ev")
        if c is not None: return E(int(c))
        d = n.a.get("d")
        for e in (self.env[-1],):
            if d in e: return Ref(e[d])
        g = self.p.globals.get(n.a.get("g"))
        if g is not None and g["init"] is not None:
            v = self.gconst(g["init"])
            if v is not None: return v
        if n.a.get("g"): return atom("const", n.a["g"]) if not is_str(n.t) else Opq(n.a["g"])
        return Opq(n.a.get("n") or "?")
    def gconst(self, i):
        s = strlit(i)
        if s is not None: return Str(tuple(ord(c) for c in s))
        i = strip(i)
        if i is not None and i.k == "InitListExpr":
            out = []
            for x in i.c:
                from .flow import const_of
                c = const_of(x)
                if c is None: return None
                out.append(c)
            return Str(tuple(out))
        return None
    def x_MemberExpr(self, n):
        if not n.c: return Opq("member")
        b = self.eval(n.c[0])
        if isinstance(b, Iter): b = Ref(b.p + (("[]", b.i),))
        if isinstance(b, Rec): return b.get(n.a["n"]) if b.get(n.a["n"]) is not None else Opq("field")
        if isinstance(b, E) and b.t and b.t[0][0][0] == "call": return atom("call", "field:" + n.a["n"], b)
        if isinstance(b, Ref):
            q = self.S.mem.get(b.p)
            if isinstance(q, Ref): b = q
            elif isinstance(q, Iter): b = Ref(q.p + (("[]", q.i),))
            elif isinstance(q, E) and q.t and q.t[0][0][0] == "call": return atom("call", "field:" + n.a["n"], q)
            return Ref(b.p + (n.a["n"],))
        if n.a.get("dk") == "Var" or n.a.get("g"): return self.x_DeclRefExpr(n)
        return Opq("member")
    def sameplace(self, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.p == y.p: return True
            if x.p[0] != y.p[0] and len(x.p) == 1 and len(y.p) == 1: return False
        return None
    def x_ImplicitCastExpr(self, n):
        ck = n.a.get("ck"); c = n.c[0]
        v = self.eval(c)
        if ck == "LValueToRValue":
            return self.deref(v, c.t) if isinstance(v, Ref) else v
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
            if isinstance(v, Ref): v = self.deref(v, c.t)
            if ck == "IntegralCast" and isinstance(v, E) and n.t is not None and n.t.w in (8, 16) and not n.t.bool and v.const is None and c.t is not None and (c.t.w or 0) > n.t.w: return E(0, ((("t%d" % n.t.w, v), 1),))
            return narrow(v, n.t)
        return v
    def x_CXXStaticCastExpr(self, n):
        v = self.eval(n.c[0])
        if isinstance(v, E) and n.t is not None and n.t.w in (8, 16) and not n.t.bool and v.const is None and n.c[0].t is not None and (n.c[0].t.w or 0) > n.t.w: return E(0, ((("t%d" % n.t.w, v), 1),))
        return narrow(v, n.t)
    x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXStaticCastExpr
    def x_UnaryOperator(self, n):
        op = n.a.get("op")
        if op in ("++", "--"):
            r = self.eval(n.c[0]); old = self.deref(r, n.c[0].t) if isinstance(r, Ref) else r
            new = add(old, E(1 if op == "++" else -1)) if isinstance(old, E) else Opq("++")
            if isinstance(r, Ref): self.store(r.p, new)
            return old if n.a.get("post") else r
        if op == "&": return self.eval(n.c[0])
        if op == "*":
            v = self.eval(n.c[0])
            if isinstance(v, Iter): return Ref(v.p + (("[]", v.i),))
            if isinstance(v, Ref):
                x = self.S.mem.get(v.p)
                if isinstance(x, Ref): return x
                if isinstance(x, Iter): return Ref(x.p + (("[]", x.i),))
            return v
        if op == "!":
            c = self.cond(n.c[0])
            return E(int(not c)) if c is True or c is False else Opq("!")
        v = self.rval(n.c[0])
        if op == "-" and isinstance(v, E): return scale(v, -1)
        if op == "+": return v
        return Opq(op)
    def arith(self, op, a, b):
        if not isinstance(a, E) or not isinstance(b, E): return Opq(op)
        if op == "+": return add(a, b)
        if op == "-": return add(a, b, -1)
        if op == "*" and a.const is not None: return scale(b, a.const)
        if op == "*" and b.const is not None: return scale(a, b.const)
        if op == "%": return mod(a, b)
        if a.const is not None and b.const is not None:
            x, y = a.const, b.const
            try: return E({"/": lambda: int(x / y), "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]())
            except (KeyError, ZeroDivisionError, ValueError): return Opq(op)
        if op in ("*", "/", "&", "|", "^", "<<", ">>"): return E(0, ((("op", op, a, b), 1),))
        return Opq(op)
    def x_BinaryOperator(self, n):
        op = n.a.get("op")
        if op == "=":
            v = self.rval(n.c[1]); l = self.eval(n.c[0])
            self.assign(l, v, n)
            return l
        if op == ",": self.eval(n.c[0]); return self.eval(n.c[1])
        if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            c = self.cond(n)
            return E(int(c)) if c is True or c is False else ite(c, E(1), E(0)) if isinstance(c, tuple) and c[0] in ("cmp", "not") else Opq("cmp")
        return self.arith(op, self.rval(n.c[0]), self.rval(n.c[1]))
    def x_CompoundAssignOperator(self, n):
        l = self.eval(n.c[0]); b = self.rval(n.c[1])
        a = self.deref(l, n.c[0].t) if isinstance(l, Ref) else l
        self.assign(l, self.arith(n.a["op"][:-1], a, b), n)
        return l
    def x_ConditionalOperator(self, n):
        c = self.cond(n.c[0])
        if c is True: return self.eval(n.c[1])
        if c is False: return self.eval(n.c[2])
        S0 = self.S
        self.S = S0.copy(); a = self.rval(n.c[1]); A = self.S
        self.S = S0.copy(); b = self.rval(n.c[2]); B = self.S
        self.S = self.merge(c, A, B)
        return self.mergev(c, a, b)
    def x_ArraySubscriptExpr(self, n):
        b = self.eval(n.c[0]); i = self.rval(n.c[1])
        if isinstance(b, Ref): return Ref(b.p + (("[]", i),))
        return Opq("[]")
    def x_InitListExpr(self, n):
        if len(n.c) == 2 and tname(n.t).startswith("std::pair<"): return Rec((("first", self.val(n.c[0])), ("second", self.val(n.c[1]))))
        if len(n.c) == 1: return self.eval(n.c[0])
        for c in n.c: self.eval(c)
        return Opq("init")
    def x_CXXThrowExpr(self, n): raise Thrown()
    def x_LambdaExpr(self, n): return Opq("lambda")
    def assign(self, l, v, n):
        if not isinstance(l, Ref): raise AnalysisBroken("assignment at %s not tracked" % where(n))
        p = l.p
        if p[0][0] == "W": raise AnalysisBroken("the object written changes at %s" % where(n))
        if isinstance(v, Ref) and n.k == "BinaryOperator": pass
        # element of a container addressed by key: an insertion
        if isinstance(p[-1], tuple) and p[-1][0] == "[]":
            self.put(p[:-1], p[-1][1], v)
            return
        self.store(p, v)
    def put(self, c, key, v):
        """container c gets value v under key (replaces)"""
        self.event("put", c, Rec((("first", key), ("second", v))))
        self.grow(c)
    def grow(self, c):
        l = self.S.mem.get(c + ("#len",))
        if isinstance(l, E): self.S.mem[c + ("#len",)] = add(l, E(1))
    def length(self, p):
        v = self.S.mem.get(p + ("#len",))
        if v is not None: return v
        q = self.S.mem.get(p)
        if isinstance(q, Ref): return self.length(q.p)
        x = self.elem_of(p)
        return atom("leaf", p + ("#len",))
    # ---- calls
    def args(self, n): return [x for x in cargs(n)]
    def call(self, n):
        qn = callee(n) or ""; b = qn.rsplit("::", 1)[-1]; fn = n.a.get("fn")
        r = self.prim(n, qn, b)
        if r is not NotImplemented: return r
        r = self.std(n, qn, b)
        if r is not NotImplemented: return r
        g = self.p.fns.get(fn)
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "=" and g is not None and (g.flags.get("ca") or g.flags.get("ma")):
            l, v = self.eval(n.c[1]), self.eval(n.c[2])      # assignment of a library object (complete: P08)
            if isinstance(l, Ref) and isinstance(v, Ref):
                if l.p[0][0] == "W": raise AnalysisBroken("the object written changes at %s" % where(n))
                if v.p[0][0] == "L": self.rename(v.p, l.p)
                else: self.store(l.p, v)
                return l
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if (n.a.get("cc") or n.a.get("mc")) and n.c: return self.eval(n.c[0])
            p = (("L", "tmp#%d" % self.uid(None)),)
            return self.construct(n, p)
        if g is not None and g.body is not None:
            a = self.args(n); this = None
            if n.k == "CXXOperatorCallExpr" and g.cls and g.dk != "Function":
                o = self.eval(a[0]); a = a[1:]; this = o.p if isinstance(o, Ref) else None
            elif n.k == "CXXMemberCallExpr":
                o = self.objof(n); this = o.p if isinstance(o, Ref) else None
                if this is not None:
                    q = self.S.mem.get(this)
                    if isinstance(q, Ref): this = q.p
            vals = [self.argval(g.params[i], a[i]) if i < len(a) else None for i in range(len(g.params))]
            for i in range(len(a), len(g.params)):
                if g.params[i].init is not None: vals[i] = self.eval(g.params[i].init)
            return self.run(g, vals, this)
        vals = [self.eval(x) for x in self.args(n)]
        if any(isinstance(self.fileof(v), FileV) for v in vals): raise AnalysisBroken("unknown use of the file: %s at %s" % (qn, where(n)))
        return self.opaque(n, qn, vals)
    HARMLESS = ("operator<<", "std::endl", "std::min", "std::max", "std::cerr", "std::cout", "std::abs")
    def opaque(self, n, qn, vals):
        """a call that is not modelled: if it could change something that is tracked, the analysis has lost it"""
        if n.k == "CXXMemberCallExpr":
            o = self.objof(n)
            if isinstance(o, (Ref, Iter, Ins)) and not n.a.get("cm") and (not isinstance(o, Ref) or o.p[0][0] == "R" or any(k[:len(o.p)] == o.p for k in self.S.mem)): raise AnalysisBroken("%s at %s not modelled" % (qn, where(n)))
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("=", "+=", "-=", "*=", "|=", "&=", "()") and vals and isinstance(vals[0], (Ref, Opq)): raise AnalysisBroken("%s at %s not modelled" % (qn, where(n)))
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not qn.startswith(self.HARMLESS):
            for v in vals:
                if isinstance(v, (Iter, Ins)) or isinstance(v, Opq) and v.tag.startswith("lambda"): raise AnalysisBroken("%s at %s not modelled" % (qn, where(n)))
                if isinstance(v, Ref) and v.p[0][0] == "R": raise AnalysisBroken("%s at %s not modelled" % (qn, where(n)))
        return Opq(qn)
    def argval(self, q, e):
        v = self.eval(e)
        if isinstance(v, Ref) and not (q.t is not None and (q.t.ref or q.t.ptr or q.t.rec and not is_str(q.t))): return self.deref(v, e.t)
        if isinstance(v, Ref) and is_str(q.t) and not q.t.ref: return self.deref(v, e.t)
        return v
    def fileof(self, v):
        if isinstance(v, Ref): return self.S.mem.get(v.p)
        return v
    def objof(self, n):
        me = n.c[0]
        while me.k in ("ParenExpr", "ImplicitCastExpr") and me.c: me = me.c[0]
        if me.k != "MemberExpr" or not me.c: return None
        o = self.eval(me.c[0])
        if isinstance(o, Iter): return Ref(o.p + (("[]", o.i),))
        if isinstance(o, Ref):
            q = self.S.mem.get(o.p)
            if isinstance(q, Ref) : return q
            if isinstance(q, Iter) and me.a.get("ar"): return Ref(q.p + (("[]", q.i),))
        return o
    def construct(self, n, p):
        g = self.p.fns.get(n.a.get("fn"))
        if g is not None and (g.body is not None):
            a = self.args(n)
            vals = [self.argval(g.params[i], a[i]) if i < len(a) and a[i].k != "CXXDefaultArgExpr" else (self.eval(g.params[i].init) if g.params[i].init is not None else None) for i in range(len(g.params))]
            rec = self.p.records.get(g.cls)
            if rec is not None:
                for f in rec["fields"]:
                    if is_cont(f["t"]) or is_str(f["t"]): self.fresh(p + (f["n"],), f["t"])
            self.run(g, vals, p)
        else:
            rec = self.p.records.get(n.t.rec) if n.t is not None and n.t.rec else None
            if rec is not None:
                for f in rec["fields"]:
                    if is_cont(f["t"]) or is_str(f["t"]): self.fresh(p + (f["n"],), f["t"])
            for x in self.args(n): self.eval(x)
        return Ref(p)
    # ---- primitives of the file format
    def prim(self, n, qn, b):
        a = self.args(n)
        if qn == "Compression::multibyte_write": v = self.val(a[0]); self.emit(("mb", self.need(v, n), n)); return None
        if qn == "Compression::long_multibyte_write": v = self.val(a[0]); self.emit(("lmb", self.need(v, n), n)); return None
        if b.startswith("write_be"): v = self.val(a[1]); self.emit(("be", self.need(v, n), n)); return None
        if qn == "Compression::string_write" and "str" in self.modular:
            v = self.val(a[0])
            if not isinstance(v, Str): raise AnalysisBroken("string written at %s not tracked" % where(n))
            self.emit(("str", v, n)); return None
        if qn == "Compression::multibyte_read": return self.take(("mb",), n)[1]
        if qn == "Compression::long_multibyte_read": return self.take(("lmb",), n)[1]
        if b.startswith("read_be"): return self.take(("be",), n)[1]
        if qn == "Compression::string_read" and "str" in self.modular:
            it = self.peek()
            if it is not None and it[0] == "str": return self.take(("str",), n)[1]
            return NotImplemented
        if b in ("fwrite", "fwrite_unlocked"):
            v = self.eval(a[0]); v = self.deref(v, None) if isinstance(v, Ref) else v
            c = [self.val(x) for x in a[1:3]]
            if not isinstance(v, Str) or not all(isinstance(x, E) and x.const is not None for x in c): raise AnalysisBroken("bytes written at %s not tracked" % where(n))
            k = c[0].const * c[1].const
            self.emit(("raw", v.s[:k] if len(v.s) >= k else v.s + ("?",) * (k - len(v.s)), n)); return Opq("fwrite")
        if b in ("fread", "fread_unlocked"):
            d = self.eval(a[0]); c = [self.val(x) for x in a[1:3]]
            if not isinstance(d, Ref) or not all(isinstance(x, E) and x.const is not None for x in c): raise AnalysisBroken("bytes read at %s not tracked" % where(n))
            k = c[0].const * c[1].const
            it = self.peek()
            if self.S.cur is None: raise NeedTape()
            if it is not None and it[0] == "raw":
                if len(it[1]) != k: raise Mismatch(n, "reads %d header bytes, %d were written (%s)" % (k, len(it[1]), where(it[-1])))
                self.take(("raw",), n); self.S.mem[d.p] = Str(it[1])
            else:
                self.S.mem[d.p] = Opq("bytes"); c0 = self.S.cur
                self.S.cur = ("dirty", c0[1], c0[2] + k) if c0[0] == "dirty" else ("dirty", c0, k)
            return E(c[1].const)
        if b in ("strncmp", "memcmp", "strcmp"):
            x, y = (self.val(z) for z in a[:2])
            x, y = (self.deref(z, None) if isinstance(z, Ref) else z for z in (x, y))
            k = self.val(a[2]).const if len(a) > 2 and isinstance(self.val(a[2]), E) else None
            if isinstance(x, Str) and isinstance(y, Str) and k is not None and all(isinstance(z, int) for z in x.s + y.s):
                return E(int(x.s[:k] != y.s[:k]))
            if isinstance(x, Opq) or isinstance(y, Opq): return E(1)            # bytes that are not a header
            raise AnalysisBroken("comparison at %s not understood" % where(n))
        if b == "equal" and qn.startswith("std::"): raise AnalysisBroken("comparison at %s not understood" % where(n))
        if b == "fgetpos":
            d = self.eval(a[1])
            if isinstance(d, Ref): self.S.mem[d.p] = _Pos(self.S.cur)
            return E(0)
        if b == "fsetpos":
            d = self.eval(a[1]); v = self.S.mem.get(d.p) if isinstance(d, Ref) else None
            if not isinstance(v, _Pos): raise Mismatch(n, "goes back to a position that was not saved")
            self.S.cur = v.c; return E(0)
        if b in ("ftell", "ftello"): return _Pos(self.S.cur)
        if b in ("fseek", "fseeko"):
            v = self.val(a[1]); w = self.val(a[2])
            if isinstance(v, _Pos): self.S.cur = v.c; return E(0)
            if isinstance(v, E) and v.const is not None and isinstance(w, E) and w.const == 1:
                c0 = self.S.cur
                if v.const == 0: return E(0)
                if c0 is not None and c0[0] == "dirty" and v.const == -c0[2]: self.S.cur = c0[1]; return E(0)
                if c0 is not None and c0[0] == "dirty": raise Mismatch(n, "goes back %d bytes after %d were read" % (-v.const, c0[2]))
            raise AnalysisBroken("%s at %s" % (b, where(n)))
        if b in ("rewind", "ungetc", "fgetc", "fputc", "getc", "putc"): raise AnalysisBroken("%s at %s" % (b, where(n)))
        if b == "ustring_to_vec32":
            s = self.val(a[0]); d = self.eval(a[1])
            if not isinstance(s, Str) or not isinstance(d, Ref): raise AnalysisBroken("string at %s not tracked" % where(n))
            l = self.S.mem.get(d.p + ("#len",))
            if not isinstance(l, E) or l.const != 0: raise AnalysisBroken("vector at %s is not empty" % where(n))
            L = Loop(n); L.count = ncps(s); self.loops[L.id] = L
            self.S.mem[d.p + ("#len",)] = L.count
            self.S.ev.append((tuple(self.nest) + (L,), "push", d.p, cp(s, L.k), self.S.guards)); return None
        return NotImplemented
    def need(self, v, n):
        if not isinstance(v, E): raise AnalysisBroken("value written at %s not tracked" % where(n))
        return v
    # ---- standard library
    def std(self, n, qn, b):
        fn = n.a.get("fn"); a = self.args(n)
        lib = fn not in self.p.fns
        if not lib and b == "operator+=" and len(a) == 2 and is_str(a[0].t):       # UString += UChar32
            return self.append(n, a[0], a[1], wide=True)
        if not lib and qn in ("operator<<",): 
            for x in a: self.eval(x)
            return Opq("ostream")
        if not lib: return NotImplemented
        if n.k == "CXXOperatorCallExpr":
            op = n.a.get("op")
            if op in ("==", "!=", "<", ">", "<=", ">="):
                c = self.cond(n)
                return E(int(c)) if c is True or c is False else Opq("cmp")
            if op in ("++", "--"):
                r = self.eval(a[0]); v = self.S.mem.get(r.p) if isinstance(r, Ref) else r
                if isinstance(v, Iter):
                    nv = Iter(v.p, add(v.i, E(1 if op == "++" else -1)))
                    if isinstance(r, Ref): self.S.mem[r.p] = nv
                    return v if len(a) > 1 else r
                if isinstance(v, Ins): return v
                return Opq("++")
            if op in ("*", "->"):
                v = self.val(a[0])
                if isinstance(v, Ins): return v
                if isinstance(v, Iter): return Ref(v.p + (("[]", v.i),))
                return v
            if op == "[]":
                o = self.eval(a[0]); i = self.whole(self.val(a[1]), a[1].t)
                if isinstance(o, Ref):
                    q = self.S.mem.get(o.p)
                    if isinstance(q, Ref): o = q
                    if is_str(a[0].t): return Opq("char")
                    if "map<" in tname(a[0].t) and o.p[0][0] != "W": self.event("touch", o.p, i if not isinstance(i, Ref) else i)
                    return Ref(o.p + (("[]", i),))
                return Opq("[]")
            if op == "=":
                l = self.eval(a[0]); v = self.val(a[1])
                if isinstance(l, Ins):
                    self.event("push", l.p, self.whole(v, a[1].t)); self.grow(l.p); return l
                if isinstance(l, Ref):
                    if l.p[0][0] == "W": raise AnalysisBroken("the object written changes at %s" % where(n))
                    if isinstance(v, Ref) and not isinstance(self.S.mem.get(v.p), (E, Str, Iter)):
                        if v.p[0][0] == "L": self.rename(v.p, l.p)
                        else: self.event("copy", l.p, v); self.clear(l.p); self.S.mem[l.p] = v
                    else: self.assign(l, v, n)
                elif l is None or isinstance(l, Opq): raise AnalysisBroken("assignment at %s not tracked" % where(n))
                return l
            if op == "+=" and STRCONT and is_cont(a[0].t) and not is_cont(a[1].t):
                o = self.eval(a[0]); v = self.val(a[1])
                if isinstance(o, Ref): self.event("push", o.p, v); self.grow(o.p); return o
            if op == "+=" and is_str(a[0].t): return self.append(n, a[0], a[1])
            if op == "+" and is_str(n.t):
                x, y = self.strval(a[0]), self.strval(a[1])
                return Str(x + y) if x is not None and y is not None else Opq("+")
            if op in ("+", "-"):
                x, y = self.val(a[0]), self.val(a[1])
                if isinstance(x, Iter) and isinstance(y, E): return Iter(x.p, add(x.i, y, 1 if op == "+" else -1))
                if isinstance(x, Iter) and isinstance(y, Iter) and x.p == y.p: return add(x.i, y.i, -1)
                return Opq(op)
            if op in ("<<", ">>", "!"):
                vs = [self.eval(x) for x in a]
                return Opq("stream")
            return NotImplemented
        if n.k == "CXXMemberCallExpr":
            o = self.objof(n); t = self.objtype(n)
            if b == "size" or b == "length":
                if is_str(t):
                    s = self.deref(o, t) if isinstance(o, Ref) else o
                    if isinstance(s, Str):
                        if all(isinstance(x, int) for x in s.s): return E(len(s.s))
                        return atom("units", s)
                    return Opq("size")
                if isinstance(o, Ref): return self.length(o.p)
            if b == "empty":
                if is_str(t):
                    s = self.deref(o, t) if isinstance(o, Ref) else o
                    return E(int(not s.s)) if isinstance(s, Str) and (not s.s or any(isinstance(x, int) for x in s.s)) else Opq("empty")
                if isinstance(o, Ref):
                    l = self.length(o.p)
                    return E(int(l.const == 0)) if isinstance(l, E) and l.const is not None else ite(("cmp", "==", l, E(0)), E(1), E(0))
            if is_str(t) or isinstance(o, Str):
                s = self.deref(o, t) if isinstance(o, Ref) else o
                if b == "substr" and isinstance(s, Str):
                    x = [self.val(z) for z in a if z.k != "CXXDefaultArgExpr"]
                    if len(x) == 2 and all(isinstance(z, E) for z in x) and x[0] == E(1) and x[1] == add(atom("units", s), E(-2)) and len(s.s) == 1 and isinstance(s.s[0], tuple) and s.s[0][0] == "whole": return Str((("inner", s.s[0][1]),))
                    raise AnalysisBroken("substring at %s not understood" % where(n))
                if b in ("c_str", "data") or b.startswith("operator"): return s if isinstance(s, Str) else o
                if b in ("reserve", "shrink_to_fit"): return None
                if b == "clear" and isinstance(o, Ref): self.S.mem[o.p] = Str(); return None
                if b in ("push_back", "append") and len(a) == 1:
                    return self.append(n, None, a[0], ref=o)
                raise AnalysisBroken("string operation %s at %s" % (b, where(n)))
            if isinstance(o, Ref) and (is_cont(t) or b in ("begin", "end", "cbegin", "cend")):
                if b in ("begin", "cbegin"): return Iter(self.cplace(o.p), E(0))
                if b in ("end", "cend"): return Iter(self.cplace(o.p), self.length(o.p))
                if b == "find":
                    k = self.val(a[0]); return Iter(self.cplace(o.p), atom("call", "find", o.p, k if not isinstance(k, Opq) else repr(k)))
                if b in ("count", "contains"):
                    k = self.val(a[0]); return atom("call", "count", o.p, k if not isinstance(k, Opq) else repr(k))
                if b in ("reserve", "shrink_to_fit"): return None
                if o.p[0][0] == "W" and not n.a.get("cm") and b not in ("at", "rbegin", "front", "back"): raise AnalysisBroken("the object written changes at %s" % where(n))
                if b == "clear":
                    if isinstance(o.p[-1], tuple) or self.S.guards or self.nest: self.event("clear", o.p, E(0))
                    else: self.clear(o.p); self.event("clear", o.p, E(0))
                    return None
                if b in ("insert", "push_back", "emplace", "emplace_back", "push_front", "try_emplace", "insert_or_assign"):
                    vs = [self.whole(self.val(x), x.t) if x.t is not None and not x.t.ptr else self.val(x) for x in a]
                    if len(vs) == 2 and "map<" in tname(t) and b != "insert": v = Rec((("first", vs[0]), ("second", vs[1])))
                    elif len(vs) == 2 and b == "insert" and isinstance(vs[0], Iter) and not isinstance(vs[1], Iter): v = vs[1]
                    elif len(vs) == 2 and b == "emplace_back": v = Rec((("first", vs[0]), ("second", vs[1])))
                    elif len(vs) == 1: v = vs[0]
                    else: raise AnalysisBroken("insertion at %s not understood" % where(n))
                    if isinstance(v, Ref) and not a[0].t.ptr: v = self.whole(v, a[0].t)
                    self.event("put" if "map<" in tname(t) or "set<" in tname(t) else "push", o.p, v); self.grow(o.p)
                    return Opq("insert")
                if b == "resize":
                    v = self.val(a[0]); self.event("resize", o.p, v); self.S.mem[o.p + ("#len",)] = v if isinstance(v, E) else Opq("len"); return None
                if b == "at":
                    i = self.whole(self.val(a[0]), a[0].t); return Ref(o.p + (("[]", i),))
                if b == "swap":
                    v = self.eval(a[0])
                    if isinstance(v, Ref) and v.p[0][0] == "L": self.rename(v.p, o.p); return None
                raise AnalysisBroken("container operation %s at %s" % (b, where(n)))
            return NotImplemented
        if qn in ("std::move", "std::forward", "std::as_const") and a: return self.eval(a[0])
        if qn == "std::swap" and len(a) == 2:
            x, y = self.eval(a[0]), self.eval(a[1])
            if isinstance(x, Ref) and isinstance(y, Ref):
                l, r = (x, y) if y.p[0][0] == "L" else (y, x)
                if r.p[0][0] == "L": self.rename(r.p, l.p); return None
            raise AnalysisBroken("swap at %s" % where(n))
        if qn in ("std::inserter", "std::back_inserter") and a:
            v = self.eval(a[0])
            if isinstance(v, Ref):
                l = self.S.mem.get(v.p + ("#len",))
                at = self.val(a[1]) if len(a) > 1 else None
                if at is not None and not (isinstance(l, E) and l.const == 0) and not (isinstance(at, Iter) and at.i == l): raise AnalysisBroken("insertion position at %s" % where(n))
                return Ins(v.p)
        if qn in ("std::make_pair",) and len(a) == 2: return Rec((("first", self.whole(self.val(a[0]), a[0].t)), ("second", self.whole(self.val(a[1]), a[1].t))))
        if qn in ("std::begin", "std::cbegin", "std::end", "std::cend") and a:
            v = self.eval(a[0])
            if isinstance(v, Ref): return Iter(self.cplace(v.p), E(0) if "begin" in b else self.length(v.p))
        if qn in ("std::next", "std::prev"):
            v = self.val(a[0])
            if isinstance(v, Iter): return Iter(v.p, add(v.i, E(1 if "next" in qn else -1)))
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = tname(n.t)
            xs = [x for x in a if x.k != "CXXDefaultArgExpr"]
            if t.startswith("std::pair<"):
                if len(xs) == 2: return Rec((("first", self.whole(self.val(xs[0]), xs[0].t)), ("second", self.whole(self.val(xs[1]), xs[1].t))))
                if len(xs) == 1: return self.val(xs[0])
            if is_str(n.t):
                if not xs: return Str()
                if len(xs) == 1: return self.val(xs[0])
            if len(xs) == 1 and not is_cont(n.t): return self.val(xs[0])
            if is_cont(n.t) and not xs:
                p = (("L", "tmp#%d" % self.uid(None)),); self.fresh(p, n.t); return Ref(p)
            if is_cont(n.t) and len(xs) == 1: return self.eval(xs[0])
            return NotImplemented
        if n.k == "UserDefinedLiteral": return self.x_UserDefinedLiteral(n)
        return NotImplemented
    def cplace(self, p):
        q = self.S.mem.get(p)
        return q.p if isinstance(q, Ref) else p
    def whole(self, v, t):
        """a value copied out of an object"""
        if isinstance(v, Ref):
            if is_str(t) or t is not None and (t.isint or t.fl): return self.deref(v, t)
            f = self.S.mem.get(v.p + ("first",)); g = self.S.mem.get(v.p + ("second",))
            if f is not None and g is not None: return Rec((("first", f), ("second", g)))
        return v
    def objtype(self, n):
        me = n.c[0]
        while me.k in ("ParenExpr", "ImplicitCastExpr") and me.c: me = me.c[0]
        if me.k == "MemberExpr" and me.c:
            t = me.c[0].t
            return t
        return None
    def strval(self, n):
        v = self.val(n)
        if isinstance(v, Str): return v.s
        if isinstance(v, E): return (v.const,) if v.const is not None else (v,)
        return None
    def append(self, n, lhs, rhs, wide=False, ref=None):
        r = ref if ref is not None else self.eval(lhs)
        v = self.val(rhs)
        if not isinstance(r, Ref): raise AnalysisBroken("append at %s" % where(n))
        old = self.S.mem.get(r.p)
        add_ = v.s if isinstance(v, Str) else ((v.const,) if v.const is not None else (v,)) if isinstance(v, E) else None
        self.S.mem[r.p] = Str(old.s + add_) if isinstance(old, Str) and add_ is not None else Opq("str")
        return r
class _Pos:
    def __init__(self, c): self.c = c
class _Alias:
    """loop of the reader running in step with a loop of the writer"""
    def __init__(self, L, w): self.phis = L.phis; self.id = w.id; self.count = w.count; self.k = w.k
def mentions(a, x):
    if a == x: return True
    if isinstance(a, tuple): return any(mentions(y, x) for y in a)
    if isinstance(a, E): return any(mentions(y, x) for y, _ in a.t)
    if isinstance(a, (Ref,)): return mentions(a.p, x)
    return False
