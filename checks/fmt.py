"""P04 / P05 / P06: what is written to a compiled file is what is read back."""
import re
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import callee, cargs
from sa import tape
from sa.tape import Tp, E, Ref, Rec, Str, Opq, FILEV, Mismatch, Thrown, NeedTape, atom, differ, show, mod

W = (("W", "obj"),); R = (("R", "obj"),)
OBJ = {"Alphabet", "Transducer", "TransExe", "PatternList"}

class Fmt(Tp):
    """file-format interpreter: objects written by another class's write() are single items of the tape"""
    def __init__(self, prog, mode, unit, weighted=1, tape=None, modular=("str",)):
        super().__init__(prog, mode, modular=modular, tape=tape); self.unit = unit; self.weighted = weighted
    def leafval(self, p):
        # the states of a transducer are numbered 0..n-1
        if len(p) >= 3 and p[-1] == "first" and isinstance(p[-2], tuple) and p[-3] == "transitions" and isinstance(p[-2][1], E): return p[-2][1]
        return atom("leaf", p)
    def leaf(self, m, p):
        """facts used when looking for a witness"""
        if len(p) >= 3 and p[-1] == "first" and isinstance(p[-2], tuple) and p[-3] == "transitions": return p[-2][1]
        if p[-2:] == ("second", "first") and "transitions" in p:
            i = p.index("transitions")
            n = m.rnd(p[:i + 1] + ("#len",), 2, 4)
            return m.rnd(p, 0, n - 1)
        return None
    def prim(self, n, qn, b):
        r = super().prim(n, qn, b)
        if r is not NotImplemented: return r
        if qn == "Transducer::weighted":
            o = self.objof(n); return E(self.weighted)
        if qn == "Transducer::newState": return Opq("state")
        if qn == "Transducer::size" or qn == "Transducer::numberOfTransitions": return Opq(qn)
        cls = qn.rsplit("::", 1)[0]
        if cls in OBJ and b in ("write", "read") and (cls, b) != self.unit and n.k == "CXXMemberCallExpr" and "obj" in self.modular:
            o = self.objof(n)
            if not isinstance(o, Ref): raise AnalysisBroken("object of %s at %s not tracked" % (qn, where(n)))
            g = self.p.fns.get(n.a.get("fn")); a = cargs(n)
            extra = []
            for i in range(1, len(g.params) if g else len(a)):
                v = self.val(a[i]) if i < len(a) else self.eval(g.params[i].init) if g and g.params[i].init is not None else None
                extra.append(v)
            if b == "write": self.emit(("obj", (cls, o.p, tuple(extra)), n)); return None
            it = self.take(("obj",), n)
            wc, wp, wx = it[1]
            if not (wc == cls or wc == "Transducer" and cls == "TransExe"): raise Mismatch(n, "reads a %s where a %s was written (%s)" % (cls, wc, where(it[-1])))
            if wc == "Transducer":
                x = wx[0] if wx else E(0)
                y = extra[0] if cls == "Transducer" and extra else E(0)
                if isinstance(x, E) and isinstance(y, E):
                    w = differ(y, x, self.loops, self.nest, self.leaf)
                    if w: raise Mismatch(n, "symbols are read with another offset than they are written with: %s" % w)
                else: raise AnalysisBroken("offset at %s not tracked" % where(n))
            if cls == "TransExe" and (not extra or not isinstance(extra[0], Ref)): raise AnalysisBroken("alphabet at %s not tracked" % where(n))
            self.S.mem[o.p] = Ref(wp); self.event("obj", o.p, Rec((("from", Ref(wp)), ("with", extra[0] if extra and cls == "TransExe" else E(0)))))
            return None
        if b == "addTransition" and n.k == "CXXMemberCallExpr":
            o = self.objof(n); a = [self.val(x) for x in cargs(n)]
            if not isinstance(o, Ref) or len(a) != 4: raise AnalysisBroken("transition at %s not tracked" % where(n))
            self.event("trans", o.p, Rec((("in", a[0]), ("out", a[1]), ("to", a[2]), ("weight", a[3])))); return None
        if qn == "Alphabet::decode":
            o = self.objof(n); x = self.val(cargs(n)[0])
            return atom("call", "decode", o.p if isinstance(o, Ref) else repr(o), x) if isinstance(x, E) else Opq("decode")
        if qn == "TransExe::destroy": return None
        return NotImplemented

def inrange(a, b):
    """targets of transitions are states of the same transducer"""
    if a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and len(b.t) == 1 and b.c == 0:
        x, y = a.t[0][0], b.t[0][0]
        if x[0] == "leaf" and y[0] == "leaf" and x[1][-2:] == ("second", "first") and y[1][-1] == "#len" and y[1][-2] == "transitions" and x[1][:len(y[1]) - 1] == y[1][:-1]: return True
    return False
tape.INRANGE[:] = [inrange]

def filearg(f):
    for i, q in enumerate(f.params):
        if q.t is not None and q.t.ptr and "FILE" in q.t.s: return i
    return None

def write(prog, qn, weighted=1, unit=None, this=W, pick=None, extra=None, modular=("str", "obj")):
    f = pick or prog.fn(qn)
    w = Fmt(prog, "w", unit, weighted, modular=modular)
    a = []
    for q in f.params:
        if q.t is not None and q.t.ptr and "FILE" in q.t.s: a.append(FILEV)
        elif extra and q.n in extra: a.append(extra[q.n])
        elif q.t is not None and q.t.isint: a.append(atom("const", "param"))
        elif q.t is not None and tape.is_str(q.t): a.append(Str((("whole", W + (q.n,)),)))
        else: a.append(Ref(W + (q.n,)))
    w.run(f, a, this if f.cls else None)
    return w
def read(prog, qn, tp, loops, unit=None, this=R, pick=None, modular=("str", "obj"), roots=None, ints=None):
    f = pick or prog.fn(qn)
    r = Fmt(prog, "r", unit, tape=tp, modular=modular)
    r.loops.update(loops)
    a = []
    for q in f.params:
        if q.t is not None and q.t.ptr and "FILE" in q.t.s: a.append(FILEV)
        elif q.t is not None and q.t.isint: a.append(ints if ints is not None else E(0))
        else: a.append(Ref((roots or {}).get(q.n, R + (q.n,))))
    r.value = r.run(f, a, this if f.cls else None)
    return r

# ------------------------------------------------------------------ comparison of what was stored with what was written
class Slot:
    """expected contents: place suffix, nest of containers, value as functions of the loop indices"""
    def __init__(self, label, nest, place, value, op=("put", "push"), need=True): self.label = label; self.nest = nest; self.place = place; self.value = value; self.op = op

def leaf(*p): return atom("leaf", W + p)
def ln(*p): return atom("leaf", W + p + ("#len",))
def idx(k): return ("[]", k)
DEF = atom("const", "default_weight")

def norm(v):
    """default_weight is one constant, wherever it is kept"""
    def f(a):
        if a[0] == "leaf" and a[1][-1] == "default_weight": return DEF
        return None
    return walkv(v, f)
def walkv(v, f):
    if isinstance(v, E):
        r = E(v.c)
        for a, k in v.t:
            x = f(a)
            if x is None:
                b = tuple(walkv(y, f) if isinstance(y, (E, Rec, Ref, Str)) else y for y in a)
                x = E(0, ((b, 1),))
            r = tape.add(r, tape.scale(x, k))
        return r
    if isinstance(v, Rec): return Rec((n, walkv(x, f)) for n, x in v.f)
    return v

def absent(g):
    """guard that says: the key was not there yet"""
    return g[0] == "cmp" and g[1] == "==" and any(isinstance(x, tape.Iter) and any(a[0] == "call" and a[1] == "find" for a, _ in x.i.t) for x in g[2:4])

def compare(r, slot, node, what):
    """check one expected slot against the events of the reader r"""
    evs = []
    for e in r.S.ev:
        loops, op, p, v, g = e
        if op not in slot.op or len(p) < 1 or p[0][0] != "R": continue
        if skel(p) == skel(slot.place([E(0)] * len(slot.nest))): evs.append(e)
    if not evs: raise Mismatch(node, "%s is not restored" % slot.label)
    if len(evs) == 2 and evs[0][0] == evs[1][0] and len(evs[0][4]) == len(evs[1][4]) == 1 and (evs[0][4][0] == ("not", evs[1][4][0]) or evs[1][4][0] == ("not", evs[0][4][0])) and evs[0][2] == evs[1][2]:
        a, b = evs if evs[1][4][0][0] == "not" else evs[::-1]
        evs = [a[:3] + (mix(a[4][0], a[3], b[3]), ())]
    if len(evs) != 1: raise AnalysisBroken("%s is stored in %d places" % (slot.label, len(evs)))
    loops, op, p, v, g = evs[0]
    if len(loops) != len(slot.nest): raise AnalysisBroken("%s: stored in %d nested loops, expected %d" % (slot.label, len(loops), len(slot.nest)))
    ks = [L.k for L in loops]
    for i, (L, c) in enumerate(zip(loops, slot.nest)):
        w = differ(L.count, c(ks[:i]), r.loops, loops[:i], r.leaf)
        if w: raise Mismatch(L.node, "%s: the number of elements is %s" % (slot.label, w))
    for c in g:
        if witness_false(c, r, loops): raise Mismatch(loops[-1].node if loops else node, "%s: an element is left out when %s" % (slot.label, "a condition on it does not hold"))
        raise AnalysisBroken("%s is stored under a condition" % slot.label)
    if not any(isinstance(x, Opq) for x in flat(v)):
        w = differ(norm(v), norm(slot.value(ks)), r.loops, loops, r.leaf)
        if w: raise Mismatch(loops[-1].node if loops else node, "%s comes back changed: %s" % (slot.label, w))
    else: raise AnalysisBroken("%s: value not tracked" % slot.label)
    w = differ(Ref(p), Ref(slot.place(ks)), r.loops, loops, r.leaf)
    if w: raise Mismatch(loops[-1].node if loops else node, "%s is stored in the wrong place: %s" % (slot.label, w))
def mix(c, a, b):
    if isinstance(a, E) and isinstance(b, E): return tape.ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and len(a.f) == len(b.f): return Rec((n, mix(c, x, y)) for (n, x), (_, y) in zip(a.f, b.f))
    return a if a == b else Opq("mix")
def flat(v):
    if isinstance(v, Rec):
        for _, x in v.f: yield from flat(x)
    else: yield v
def skel(p): return tuple("[]" if isinstance(x, tuple) and x[0] == "[]" else x for x in p[1:])
def witness_false(c, r, loops):
    for s in range(30):
        m = tape.Model(s, r.loops, r.leaf); ks = {}
        try:
            for L in loops:
                n = m.num(L.count, ks)
                if n <= 0: raise AnalysisBroken("")
                ks[L.id] = m.rnd(("pick", L.id), 0, n - 1)
            if known_cond(c) and not m.cond(c, ks): return True
        except AnalysisBroken: continue
    return False
def known_cond(c):
    if c[0] == "not": return known_cond(c[1])
    return c[0] == "cmp" and all(isinstance(x, E) and all(a[0] in ("leaf", "k", "const") for a, _ in x.t) for x in c[2:4])

def clears(r, node):
    """nothing that was read is thrown away again"""
    for i, (loops, op, p, v, g) in enumerate(r.S.ev):
        if op != "clear" or p[0][0] != "R" or not loops: continue
        if any(absent(c) for c in g): continue
        own = any(isinstance(x, tuple) and x[0] == "[]" and any(x[1] == L.k for L in loops) for x in p)
        before = any(e[1] in ("put", "push") and skel(e[2]) == skel(p) for e in r.S.ev[:i])
        if own and not before: continue
        raise Mismatch(loops[-1].node, "contents of %s that were already read are dropped" % show(p))
def scalar(r, place, want, label, node):
    v = r.S.mem.get(R + place)
    if v is None: raise Mismatch(node, "%s is not restored" % label)
    if not isinstance(v, (E, Str)): raise AnalysisBroken("%s: value not tracked" % label)
    w = differ(norm(v), norm(want), r.loops, [], r.leaf)
    if w: raise Mismatch(node, "%s comes back changed: %s" % (label, w))
def emptied(r, place, label, node):
    """the container started out empty, whatever the object held before"""
    v = r.S.mem.get(R + place + ("#len",))
    if isinstance(v, E) and not any(a[0] == "leaf" and a[1][0][0] == "R" for a, _ in v.t): return
    raise Mismatch(node, "%s still holds what the object held before reading" % label)
def consumed(r, node):
    if r.S.cur[0] == "dirty": raise Mismatch(node, "ends in the middle of the header")
    t, p = r.S.cur
    if p != len(t): raise Mismatch(node, "%s written at %s is never read" % (r.kname(t[p][0]), where(t[p][-1])))

def wt(v, weighted): return v if weighted else DEF
def slots_transducer(weighted):
    f = Slot("the final states", [lambda k: ln("finals")], lambda k: R + ("finals",),
             lambda k: Rec((("first", leaf("finals", idx(k[0]), "first")), ("second", wt(leaf("finals", idx(k[0]), "second"), weighted)))))
    T = lambda k: ("transitions", idx(k[0]), "second")
    t = Slot("the transitions", [lambda k: ln("transitions"), lambda k: ln(*T(k))], lambda k: R + ("transitions", idx(k[0])),
             lambda k: Rec((("first", leaf(*T(k), idx(k[1]), "first")), ("second", Rec((("first", leaf(*T(k), idx(k[1]), "second", "first")), ("second", wt(leaf(*T(k), idx(k[1]), "second", "second"), weighted))))))))
    return [f, t]
def slots_transexe(weighted, alpha):
    T = lambda k: ("transitions", idx(k[0]), "second")
    f = Slot("the final states", [lambda k: ln("finals")], lambda k: R + ("finals",),
             lambda k: Rec((("first", Ref(R + ("node_list", idx(leaf("finals", idx(k[0]), "first"))))), ("second", wt(leaf("finals", idx(k[0]), "second"), weighted)))))
    dec = lambda k: atom("call", "decode", alpha, leaf(*T(k), idx(k[1]), "first"))
    t = Slot("the transitions", [lambda k: ln("transitions"), lambda k: ln(*T(k))], lambda k: R + ("node_list", idx(k[0])),
             lambda k: Rec((("in", atom("call", "field:first", dec(k))), ("out", atom("call", "field:second", dec(k))),
                            ("to", Ref(R + ("node_list", idx(leaf(*T(k), idx(k[1]), "second", "first"))))), ("weight", wt(leaf(*T(k), idx(k[1]), "second", "second"), weighted)))), op=("trans",))
    return [f, t]
def states_exist(r, node):
    """every state of the transducer exists afterwards, with or without transitions"""
    for loops, op, p, v, g in r.S.ev:
        if op in ("touch", "clear") and skel(p)[:1] == ("transitions",) and p[0][0] == "R" and len(loops) == 1 and all(absent(c) for c in g):
            key = v if op == "touch" else p[-1][1]
            if key == loops[0].k: return
        if op == "put" and skel(p) == ("transitions",) and len(loops) == 1 and not g: return
    raise Mismatch(node, "states without transitions are not created")

def lockstep(res, prog, label, fn):
    with res.guard(label):
        res.count("writer_reader_pairs")
        try: fn()
        except Mismatch as m:
            f = m.node.fn if m.node is not None else None
            res.violation("%s|%s" % (label, m.msg.split(":")[0][:80]), "%s: %s" % (label, m))
        except Thrown: res.violation("%s|refused" % label, "%s: the reader refuses what the writer wrote" % label)
        except NeedTape: raise AnalysisBroken("reader and writer not aligned")
        except RecursionError: raise AnalysisBroken("expressions too deep")
        else: res.sample("pairs", label)

def pair_string(res, prog):
    def go():
        w = write(prog, "Compression::string_write", unit=None, modular=())
        f = prog.fn("Compression::string_read"); r = read(prog, "Compression::string_read", w.S.out, w.loops, modular=())
        consumed(r, f.body)
        v = r.value
        want = Str((("whole", W + (prog.fn("Compression::string_write").params[0].n,)),))
        if not isinstance(v, Str): raise AnalysisBroken("string not tracked")
        x = differ(v, want, r.loops, [], r.leaf)
        if x: raise Mismatch(f.body, "a string comes back changed: %s" % x)
    lockstep(res, prog, "string_write/string_read", go)
def pair_alphabet(res, prog):
    def go():
        w = write(prog, "Alphabet::write", unit=("Alphabet", "write"))
        f = prog.fn("Alphabet::read"); r = read(prog, "Alphabet::read", w.S.out, w.loops, unit=("Alphabet", "read"))
        consumed(r, f.body); clears(r, f.body)
        sym = lambda k: Str((("whole", W + ("slexicinv", idx(k[0]))),))
        pr = lambda k: Rec((("first", leaf("spairinv", idx(k[0]), "first")), ("second", leaf("spairinv", idx(k[0]), "second"))))
        for s in (Slot("the list of symbols", [lambda k: ln("slexicinv")], lambda k: R + ("slexicinv",), sym),
                  Slot("the number of a symbol", [lambda k: ln("slexicinv")], lambda k: R + ("slexic",), lambda k: Rec((("first", sym(k)), ("second", tape.add(E(-1), k[0], -1))))),
                  Slot("the list of symbol pairs", [lambda k: ln("spairinv")], lambda k: R + ("spairinv",), pr),
                  Slot("the number of a symbol pair", [lambda k: ln("spairinv")], lambda k: R + ("spair",), lambda k: Rec((("first", pr(k)), ("second", k[0]))))): compare(r, s, f.body, "alphabet")
        for x in ("slexicinv", "slexic", "spairinv", "spair"): emptied(r, (x,), "Alphabet::" + x, f.body)
    lockstep(res, prog, "Alphabet::write/read", go)
def pair_transducer(res, prog, tier):
    for wgt in (1, 0):
        for dec in (atom("const", "param"), E(0)):
            def go():
                w = write(prog, "Transducer::write", wgt, unit=("Transducer", "write"), extra={prog.fn("Transducer::write").params[1].n: dec})
                f = prog.fn("Transducer::read"); r = read(prog, "Transducer::read", w.S.out, w.loops, unit=("Transducer", "read"), ints=dec)
                consumed(r, f.body); clears(r, f.body); scalar(r, ("initial",), leaf("initial"), "the initial state", f.body)
                for s in slots_transducer(wgt): compare(r, s, f.body, "transducer")
                states_exist(r, f.body)
                for x in ("finals", "transitions"): emptied(r, (x,), "Transducer::" + x, f.body)
            lockstep(res, prog, "Transducer::write/read %s%s" % ("weighted" if wgt else "unweighted", " with offset" if dec.t else ""), go)
        def go():
            w = write(prog, "Transducer::write", wgt, unit=("Transducer", "write"), extra={prog.fn("Transducer::write").params[1].n: E(0)})
            f = prog.fn("TransExe::read"); r = read(prog, "TransExe::read", w.S.out, w.loops, unit=("TransExe", "read"))
            consumed(r, f.body); scalar(r, ("initial_id",), leaf("initial"), "the initial state", f.body)
            for s in slots_transexe(wgt, R + (f.params[1].n,)): compare(r, s, f.body, "transducer")
            compare(r, Slot("the number of states", [], lambda k: R + ("node_list",), lambda k: ln("transitions"), op=("resize",)), f.body, "transducer")
        lockstep(res, prog, "Transducer::write/TransExe::read %s" % ("weighted" if wgt else "unweighted"), go)

def fns(prog, qn): return [f for f in prog.fns.values() if f.qn == qn and f.body is not None]
def pair_pattern(res, prog):
    def go():
        w = write(prog, "PatternList::write", unit=("PatternList", "write"))
        f = prog.fn("PatternList::read"); r = read(prog, "PatternList::read", w.S.out, w.loops, unit=("PatternList", "read"))
        consumed(r, f.body); clears(r, f.body)
        holds(r, ("alphabet",), W + ("alphabet",), "the alphabet", f.body); holds(r, ("transducer",), W + ("transducer",), "the transducer", f.body)
        compare(r, Slot("the types of the final states", [lambda k: ln("final_type")], lambda k: R + ("final_type",),
                        lambda k: Rec((("first", leaf("final_type", idx(k[0]), "first")), ("second", leaf("final_type", idx(k[0]), "second"))))), f.body, "pattern list")
        emptied(r, ("final_type",), "PatternList::final_type", f.body)
    lockstep(res, prog, "PatternList::write/read", go)
def holds(r, place, src, label, node):
    v = r.S.mem.get(R + place)
    if v is None: raise Mismatch(node, "%s is not restored" % label)
    if v != Ref(src): raise Mismatch(node, "%s is restored from %s" % (label, show(v.p) if isinstance(v, Ref) else v))

def params(f):
    """roles of the parameters of a writer/reader of a set of transducers, by type"""
    d = {}
    for q in f.params:
        t = tape.tname(q.t)
        if "FILE" in t: continue
        d["trans" if "map<" in t else "alpha" if t.startswith("Alphabet") else "letters"] = q.n
    if set(d) != {"trans", "alpha", "letters"}: raise AnalysisBroken("parameters of %s not recognised" % f.qn)
    return d
def exe(f): return any("TransExe" in tape.tname(q.t) for q in f.params)
def pair_set(res, prog, label, mkw, letters, alpha, names, old=False):
    """a whole compiled file; letters: Str or None (any set), names: list of (name, place) or the map it is written from"""
    for rf in fns(prog, "readTransducerSet"):
        def go():
            w, nm = mkw(); d = params(rf)
            t = w.S.out
            if old: t = t[2:] if [x[0] for x in t[:2]] == ["raw", "be"] else t
            r = read(prog, None, t, w.loops, pick=rf); node = rf.body
            consumed(r, node)
            check_letters(r, R + (d["letters"],), letters, node)
            holds(r, (d["alpha"],), alpha, "the alphabet", node)
            evs = [e for e in r.S.ev if e[1] == "obj" and e[2][:2] == R + (d["trans"],)]
            want = nm
            if isinstance(want, list):
                if len(evs) != len(want): raise Mismatch(node, "%d transducers come back instead of %d" % (len(evs), len(want)))
                for e, (name, src) in zip(evs, want): one(r, e, name, src, R + (d["alpha"],), node, rf)
            else:
                if len(evs) != 1: raise (AnalysisBroken("transducers stored in %d places" % len(evs)) if evs else Mismatch(node, "the transducers are not restored"))
                e = evs[0]
                if len(e[0]) != 1: raise AnalysisBroken("transducers stored in %d nested loops" % len(e[0]))
                L = e[0][0]; c = differ(L.count, atom("leaf", want + ("#len",)), r.loops, [], r.leaf)
                if c: raise Mismatch(L.node, "the number of transducers is %s" % c)
                one(r, e, Str((("whole", want + (idx(L.k), "first")),)), want + (idx(L.k), "second"), R + (d["alpha"],), node, rf)
        lockstep(res, prog, "%s/readTransducerSet(%s)%s" % (label, "TransExe" if exe(rf) else "Transducer", " without header" if old else ""), go)
def one(r, e, name, src, alpha, node, rf):
    loops, op, p, v, g = e
    if g: raise AnalysisBroken("transducer stored under a condition")
    if len(p) != 3 or not isinstance(p[2], tuple): raise AnalysisBroken("place of a transducer not understood")
    key = p[2][1]
    if isinstance(key, Ref): raise AnalysisBroken("name of a transducer not tracked")
    w = differ(key, name, r.loops, loops, r.leaf)
    if w: raise Mismatch(node, "the name of a transducer comes back changed: %s" % w)
    fr = v.get("from")
    if not same_place(fr.p, src, r, loops): raise Mismatch(node, "the transducers are mixed up: %s is stored where %s belongs" % (show(fr.p), show(src)))
    if exe(rf) and v.get("with") != Ref(alpha): raise Mismatch(node, "the transducer is read with another alphabet than the one of the file")
def same_place(a, b, r, loops): return differ(Ref(a), Ref(b), r.loops, loops, r.leaf) is None
def check_letters(r, place, want, node):
    evs = [e for e in r.S.ev if e[1] in ("put", "push") and e[2] == place]
    if want is None: wc, wv = E(0), None
    else: wc = ncps_(want); wv = want
    if wv is None:
        if evs: raise Mismatch(node, "letters appear that were not written")
        return
    if len(evs) != 1 or len(evs[0][0]) != 1: raise (AnalysisBroken("letters stored in %d places" % len(evs)) if evs else Mismatch(node, "the letters are not restored"))
    L = evs[0][0][0]
    if evs[0][4]: raise AnalysisBroken("letters stored under a condition")
    w = differ(L.count, wc, r.loops, [], r.leaf) or differ(evs[0][3], cp_(wv, L.k), r.loops, evs[0][0], r.leaf)
    if w: raise Mismatch(L.node, "the letters come back changed: %s" % w)
def ncps_(w): return tape.ncps(w) if isinstance(w, Str) else atom("leaf", w + ("#len",))
def cp_(w, k): return tape.cp(w, k) if isinstance(w, Str) else atom("leaf", w + (idx(k),))
def sets(res, prog, old=False):
    for wf in fns(prog, "writeTransducerSet"):
        d = params(wf); lt = next(q for q in wf.params if q.n == d["letters"]); isset = "set<" in tape.tname(lt.t)
        if not isset and not tape.is_str(lt.t): continue
        lv = W + (d["letters"],) if isset else Str((("whole", W + (d["letters"],)),))
        pair_set(res, prog, "writeTransducerSet(%s)" % ("set" if isset else "string"), lambda: (write(prog, None, pick=wf), W + (d["trans"],)), lv, W + (d["alpha"],), None, old)
    if old: return
    pair_set(res, prog, "Compiler::write", lambda: (write(prog, "Compiler::write", unit=("Compiler", "write")), W + ("sections",)), Str((("whole", W + ("letters",)),)), W + ("alphabet",), None)
    pair_set(res, prog, "TMXCompiler::write", lambda: (write(prog, "TMXCompiler::write", unit=("TMXCompiler", "write")), [(Str(), W + ("transducer",))]), None, W + ("alphabet",), None)

# ------------------------------------------------------------------ when weights are written
from sa.cvec import CVec
from sa.flow import Flow
def weighted(res, prog):
    """Transducer::weighted() is true exactly when some weight is not the default one"""
    import itertools
    f = prog.fn("Transducer::weighted")
    class C(CVec):
        lost = 0
        def descend(self, f, n, g, st): return not g.file.startswith("/usr")
        def undecided(self, f, c, st): self.lost += 1
        def eval(self, n, st):
            v = super().eval(n, st)
            if isinstance(v, tuple) and v[:1] == ("float",): return int(v[1]) if v[1] == int(v[1]) else v
            return v
    fins = [x for k in range(3) for x in itertools.product((0, 7), repeat=k)]
    trs = [x for k in range(3) for x in itertools.product([(), (0,), (7,), (0, 0), (0, 7), (7, 0)], repeat=k)]
    with res.guard("Transducer::weighted"):
        for fi in fins:
            for tr in trs:
                c = C(prog)
                e = {("this", "finals"): ("vec", tuple(("pr", i, w) for i, w in enumerate(fi))), ("this", "transitions"): ("vec", tuple(("pr", i, ("ref", ("heap", i))) for i in range(len(tr))))}
                for i, ws in enumerate(tr): e[("heap", i)] = ("vec", tuple(("pr", 5, ("pr", 0, w)) for w in ws))
                out = {c.env(x).get(("ret", f.key)) for x in Flow(prog, c).run(f, c.mk(e))}
                if c.lost or len(out) != 1 or not isinstance(next(iter(out)), int): raise AnalysisBroken("result of Transducer::weighted() not constant")
                res.count("weight_layouts")
                w = int(any(fi) or any(any(x) for x in tr))
                if next(iter(out)) != w:
                    res.violation("weighted|%d" % w, "%s: a transducer whose final weights are %s and transition weights are %s is %s" % (where(f.body), list(fi), [list(x) for x in tr], "written without weights" if w else "written with weights")); return
def defaults(res, prog):
    """the weight that is not written is the weight that is filled in, wherever it is kept"""
    def zero(n):
        n0 = n
        from sa.flow import strip, const_of
        while n is not None and n.k in ("InitListExpr", "CXXDefaultInitExpr") and (n.c or n.a.get("sub")): n = n.c[0] if n.c else n.a["sub"]
        n = strip(n)
        if n is None: return None
        if n.k == "FloatingLiteral": return float(n.a["fv"]) == 0
        c = const_of(n)
        return None if c is None else c == 0
    with res.guard("default_weight"):
        for k, g in prog.globals.items():
            if (g.get("qn") or str(k)).rsplit("::", 1)[-1] == "default_weight" and g.get("init") is not None:
                res.count("default_weights")
                if zero(g["init"]) is False: res.violation("default_weight|%s" % k, "%s: the default weight of the library is not zero" % k)
        for rn, r in prog.records.items():
            for fl in r.get("fields", ()):
                if fl["n"] != "default_weight": continue
                res.count("default_weights")
                z = zero(fl.get("init")) if fl.get("init") is not None else None
                if z is False: res.violation("default_weight|%s" % rn, "%s::default_weight is not zero: weights that are not written come back changed" % rn)
                for f in prog.fns.values():
                    if f.cls != rn: continue
                    for i in (f.inits or ()):
                        if i.get("m") == "default_weight" and i.get("e") is not None and zero(i["e"]) is False: res.violation("default_weight|%s" % rn, "%s sets default_weight to another value than zero" % f.qn)

STD = {"std::cout", "stdout", "std::wcout"}
def out_test(c, loc):
    """does the condition hold exactly when (1), or exactly when not (-1), the file is standard output; 0: it asks about it some other way; None: it does not ask"""
    while c is not None and c.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and len(c.c) == 1: c = c.c[0]
    if c is None: return None
    if c.k == "DeclRefExpr" and c.a.get("d") in loc: return out_test(loc[c.a["d"]], {})
    if c.k == "UnaryOperator" and c.a.get("op") == "!":
        r = out_test(c.c[0], loc); return -r if r is not None else None
    if not any(n.k == "DeclRefExpr" and n.a.get("g") == "stdout" for n in c.walk()): return 0 if any(n.k == "DeclRefExpr" and n.a.get("d") in loc and out_test(loc[n.a["d"]], {}) is not None for n in c.walk()) else None
    if c.k == "BinaryOperator" and c.a.get("op") in ("==", "!="): return 1 if c.a["op"] == "==" else -1
    return 0
def stdout_clean(res, prog):
    """a compiled file that goes to standard output has nothing else printed into it"""
    # which FILE* may be standard output
    gives = {f.key for f in prog.fns.values() if f.body is not None and any(n.k == "ReturnStmt" and any(x.k == "DeclRefExpr" and x.a.get("g") == "stdout" for x in n.walk()) for n in f.body.walk()) and "FILE" in (f.ret.s if getattr(f, "ret", None) is not None else "FILE")}
    held = {}                                   # function key -> variables that may hold it
    def may(f, e):
        for x in e.walk():
            if x.k == "DeclRefExpr" and (x.a.get("g") == "stdout" or x.a.get("d") in held.get(f.key, ())): return True
            if x.k == "CallExpr" and x.a.get("fn") in gives: return True
        return False
    def isfile(t): return t is not None and re.search(r"\b(_IO_)?FILE \*", t.s) is not None
    ch = True
    while ch:
        ch = False
        def add(k, d):
            nonlocal ch
            if d not in held.setdefault(k, set()): held[k].add(d); ch = True
        for f in prog.fns.values():
            for n in fnodes(f):
                if n.k == "DeclStmt":
                    for v in n.a.get("vars") or ():
                        if isfile(v.t) and v.init is not None and may(f, v.init): add(f.key, v.d)
                elif n.k == "BinaryOperator" and n.a.get("op") == "=" and isfile(n.t) and n.c[0].k == "DeclRefExpr" and may(f, n.c[1]): add(f.key, n.c[0].a.get("d"))
                elif n.k in CALLS and n.a.get("fn") in prog.fns:
                    g = prog.fns[n.a["fn"]]; args = n.c[-len(g.params):] if g.params else []
                    for q, a in zip(g.params, args):
                        if isfile(q.t) and may(f, a): add(g.key, q.d)
    writes = {f.key for f in prog.fns.values() if any(n.k == "CallExpr" and (n.a.get("qn") or "").split("::")[-1] in ("fwrite", "fwrite_unlocked", "fputc", "fputc_unlocked") for n in fnodes(f))}
    while True:
        more = {f.key for f in prog.fns.values() if f.key not in writes and any(n.k in CALLS and n.a.get("fn") in writes and any(isfile(a.t) for a in n.c) for n in fnodes(f))}
        if not more: break
        writes |= more
    roots = [prog.fns[k] for k in held if k in writes]
    if not roots: return
    inner = prog.reach([f for f in roots if any(q.d in held[f.key] for q in f.params)])
    for f in list(inner.values()) + [f for f in roots if f.key not in inner]:
        res.count("functions_writing_to_stdout")
        loc = {v.d: v.init for n in fnodes(f) if n.k == "DeclStmt" for v in n.a.get("vars") or () if v.init is not None and v.t is not None and v.t.bool}
        asks = any(out_test(c, loc) is not None for n in fnodes(f) for c in ([n.a.get("cond")] if n.k in ("IfStmt", "WhileStmt") else n.c[:1] if n.k == "ConditionalOperator" else []))
        for n in fnodes(f):
            if n.k != "DeclRefExpr" or n.a.get("g") not in STD: continue
            c, p, ok, bad = n, n.parent, None, False
            if n.a["g"] == "stdout":
                while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"): p = p.parent
                if p is None or p.k not in CALLS or p.a.get("fn") in prog.fns or (p.a.get("qn") or "").split("::")[-1] not in ("fprintf", "fputs", "fputc", "fwrite", "puts", "printf", "vfprintf", "u_fprintf"): continue
            while p is not None:
                br = None
                if p.k == "ConditionalOperator" and c is not p.c[0]: br = (out_test(p.c[0], loc), 1 if c is p.c[1] else -1)
                elif p.k == "IfStmt" and c in (p.a.get("then"), p.a.get("else")): br = (out_test(p.a.get("cond"), loc), 1 if c is p.a.get("then") else -1)
                if br and br[0] is not None:
                    ok = True
                    if br[0] == br[1]: bad = True
                c, p = p, p.parent
            if bad or (ok is None and not asks): res.violation("stdout|%s" % f.qn, "%s: prints to standard output while the compiled file may be going there: what is read back is not what was written" % where(n, f)); break

def P04(prog, res, tier):
    tape.Loop.n = 0
    res.rules.append("each primitive the reader takes is the one the writer put there; loops agree in number; what is stored equals what was written, for every element")
    res.assume.append("states of a transducer are numbered 0..n-1, targets are states, symbols of an alphabet are written <...>; integers, weights and code points are carried exactly (P01, P02, P03)")
    pair_string(res, prog); pair_alphabet(res, prog); pair_transducer(res, prog, tier); pair_pattern(res, prog); sets(res, prog); weighted(res, prog); defaults(res, prog); stdout_clean(res, prog)
    res.require()

# ------------------------------------------------------------------ P05: files of other versions
def bits(prog, *names):
    """feature bits the library knows, from the enumeration"""
    for qn, vs in prog.enums.items():
        if any(n == names[0] for n, _ in vs):
            return {v & 0xFFFFFFFFFFFFFFFF for n, v in vs if not n.endswith(("_UNKNOWN", "_RESERVED"))}
    raise AnalysisBroken("enumeration with %s not found" % names[0])
def gate(res, prog, label, qn, rf, header, known, units, ints=None):
    """a header with a feature bit that is not known must be refused, whatever the other bits are"""
    km = 0
    for k in known: km |= k
    unk = [1 << i for i in range(64) if not km >> i & 1]
    vals = [b | k for b in unk for k in {0, km}] + [0xFFFFFFFFFFFFFFFF & ~km, 0xFFFFFFFFFFFFFFFF]
    with res.guard(label):
        for v in vals:
            res.count("unknown_feature_words")
            tp = (("raw", header, rf.body), ("be", E(v), rf.body))
            try: read(prog, None, tp, {}, pick=rf, unit=units, ints=ints)
            except Thrown: continue
            except Mismatch: pass
            except NeedTape: raise AnalysisBroken("reader not aligned with the header")
            res.violation("%s|accepts" % label, "%s: a file whose feature word is 0x%x, with feature bits this version does not know, is read as if they were not there" % (label, v)); return
def hdr(w):
    t = w.S.out
    if not t or t[0][0] != "raw": raise Mismatch(t[0][-1] if t else None, "no header is written")
    if len(t) < 2 or t[1][0] != "be": raise Mismatch(t[0][-1], "no feature word is written after the header")
    return t[0][1], t[1][1]
def words(v):
    """the values a feature word can have, None if not known"""
    if v.const is not None: return {v.const}
    l = tape.lift(v)
    if l is None: return None
    a, b = words(l[1]), words(l[2])
    return None if a is None or b is None else a | b
def announced(res, label, v, known, node):
    km = 0
    for k in known: km |= k
    if v.const is None:
        alts = words(v)
        if alts is None: raise AnalysisBroken("%s: feature word not constant" % label)
        for c in alts:
            if c & ~km: raise Mismatch(node, "writes the feature word 0x%x, with bits that no version knows" % c)
        if any(c for c in alts): raise AnalysisBroken("%s: feature word not constant" % label)
        return
    res.count("feature_words_written")
    if v.const & ~km: raise Mismatch(node, "writes the feature word 0x%x, with bits that no version knows" % v.const)
def P05(prog, res, tier):
    tape.Loop.n = 0
    res.rules.append("for every feature word with a bit outside the known enumerators the reader throws before it takes any of the contents; without header the contents are read as a file without features; writers announce exactly the known features they use")
    res.assume.append("a file of the old format does not start with the bytes of a header; the input can be repositioned (fgetpos succeeds); integers and weights are carried exactly (P01, P02)")
    TW = ("Transducer", "write")
    H = {}
    def heads():
        known = bits(prog, "TDF_UNKNOWN")
        for wgt in (0, 1):
            w = write(prog, "Transducer::write", wgt, unit=TW, extra={prog.fn("Transducer::write").params[1].n: E(0)})
            h, v = hdr(w); H["T"] = h; announced(res, "Transducer::write", v, known, w.S.out[1][-1])
            has = any("lmb" in kinds(w.S.out) for _ in (0,))
            td = dict(x for vs in prog.enums.values() for x in vs).get("TDF_WEIGHTS")
            if td is not None and bool(v.const & td) != has: raise Mismatch(w.S.out[1][-1], "weights are %swritten but %sannounced" % ("" if has else "not ", "" if v.const & td else "not "))
    lockstep(res, prog, "Transducer::write header", heads)
    def heads2():
        known = bits(prog, "LTF_UNKNOWN")
        for wf in fns(prog, "writeTransducerSet") + [prog.fn("TMXCompiler::write")]:
            w = write(prog, None, pick=wf, unit=("TMXCompiler", "write")); h, v = hdr(w)
            if H.setdefault("L", h) != h: raise Mismatch(wf.body, "writes another file header than the other writers")
            announced(res, wf.qn, v, known, w.S.out[1][-1])
        if H.get("T") == H["L"]: raise Mismatch(prog.fn("Transducer::write").body, "a transducer has the same header as a file")
    lockstep(res, prog, "file header", heads2)
    if "T" in H:
        known = bits(prog, "TDF_UNKNOWN")
        gate(res, prog, "Transducer::read", None, prog.fn("Transducer::read"), H["T"], known, ("Transducer", "read"))
        gate(res, prog, "TransExe::read", None, prog.fn("TransExe::read"), H["T"], known, ("TransExe", "read"))
    if "L" in H:
        for rf in fns(prog, "readTransducerSet"): gate(res, prog, "readTransducerSet(%s)" % ("TransExe" if exe(rf) else "Transducer"), None, rf, H["L"], bits(prog, "LTF_UNKNOWN"), None)
    # the old format: no header, no weights
    for dec in (atom("const", "param"), E(0)):
        def go():
            w = write(prog, "Transducer::write", 0, unit=TW, extra={prog.fn("Transducer::write").params[1].n: dec})
            t = strip_header(w.S.out)
            f = prog.fn("Transducer::read"); r = read(prog, "Transducer::read", t, w.loops, unit=("Transducer", "read"), ints=dec)
            consumed(r, f.body); clears(r, f.body); scalar(r, ("initial",), leaf("initial"), "the initial state", f.body)
            for s in slots_transducer(0): compare(r, s, f.body, "transducer")
            states_exist(r, f.body)
        lockstep(res, prog, "Transducer::read without header%s" % (" with offset" if dec.t else ""), go)
    def go():
        w = write(prog, "Transducer::write", 0, unit=TW, extra={prog.fn("Transducer::write").params[1].n: E(0)})
        f = prog.fn("TransExe::read"); r = read(prog, "TransExe::read", strip_header(w.S.out), w.loops, unit=("TransExe", "read"))
        consumed(r, f.body); scalar(r, ("initial_id",), leaf("initial"), "the initial state", f.body)
        for s in slots_transexe(0, R + (f.params[1].n,)): compare(r, s, f.body, "transducer")
    lockstep(res, prog, "TransExe::read without header", go)
    sets(res, prog, old=True)
    res.require()
def strip_header(t): return t[2:] if [x[0] for x in t[:2]] == ["raw", "be"] else t
def kinds(t):
    s = set()
    for x in t:
        s.add(x[0])
        if x[0] == "loop": s |= kinds(x[1].body)
        if x[0] == "alt":
            for y in x[1]: s |= kinds(y) if isinstance(y, (list, tuple)) else set()
    return s

# ------------------------------------------------------------------ P06: serialised objects

SER = re.compile(r"(?:^|::)(De)?[Ss]erialiser<(.*)>::(?:de)?serialise$")
SCALAR = {"char", "unsigned char", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "double", "float", "bool"}
def nty(s): return re.sub(r"\bconst ", "", s).strip()
class SerI(Fmt):
    """typed items: every nested object is one item, checked on its own"""
    root = None
    def prim(self, n, qn, b):
        m = SER.search(qn)
        if m and n.a.get("fn") != self.root:
            t = nty(m.group(2)); a = cargs(n)
            if not m.group(1):
                v = self.val(a[0])
                if isinstance(v, Opq): raise AnalysisBroken("value serialised at %s not tracked" % where(n))
                self.emit(("ser", (t, v), n)); return None
            it = self.take(("ser",), n)
            wt_ = it[1][0]
            if wt_ != t:
                if wt_ in SCALAR and t in SCALAR and {wt_, t} <= {"long", "unsigned long", "long long", "unsigned long long"}: pass
                elif wt_ in SCALAR and t in SCALAR and not ({"double", "float"} & {wt_, t}): raise AnalysisBroken("integer types differ at %s" % where(n))
                else: raise Mismatch(n, "reads %s where %s was written (%s)" % (t, wt_, where(it[-1])))
            return it[1][1]
        if b in ("serialise", "deserialise") and n.k == "CXXMemberCallExpr" and qn.rsplit("::", 1)[0] in OBJ:
            o = self.objof(n); cls = qn.rsplit("::", 1)[0]
            if not isinstance(o, Ref): raise AnalysisBroken("object of %s at %s not tracked" % (qn, where(n)))
            if b == "serialise": self.emit(("obj", (cls, o.p, ()), n)); return None
            it = self.take(("obj",), n)
            if it[1][0] != cls: raise Mismatch(n, "reads a %s where a %s was written (%s)" % (cls, it[1][0], where(it[-1])))
            self.S.mem[o.p] = Ref(it[1][1]); return None
        return super().prim(n, qn, b)
    KN = dict(Fmt.KN, ser="an item")
def sargs(f, root):
    return [FILEV if "stream" in tape.tname(q.t) else Ref(root + (q.n,)) for q in f.params]
def P06(prog, res, tier):
    tape.Loop.n = 0
    res.rules.append("for every type with a serialiser and a deserialiser: items are read in the order, number and type in which they were written, and the result holds every element")
    res.assume.append("numbers are carried exactly (P01); iterating a container visits its elements in order and inserting them in that order rebuilds it")
    S, D = {}, {}
    for f in prog.fns.values():
        m = SER.search(f.qn)
        if m and f.body is not None: (D if m.group(1) else S)[nty(m.group(2))] = f
    for t in sorted(S):
        if t in SCALAR: continue
        def go():
            f = S[t]; g = D.get(t)
            if g is None: raise AnalysisBroken("no deserialiser for %s" % t)
            isst = t.startswith(("std::basic_string<", "std::__cxx11::basic_string<"))
            if isst: tape.STRCONT.append(1)
            try:
                w = SerI(prog, "w", None); w.root = f.key; w.run(f, sargs(f, W), None)
                r = SerI(prog, "r", None, tape=w.S.out); r.root = g.key; r.loops.update(w.loops); v = r.run(g, sargs(g, R), None)
            finally:
                if isst: tape.STRCONT.pop()
            consumed(r, g.body)
            src = W + (f.params[0].n,)
            if t.startswith("std::pair<"):
                if not isinstance(v, Rec): v = r.whole(v, None)
                if not isinstance(v, Rec): raise AnalysisBroken("result not tracked")
                for n in ("first", "second"):
                    x = v.get(n)
                    if x not in (Ref(src + (n,)), atom("leaf", src + (n,)), Str((("whole", src + (n,)),))): raise Mismatch(g.body, "%s of the pair is not the %s that was written" % (n, n))
                return
            if not isinstance(v, Ref): raise AnalysisBroken("result not tracked")
            evs = [e for e in r.S.ev if e[2] == v.p and e[1] in ("push", "put")]
            if len(evs) != 1: raise (AnalysisBroken("elements stored in %d places" % len(evs)) if evs else Mismatch(g.body, "the elements are not restored"))
            loops, op, p, x, gu = evs[0]
            if gu or len(loops) != 1: raise AnalysisBroken("elements stored under a condition")
            d = differ(loops[0].count, atom("leaf", src + ("#len",)), r.loops, [], r.leaf)
            if d: raise Mismatch(g.body, "the number of elements is %s" % d)
            el = src + (idx(loops[0].k),)
            ok = (Ref(el), atom("leaf", el), Str((("whole", el),)), Rec((("first", atom("leaf", el + ("first",))), ("second", atom("leaf", el + ("second",))))))
            if x in ok: return
            if isinstance(x, (Opq,)): raise AnalysisBroken("element not tracked")
            raise Mismatch(g.body, "the elements come back changed")
        lockstep(res, prog, "Serialiser/Deserialiser<%s>" % short(t), go)
    for cls, checks in (("Alphabet", alpha_ser), ("Transducer", trans_ser), ("PatternList", pl_ser)):
        def go():
            f = prog.fn(cls + "::serialise"); g = prog.fn(cls + "::deserialise")
            w = SerI(prog, "w", (cls, "serialise")); w.run(f, sargs(f, W), W)
            r = SerI(prog, "r", (cls, "deserialise"), tape=w.S.out); r.loops.update(w.loops); r.run(g, sargs(g, R), R)
            consumed(r, g.body); checks(r, g.body)
        lockstep(res, prog, cls + "::serialise/deserialise", go)
    res.require()
def short(t): return re.sub(r"std::(char_traits|allocator|less)<[^<>]*>", "", re.sub(r"std::", "", t))[:60]
def alpha_ser(r, node):
    holds(r, ("slexicinv",), W + ("slexicinv",), "the list of symbols", node); holds(r, ("spairinv",), W + ("spairinv",), "the list of symbol pairs", node)
    sym = lambda k: Str((("whole", W + ("slexicinv", idx(k[0]))),))
    compare(r, Slot("the number of a symbol", [lambda k: ln("slexicinv")], lambda k: R + ("slexic",), lambda k: Rec((("first", sym(k)), ("second", tape.add(E(-1), k[0], -1))))), node, "")
    pr = lambda k: Ref(W + ("spairinv", idx(k[0])))
    compare(r, Slot("the number of a symbol pair", [lambda k: ln("spairinv")], lambda k: R + ("spair",), lambda k: Rec((("first", pr(k)), ("second", k[0])))), node, "")
    for x in ("slexic", "spair"): emptied(r, (x,), "Alphabet::" + x, node)
def trans_ser(r, node):
    scalar(r, ("initial",), leaf("initial"), "the initial state", node)
    holds(r, ("finals",), W + ("finals",), "the final states", node); holds(r, ("transitions",), W + ("transitions",), "the transitions", node)
def pl_ser(r, node):
    for x in ("alphabet", "transducer", "final_type"): holds(r, (x,), W + (x,), "PatternList::" + x, node)
