"""P17 / P18: which entries a dictionary run selects, and what each element of the format means."""
import itertools
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, strip, cargs, obj, callee, const_of, strlit
from sa.cprop import TOP
from sa.cvec import CVec, isvec, isit, ispr
from .fail import enders, base, reaching
from . import cli

END = 15; ELEM = 1; TEXT = 3; COMMENT = 8
CUR = ("xml",)
def el(name, empty=0, attrs=None): return (name, ELEM, empty, attrs or {}, "")
def end(name): return (name, END, 0, {}, "")
def text(v): return ("#text", TEXT, 0, {}, v)
def anymap(c, n, b, st):
    """a map whose contents are not known: every lookup may succeed or fail"""
    o = obj(n)
    if o is None or n.a.get("fn") in c.p.fns or n.k != "CXXMemberCallExpr": return None
    t = strip(o).t.s if strip(o) is not None and strip(o).t is not None else ""
    if "map<" not in (t or "") or c.eval(o, st) is not TOP: return None
    if b == "find": return [(("it", ("map",), 0), st), (("it", ("map",), 1), st)]
    if b in ("end", "cend"): return [(("it", ("map",), 1), st)]
    if b in ("count", "contains"): return [(0, st), (1, st)]
    return None
class Xml(CVec):
    """constant propagation where the XML reader stands on a known sequence of nodes"""
    limit = 3000; widen = 3
    def __init__(self, prog, f, doc): super().__init__(prog); self.f = f; self.doc = doc; self.ends = []; self.died = []; self.unsure = []
    def event(self, st, e): return (st[0], st[1] + (e,)) if len(st[1]) < 40 else st
    def noreturn(self, fl, f, n, st): self.died.append(st)
    def helper(self, g):
        """a helper outside the class that moves the reader on"""
        r = getattr(self.p, "_xmlreading", None)
        if r is None: r = self.p._xmlreading = reaching(self.p, {"xmlTextReaderRead"})
        return g.key in r and g.cls not in ("Compiler", "Expander", "TMXCompiler", "FSTProcessor")
    def node(self, st):
        c = self.env(st).get(CUR, TOP)
        if not isinstance(c, int): raise AnalysisBroken("position in the document lost")
        return self.doc[c] if c < len(self.doc) else ("", 0, 0, {}, "")
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n)
        if n.a.get("fn") in enders(self.p): self.died.append(st); return []
        if b in ("attrib", "attrib_str"):
            for x in a:
                v = self.eval(x, st)
                if isinstance(v, str): return [(self.node(st)[3].get(v, ""), st)]
            raise AnalysisBroken("attribute name not constant at %s" % where(n))
        if b == "readName": return [(self.node(st)[0], st)]
        if b == "readValue": return [(self.node(st)[4], st)]
        if b == "allBlanks": return [(int(not self.node(st)[4].strip()), st)]
        if b == "xmlTextReaderRead":
            c = self.env(st)[CUR] + 1
            return [(1 if c < len(self.doc) else -1, self.set(st, CUR, min(c, len(self.doc))))]
        if b in ("u_isspace", "u_isUWhiteSpace", "isspace", "iswspace") and a:
            v = self.eval(a[0], st)
            return [(int(chr(v).isspace()) if isinstance(v, int) and v > 0 else TOP, st)]
        if b == "isEmpty" and not a: return [(0, st), (1, st)]          # either may be the case
        r = anymap(self, n, b, st)
        if r is not None: return r
        if b == "xmlTextReaderNodeType": return [(self.node(st)[1], st)]
        if b == "xmlTextReaderIsEmptyElement": return [(self.node(st)[2], st)]
        return None
    def undecided(self, f, cond, st): self.unsure.append("%s: condition at line %s not decided" % (f.qn, cond.line))
    def ret(self, fl, f, st):
        if f is self.f: self.ends.append(st)
        return st
    def start(self, members, at=0, params=None):
        env = {("this", k): v for k, v in members.items()}; env[CUR] = at
        for q in self.f.params:
            if params and q.n in params: env[(q.d,)] = params[q.n]
        for k, v in (getattr(self, "sets", None) or {}).items(): env[("set", k)] = v
        Flow(self.p, self).run(self.f, self.mk(env))
        if self.unsure: raise AnalysisBroken(self.unsure[0])
        if not self.ends and not self.died: raise AnalysisBroken("%s: no end reached" % self.f.qn)
        return self
    def cur(self, st): return self.env(st).get(CUR, TOP)

class Entry(Xml):
    """procEntry of one <e> with given attributes, for one direction and set of selected variants"""
    LEAF = {"insertEntryTokens", "procTransduction", "procIdentity", "procIdentityGroup", "procRegexp", "procPar"}
    SETS = {"paradigm": ("vec", (("pr", "b", "B"),)), "paradigm_lr": ("vec", (("pr", "l", "L"),)), "paradigm_rl": ("vec", (("pr", "r", "R"),))}
    maxvec = 40
    def descend(self, f, n, g, st):
        return g.cls == self.f.cls and g.n not in self.LEAF or g.n == "split" or not g.cls and g.file == self.f.file or self.helper(g)
    def eval(self, n, st):
        if n is not None:
            k = self.setname(n, st)
            if k: return self.sets[k]
        return super().eval(n, st)
    sets = SETS
    def setname(self, n, st):
        """the set of forms an expression denotes: an element of one of the maps, or a reference to it"""
        m = strip(n)
        if m is None: return None
        if m.k == "CXXOperatorCallExpr" and m.a.get("op") == "[]" and len(m.c) > 1 or m.k == "CXXMemberCallExpr" and base(m) == "at" and obj(m) is not None:
            o = strip(m.c[1] if m.k == "CXXOperatorCallExpr" else obj(m))
            if o is not None and o.k == "MemberExpr" and o.a.get("n") in self.SETS: return o.a["n"]
        if m.k == "DeclRefExpr":
            v = self.env(st).get((m.a.get("d"),))
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "ref" and isinstance(v[1], tuple) and v[1][:1] == ("set",): return v[1][1]
        return None
    def bindref(self, v, init, st):
        if v.t is not None and v.t.ref:
            k = self.setname(init, st)
            if k: return ("ref", ("set", k))
        return super().bindref(v, init, st)
    def render(self, n, fmt, vals, st):
        """text printf writes, TOP if not known"""
        if not isinstance(fmt, str): return TOP
        out = ""; i = 0; k = 0
        while i < len(fmt):
            if fmt[i] != "%": out += fmt[i]; i += 1; continue
            if fmt[i + 1:i + 2] == "%": out += "%"; i += 2; continue
            if fmt[i + 1:i + 2] not in ("S", "s", "C", "c") or k >= len(vals): return TOP
            v = vals[k]; k += 1; i += 2
            if isinstance(v, int) and v > 0 and fmt[i - 1] in "Cc": v = chr(v)
            if not isinstance(v, str): return TOP
            out += v
        return out
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n); o_ = strip(obj(n)) if obj(n) is not None else None
        if b == "split" and len(a) == 2:
            v, w = self.eval(a[0], st), self.eval(a[1], st)
            if isinstance(v, str) and isinstance(w, str): return [(("vec", tuple(v.split(w))), st)]
        if b == "swap" and n.a.get("fn") not in self.p.fns:
            x, y = (obj(n), a[0]) if len(a) == 1 and obj(n) is not None else (a[0], a[1]) if len(a) == 2 else (None, None)
            px, py = (self.path(z, st) if z is not None else None for z in (x, y))
            if px is not None and py is not None:
                vx, vy = self.eval(x, st), self.eval(y, st)
                return [(TOP, self.set(self.set(st, px, vy), py, vx))]
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "()" and len(a) == 2 and isinstance(self.eval(a[1], st), str): return [(("sy", self.eval(a[1], st)), st)]
        if b == "setSingleTransduction" and len(a) >= 2: return [(TOP, self.event(st, ("mark", self.eval(a[0], st), self.eval(a[1], st))))]
        if b == "setRegexp" and a: return [(TOP, self.event(st, ("regexp", self.eval(a[0], st))))]
        if b == "setParadigm" and a: return [(TOP, self.event(st, ("parname", self.eval(a[0], st))))]
        if b == "includeSymbol": return [(TOP, self.event(st, ("symbol", self.eval(a[0], st))))]
        if b == "insertEntryTokens": return [(TOP, self.event(st, ("keep",)))]
        if b == "procPar": return [("par" if self.f.cls == "Expander" else TOP, self.event(st, ("par",)))]
        if b == "procIdentity" and self.f.cls == "Expander": return [("i", st)]
        if b in ("procTransduction", "procIdentityGroup") and self.f.cls == "Expander": return [(("pr", "p", "P"), st)]
        k_ = self.setname(obj(n), st) if n.k == "CXXMemberCallExpr" and obj(n) is not None else None
        if k_ and b == "insert" and len(a) == 3:
            x, y = self.eval(a[1], st), self.eval(a[2], st)
            v = x[1][1][x[2]:y[2]] if isit(x) and isit(y) and x[1] == y[1] and isvec(x[1]) else TOP
            return [(TOP, self.event(st, ("store", k_, v)))]
        if k_ and b in ("push_back", "emplace_back") and len(a) == 1:
            x = self.eval(a[0], st)
            return [(TOP, self.event(st, ("store", k_, (x,) if ispr(x) else TOP)))]
        if k_ and b not in ("begin", "end", "size", "empty", "cbegin", "cend", "front", "back"):
            return [(TOP, self.event(st, ("store", k_, TOP)))]
        if o_ is not None and o_.k == "MemberExpr" and o_.a.get("n") in self.SETS and n.k == "CXXMemberCallExpr":       # paradigms are defined (undefined ones: P18)
            if b == "find": return [(("it", ("map",), 0), st)]
            if b in ("count", "contains"): return [(1, st)]
        if o_ is not None and o_.k == "MemberExpr" and o_.a.get("n") == "paradigms" and n.k == "CXXMemberCallExpr" and b in ("find", "count", "contains"):
            k = self.eval(a[0], st); no, yes = (self.event(st, ("lookup", k, x)) for x in (0, 1))
            return [(("it", ("map",), 0), yes), (("it", ("map",), 1), no)] if b == "find" else [(0, no), (1, yes)]
        if b.startswith("u_fprintf") and len(a) >= 2: return [(TOP, self.event(st, ("out", self.render(n, self.eval(a[1], st), [self.eval(x, st) for x in a[2:]], st))))]
        if b == "write" and len(a) == 2 and "UFILE" in (a[1].t.s if a[1].t else ""): return [(TOP, self.event(st, ("out", self.render(n, "%S", [self.eval(a[0], st)], st))))]
        if b.startswith("u_fputc") and len(a) == 2: return [(TOP, self.event(st, ("out", self.render(n, "%C", [self.eval(a[0], st)], st))))]
        return super().model(fl, f, n, qn, st)

def fields_of(prog, cls, names):
    have = {x["n"] for x in prog.records.get(cls, {}).get("fields", ())}
    miss = [n for n in names if n not in have]
    if miss: raise AnalysisBroken("%s has no member %s" % (cls, miss))

def entry(prog, f, attrs, members, kids=(), empty=0, sets=None):
    doc = [el("e", empty, attrs)] + (list(kids) + [end("e")] if not empty else []) + [el("e", 0), el("i", 1), end("e")]
    c = Entry(prog, f, doc)
    if sets is not None: c.sets = sets
    c.start(members)
    stop = 0 if empty else len(kids) + 1
    c.lost = [st for st in c.ends if c.cur(st) != stop]
    return c

def groups(v):
    """a sequence of symbols and [choices] as sorted lists, None if it is something else"""
    if not isvec(v): return None
    out = []; cur = None
    for x in v[1]:
        if x == ord("[") and cur is None: cur = []
        elif x == ord("]") and cur is not None: out.append(sorted(cur)); cur = None
        elif isinstance(x, tuple) and x and x[0] == "sy": (out if cur is None else cur).append([x[1]] if cur is None else x[1])
        else: return None
    return sorted(out) if cur is None else None
def has(val, want): return want in val.split(" ")
def comp_keep(a, d, o):
    if a["r"] and a["r"] != d: return False
    if a["i"] == "yes": return False
    if a["alt"] and not has(a["alt"], o["alt"]): return False
    if a["v"] and o["variant"] and not has(a["v"], o["variant"]): return False
    if a["vl"] and d == "RL" and not has(a["vl"], o["variant_left"]): return False
    if a["vr"] and d == "LR" and not has(a["vr"], o["variant_right"]): return False
    return True
def exp_class(a, o):
    mm = {k: bool(a[k]) and a[k] != o[{"v": "variant", "vl": "variant_left", "vr": "variant_right", "alt": "alt"}[k]] for k in ("v", "vl", "vr", "alt")}
    if a["i"] == "yes" or mm["alt"] or mm["v"] and a["r"] == "RL" or mm["vl"] and mm["vr"] or mm["vl"] and a["r"] == "RL" or mm["vr"] and a["r"] == "LR": return "none"
    if a["r"] == "LR" or mm["v"] or mm["vl"]: return "LR"
    if a["r"] == "RL" or mm["vr"]: return "RL"
    return "both"

def P17(prog, res, tier):
    res.rules += ["for every combination of the attributes r, i, alt, v, vl, vr of an entry and of the selected direction and variants, constant propagation through procEntry() inserts the entry exactly when the attributes admit it",
                  "unified compilation keeps every entry that is not ignored and marks it with one symbol per restriction value, under the prefixes lt-restrict looks for",
                  "lt-expand prints the entry for the direction(s) the attributes admit"]
    f = prog.fn("Compiler::procEntry"); g = prog.fn("Expander::procEntry")
    fields_of(prog, "Compiler", ("direction", "alt", "variant", "variant_left", "variant_right", "unified_compilation"))
    one = {"r": ("", "LR", "RL"), "i": ("", "yes", "no"), "alt": ("", "x", "y", "y x"), "v": ("", "x", "y", "y x"), "vl": ("", "x", "y", "x y"), "vr": ("", "x", "y", "x y")}
    near = [dict(dict.fromkeys(one, ""), **{k: v}) for k in ("alt", "v", "vl", "vr") for v in ("xx", "wx", "w", "w xx", "xx x")]        # values that only begin or end alike
    opts = [dict(alt=p, variant=q, variant_left=r, variant_right=s) for p, q, r, s in itertools.product(("", "x"), repeat=4)] + [dict(alt="wx", variant="wx", variant_left="wx", variant_right="wx")]
    quick = tier != "thorough"
    def combos():
        seen = set()
        for c in itertools.product(*one.values()):
            a = dict(zip(one, c))
            k = sum(1 for x in c if x)
            if k > (2 if quick else 4): continue
            yield a
        yield from near
    bad = {}; names = {}
    def report(key, msg):
        bad[key] = bad.get(key, 0) + 1
        if bad[key] == 1: res.violation(key, msg)
    for a in combos():
        with res.guard("procEntry"):
            for d in ("LR", "RL"):
                for o in (opts if not quick else [opts[0], opts[-1], opts[-2], opts[8], opts[4], opts[2], opts[1]]):
                    if quick and not any(a[k] for k in ("alt", "v", "vl", "vr")) and o is not opts[0]: continue
                    c = entry(prog, f, attrs_of(a), dict(direction=d, current_paradigm="", unified_compilation=0, entry_debugging=0, verbose=0, **o)); res.count("entries_lt_comp")
                    if not c.ends: raise AnalysisBroken("Compiler::procEntry: no end reached for %s" % a)
                    if c.lost: report("end|comp", "%s: lt-comp loses its place after the entry <e %s>" % (f.loc, show(a)))
                    got = {("keep",) in st[1] for st in c.ends}
                    want = comp_keep(a, d, o)
                    if got != {want}:
                        if len(got) > 1: raise AnalysisBroken("Compiler::procEntry: outcome not determined for %s %s %s" % (a, d, o))
                        report("comp|%s|%s" % (d, "+".join(k for k in a if a[k])), "%s: lt-comp %s with %s %s the entry <e %s>" % (f.loc, d.lower(), show(o), "drops" if want else "keeps", show(a)))
            c = entry(prog, f, attrs_of(a), dict(direction="LR", current_paradigm="", unified_compilation=1, entry_debugging=0, verbose=0, **opts[0])); res.count("entries_unified")
            if any(" " in v for v in a.values()) or not quick:
                c2 = entry(prog, f, attrs_of(a), dict(direction="LR", current_paradigm="cur", unified_compilation=1, entry_debugging=0, verbose=0, **opts[0])); res.count("entries_unified")
                c.ends += c2.ends
            want = a["i"] != "yes"
            if any(" " in v for v in a.values()):
                for nm in {e[1] for st in c.ends for e in st[1] if e[0] == "parname"}:
                    if not isinstance(nm, str): res.sample("not_analysed", "name of the paradigm for <e %s>" % show(a)); continue
                    res.count("restriction_paradigms"); k = tuple(a[x] for x in ("r", "alt", "v", "vl", "vr"))
                    if names.setdefault(nm, (k, a))[0] != k: report("unifiedpar", "%s: unified compilation uses the same paradigm '%s' for <e %s> and <e %s>" % (f.loc, nm, show(names[nm][1]), show(a)))
            wsym = {"<%s:%s>" % (p, x) for p, k in (("r", "r"), ("alt", "alt"), ("v", "v"), ("vl", "vl"), ("vr", "vr")) for x in a[k].split(" ") if x} if want else set()
            for st in c.ends:
                if (("keep",) in st[1]) != want: report("unified|%s" % "+".join(k for k in a if a[k]), "%s: unified compilation %s the entry <e %s>" % (f.loc, "drops" if want else "keeps", show(a)))
                sy = {e[1] for e in st[1] if e[0] == "symbol"}
                if TOP in sy: raise AnalysisBroken("Compiler::procEntry: restriction symbol not determined")
                used = {e[1] for e in st[1] if e[0] == "parname" and isinstance(e[1], str)}
                if any(e[0] == "lookup" and e[1] in used and not e[2] for e in st[1]) and not any(e[0] == "regexp" for e in st[1]): report("unifieddef", "%s: unified compilation does not define the paradigm it puts in front of <e %s>" % (f.loc, show(a)))
                for e in st[1]:
                    if e[0] == "mark" and wsym and not any(x[0] == "parname" for x in st[1]):
                        if not all(isvec(x) and all(isinstance(y, tuple) and y and y[0] == "sy" for y in x[1]) for x in e[1:]): res.sample("not_analysed", "symbols of <e %s>" % show(a)); continue
                        res.count("restriction_marks")
                        if e[1] != e[2] or {y[1] for y in e[1][1]} != wsym: report("unifiedmark", "%s: unified compilation puts %s : %s in front of <e %s>" % (f.loc, [y[1] for y in e[1][1]], [y[1] for y in e[2][1]], show(a)))
                    if e[0] == "regexp" and wsym:
                        gr = groups(e[1])
                        if gr is None: res.sample("not_analysed", "symbols of <e %s>" % show(a)); continue
                        res.count("restriction_marks")
                        wg = sorted(sorted("<%s:%s>" % (k, x) for x in a[k].split(" ") if x) for k in ("r", "alt", "v", "vl", "vr") if a[k])
                        if gr != wg: report("unifiedmark", "%s: unified compilation puts the choices %s in front of <e %s> instead of %s" % (f.loc, gr, show(a), wg))
                if sy != wsym: report("unifiedsym|%s" % "+".join(k for k in a if a[k]), "%s: unified compilation marks <e %s> with %s instead of %s" % (f.loc, show(a), sorted(sy), sorted(wsym)))
            if a["v"] and (a["vl"] or a["vr"]) or any(" " in v for v in a.values()): continue
            for o in opts:
                if a["v"] and not o["variant"]: pass
                e = entry(prog, g, attrs_of(a), dict(current_paradigm="", **o)); res.count("entries_lt_expand")
                want = {"none": set(), "LR": {"LR"}, "RL": {"RL"}, "both": {"both"}}[exp_class(a, o)]
                for st in e.ends:
                    got = {x[0] for x in printed(st)}
                    if got != want: report("exp|%s" % "+".join(k for k in a if a[k]), "%s: lt-expand with %s shows <e %s> as %s instead of %s" % (g.loc, show(o), show(a), sorted(got) or "nothing", sorted(want) or "nothing"))
    # the end of an entry is found whether it is kept or not, empty or not
    some = [dict(zip(one, ("",) * 6))] + [dict(zip(one, ("",) * k + (x,) + ("",) * (5 - k))) for k, key in enumerate(one) for x in one[key][1:]]
    par = el("par", 1, {"n": "x"}); i = el("i", 1); p = el("p", 1)
    for a in some:
        with res.guard("end of an entry"):
            for d in ("LR", "RL"):
                for kids, emp in (((), 1), ((), 0), ((i,), 0), ((par,), 0), ((par, i), 0), ((i, par, p), 0)):
                    for uni in (0, 1):
                        c = entry(prog, f, attrs_of(a), dict(direction=d, current_paradigm="", unified_compilation=uni, entry_debugging=0, verbose=0, **opts[0]), kids, emp); res.count("entry_ends_lt_comp")
                        if c.lost: report("end|comp", "%s: lt-comp reads on past the end of the entry <e %s%s, or stops before it" % (f.loc, show(attrs_of(a)), "/>" if emp else ">..." ))
                        if not c.ends: report("refuse|comp", "%s: lt-comp refuses the entry <e %s%s" % (f.loc, show(attrs_of(a)), "/>" if emp else ">..."))
            for kids, emp in (((), 1), ((), 0), ((i,), 0), ((par,), 0), ((par, i), 0), ((i, par, p), 0)):
                c = entry(prog, g, attrs_of(a), dict(current_paradigm="", **opts[0]), kids, emp); res.count("entry_ends_lt_expand")
                if c.lost: report("end|exp", "%s: lt-expand reads on past the end of the entry <e %s%s, or stops before it" % (g.loc, show(attrs_of(a)), "/>" if emp else ">..."))
                if not c.ends: report("refuse|exp", "%s: lt-expand refuses the entry <e %s%s" % (g.loc, show(attrs_of(a)), "/>" if emp else ">..."))
    # lt-expand: forms made of parts with different directions
    full = Entry.SETS; none = {k: ("vec", ()) for k in full}
    sets = [full, {**none, "paradigm": full["paradigm"]}, {**none, "paradigm_lr": full["paradigm_lr"]}, {**none, "paradigm_rl": full["paradigm_rl"]}, {**full, "paradigm": ("vec", ())}]
    for a, cls in (({}, "both"), ({"r": "LR"}, "LR"), ({"r": "RL"}, "RL"), ({"v": "q"}, "LR"), ({"vr": "q"}, "RL"), ({"vl": "q"}, "LR")):
        for kids in ((i,), (p,), (par,), (i, par), (par, i), (par, p), (par, par), (i, par, p, par)):
            with res.guard("Expander::procEntry"):
                for sx in sets:
                    for inpar in ("", "cur"):
                        c = entry(prog, g, a, dict(current_paradigm=inpar, **opts[0]), kids, 0, sx); res.count("direction_combinations_lt_expand")
                        want = combine(cls, kids, sx)
                        for st in c.ends:
                            got = {k: set() for k in want}
                            for k, x, y in (printed(st) if not inpar else ()):
                                got.setdefault(k, set()).add((x, y))
                            for e in st[1]:
                                if e[0] == "store":
                                    if e[2] is TOP or not all(ispr(x) for x in e[2]): raise AnalysisBroken("Expander::procEntry: stored forms not determined")
                                    if inpar: got[{"paradigm": "both", "paradigm_lr": "LR", "paradigm_rl": "RL"}[e[1]]] |= {x[1:] for x in e[2]}
                            if got != want:
                                k = next(k for k in got if want.get(k) != got[k]); want.setdefault(k, set())
                                report("forms|%s|%s" % (cls, k), "%s: lt-expand, an entry for %s made of %s where the paradigm has forms for %s: the %s forms are %s instead of %s" % (
                                    g.loc, cls, "+".join(x[0] for x in kids), [q for q in sx if sx[q][1]], k, sorted(got[k]), sorted(want[k])))
    with res.guard("matchTransduction"): match(prog, res)
    with res.guard("lt-restrict"): restrict(prog, res)
    res.require()
def printed(st):
    """lines lt-expand prints: (kind, left, right)"""
    t = [e[1] for e in st[1] if e[0] == "out"]
    if TOP in t: raise AnalysisBroken("Expander::procEntry: printed form not determined")
    t = "".join(t); out = []
    if t and not t.endswith("\n"): out.append(("unfinished", t, ""))
    for l in t.split("\n")[:-1]:
        for k, sep in (("LR", ":>:"), ("RL", ":<:"), ("both", ":")):
            if sep in l: x, y = l.split(sep, 1); out.append((k, x, y)); break
        else: out.append(("?", l, ""))
    return out
def combine(cls, kids, sx):
    cur = {"both": [], "LR": [], "RL": []}; cur[cls] = [("", "")]
    ps = {"both": sx["paradigm"][1], "LR": sx["paradigm_lr"][1], "RL": sx["paradigm_rl"][1]}
    def x(l, m): return [(p[0] + q[0], p[1] + q[1]) for p in l for q in m]
    for k in kids:
        if k[0] == "i": cur = {c: x(l, [("i", "i")]) for c, l in cur.items()}
        elif k[0] == "p": cur = {c: x(l, [("p", "P")]) for c, l in cur.items()}
        else:
            q = {c: [z[1:] for z in v] for c, v in ps.items()}
            cur = {"both": x(cur["both"], q["both"]), **{c: x(cur[c], q["both"]) + x(cur[c], q[c]) + x(cur["both"], q[c]) for c in ("LR", "RL")}}
    return {c: set(l) for c, l in cur.items()}

class Match(CVec):
    """matchTransduction on two sides of known length"""
    limit = 2000; widen = 20
    def __init__(self, prog, f): super().__init__(prog); self.f = f; self.ends = []; self.unsure = []
    def undecided(self, f, cond, st): self.unsure.append("%s: condition at line %s not decided" % (f.qn, cond.line))
    def descend(self, f, n, g, st): return g.cls == self.f.cls and g is not self.f or not g.cls and g.file == self.f.file
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n); o = obj(n)
        r = anymap(self, n, b, st)
        if r is not None: return r
        if b in ("begin", "end", "cbegin", "cend") and o is not None and self.eval(o, st) is TOP and "vector" in ((strip(o).t.s if strip(o).t else "") or ""): return [(("it", ("none",), 0), st)]     # extra characters: none
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "()" and len(a) == 3: return [(("pair", self.eval(a[1], st), self.eval(a[2], st)), st)]
        if b in ("insertSingleTransduction", "insertNewSingleTransduction") and len(a) == 3:
            v = [self.eval(x, st) for x in a]
            return [(("state", len(st[1]) + 1), self.event(st, ("arc",) + tuple(v)))]
        return None
    def ret(self, fl, f, st):
        if f is self.f: self.ends.append((self.env(st).get(("ret", f.key), TOP), st[1]))
        return st

def match(prog, res):
    f = prog.fn("Compiler::matchTransduction")
    if len(f.params) != 5: raise AnalysisBroken("Compiler::matchTransduction has other parameters")
    if "is_separable" not in {x["n"] for x in prog.records["Compiler"]["fields"]}: raise AnalysisBroken("Compiler::is_separable is gone")
    for nl in range(4):
        for nr in range(4):
            with res.guard("matchTransduction"):
                for d in ("LR", "RL"):
                    m = Match(prog, f); l = tuple(range(100, 100 + nl)); r = tuple(range(200, 200 + nr)); q = f.params
                    Flow(prog, m).run(f, m.mk({("this", "direction"): d, ("this", "is_separable"): 0, ("this", "default_weight"): ("w", "none"), (q[0].d,): ("vec", l), (q[1].d,): ("vec", r), (q[2].d,): ("state", 0), (q[4].d,): ("w", "entry")}))
                    res.count("sides_pairings")
                    if m.unsure or not m.ends: raise AnalysisBroken(m.unsure[0] if m.unsure else "Compiler::matchTransduction: no end reached")
                    for rv, ev in m.ends:
                        arcs = [e for e in ev if e[0] == "arc"]
                        if any(not (isinstance(e[1], tuple) and e[1] and e[1][0] == "pair" and all(isinstance(x, int) for x in e[1][1:])) for e in arcs): raise AnalysisBroken("Compiler::matchTransduction: symbol not determined")
                        i = tuple(e[1][1] for e in arcs if e[1][1]); o = tuple(e[1][2] for e in arcs if e[1][2])
                        want = (l, r) if d == "LR" else (r, l)
                        what = "%s: %s compilation of an entry with %d and %d symbols" % (f.loc, d.lower(), nl, nr)
                        if (i, o) != want: res.violation("sides|%s" % d, "%s puts %s on the input and %s on the output side instead of %s and %s" % (what, i, o, *want)); return
                        if any(e[2] != ("state", k) for k, e in enumerate(arcs)) or rv != ("state", len(arcs)): res.violation("chain", "%s: the arcs do not form one path to the state that is returned" % what); return
                        w = [e[3] for e in arcs]
                        if not all(x in (("w", "none"), ("w", "entry")) for x in w): raise AnalysisBroken("Compiler::matchTransduction: weight not determined")
                        if w.count(("w", "entry")) != 1: res.violation("weight", "%s gives the weight of the entry to %d of its arcs" % (what, w.count(("w", "entry")))); return
def attrs_of(a): return {k: v for k, v in a.items() if v}
def show(d): return " ".join('%s="%s"' % x for x in d.items() if x[1]) or "nothing set"

class Restrict(cli.Main, CVec):
    """lt-restrict on an alphabet holding one symbol"""
    def __init__(self, prog, f, cfg, setters, sym): super().__init__(prog, f, cfg, setters); self.sym = sym
    def descend(self, f, n, g, st):
        return g.file == self.f.file or g.qn == "StringUtils::startswith"
    def event(self, st, e): return st if e in st[1] else (st[0], st[1] + (e,))
    def read_global(self, n):
        v = cli.Main.read_global(self, n)
        return v if v is not TOP else CVec.read_global(self, n)
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n); o = obj(n); g = self.p.fns.get(n.a.get("fn"))
        if g is not None and g.cls == "Alphabet":
            v = [self.eval(x, st) for x in (a[1:] if n.k == "CXXOperatorCallExpr" else a)]
            if b == "isSymbolDefined": return [(int(v[0] == self.sym) if isinstance(v[0], str) else TOP, st)]
            if b == "size": return [(1, st)]
            if b == "getSymbol":
                p = self.path(a[0], st)
                return [(TOP, self.set(st, p, (v[0] if isinstance(v[0], str) else "") + self.sym))]
            if b == "operator()":
                if len(v) == 1: return [(-1 if v[0] == self.sym else TOP, st)]
                if len(v) == 2: return [(("sym", "both") if v == [-1, -1] else TOP, st)]
        if g is not None and (g.cls or "").startswith("sorted_vector"):
            v = self.eval(o, st); p = self.path(o, st)
            if b == "insert" and a and isvec(v) and p is not None: return [(TOP, self.set(st, p, ("vec", tuple(sorted(set(v[1] + (self.eval(a[0], st),)), key=str)))))]
            if b == "count" and isvec(v): return [(int(self.eval(a[0], st) in v[1]), st)]
            if b == "empty" and isvec(v): return [(int(not v[1]), st)]
        if b in ("deleteSymbols", "epsilonizeSymbols"):
            return [(TOP, self.event(st, (b, self.eval(a[0], st))))]
        if b == "startswith":
            v = [self.eval(x, st) for x in a]
            if all(isinstance(x, str) for x in v): return [(int(v[0].startswith(v[1])), st)]
        if b == "getenv": return [(0, st)]
        if b == "to_ustring": return [(self.eval(a[0], st), st)]
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "+=": return CVec.std(self, fl, f, n, qn, st)
        return super().model(fl, f, n, qn, st)

def restrict(prog, res):
    f = next((x for x in prog.fnall("main") if x.file == "lt_restrict.cc"), None)
    if f is None: raise AnalysisBroken("no main() in lt_restrict.cc")
    setters = {}
    pre = {"r": None, "v": "var", "alt": "alt", "vl": "var-left", "vr": "var-right"}
    for sym in ["<%s:%s>" % (p, x) for p in pre for x in (("LR", "RL") if p == "r" else ("x", "y"))] + ["<n>", "<vblex>", "<rest>", "<alter>"]:
        with res.guard("lt-restrict"):
            for d in ("lr", "rl"):
                for sel in [{}] + [{o: ["x"]} for o in pre.values() if o] + [{o: ["z", "x"]} for o in pre.values() if o]:
                    m = Restrict(prog, f, cli.config((), sel, {0: d}), setters, sym)
                    Flow(prog, m).run(f, m.mk({(q.d,): ("sym", "argv") for q in f.params if q.n == "argv"}))
                    res.count("restriction_symbols")
                    p, _, x = sym[1:-1].partition(":")
                    if not x: want = None
                    elif p == "r": want = x == d.upper()
                    elif p == "v": want = "var" not in sel or x in sel["var"]
                    elif p == "alt": want = x in sel.get("alt", ())
                    elif p == "vl": want = d == "lr" or x in sel.get("var-left", ())
                    else: want = d == "rl" or x in sel.get("var-right", ())
                    rets = [e for e in m.ends if e[0] == "return"]
                    if not rets: raise AnalysisBroken("lt_restrict: no end reached")
                    for e in rets:
                        ev = dict((k[0], k[1]) for k in e[2][1] if k[0] in ("deleteSymbols", "epsilonizeSymbols"))
                        if len(ev) < 2: res.violation("restrict|steps", "%s: %s is not reached" % (f.loc, "deleteSymbols/epsilonizeSymbols")); return
                        if not all(isvec(v) for v in ev.values()): raise AnalysisBroken("lt_restrict: symbol sets not determined")
                        dr = ("sym", "both") in ev["deleteSymbols"][1]; kp = ("sym", "both") in ev["epsilonizeSymbols"][1]
                        if (dr, kp) != ((False, False) if want is None else (not want, want)):
                            res.violation("restrict|%s|%s" % (p, d), "%s: lt-restrict %s with %s %s the entries marked %s" % (f.loc, d, show({k: " ".join(v) for k, v in sel.items()}), "deletes" if dr else "keeps" if kp else "leaves the mark on", sym)); return

# ---------------------------------------------------------------- P18
UP = ("it", ("paradigms",), 1)
class Elem(Xml):
    """one element of the dictionary format, in the class that reads it"""
    def __init__(self, prog, f, doc, sdefs=("<n>",), pars=("known",)): super().__init__(prog, f, doc); self.sdefs = sdefs; self.pars = pars
    def descend(self, f, n, g, st): return g.cls == self.f.cls and g.n not in ("procEntry",) and g.dk != "CXXConstructor" or not g.cls and g.file == self.f.file or self.helper(g)
    maxvec = 20; widen = 40
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n); o = obj(n); g = self.p.fns.get(n.a.get("fn"))
        if b == "readValueInto32" and len(a) == 2:
            p = self.path(a[1], st); v = self.eval(a[1], st)
            if not isvec(v) or p is None: raise AnalysisBroken("%s: string being read is not known" % f.qn)
            return [(TOP, self.set(st, p, ("vec", v[1] + tuple(map(ord, self.node(st)[4])))))]
        if g is not None and g.cls == "Alphabet":
            v = [self.eval(x, st) for x in (a[1:] if n.k == "CXXOperatorCallExpr" else a)]
            if b == "isSymbolDefined": return [(int(v[0] in self.sdefs) if isinstance(v[0], str) else TOP, st)]
            if b == "operator()" and len(v) == 1: return [(v[0] if isinstance(v[0], str) else TOP, st)]
            if b == "includeSymbol": return [(TOP, self.event(st, ("include", v[0])))]
        if g is not None and g.cls == "EntryToken":
            v = tuple(self.eval(x, st) for x in a)
            if b in ("setSingleTransduction", "setParadigm"): return [(TOP, self.event(st, (b,) + v))]
            if b == "readRegexp": return [(TOP, self.event(st, (b, self.node(st)[4])))]
            return [(TOP, st)]
        if b == "procEntry": return [(TOP, self.event(st, ("entry", self.env(st).get(("this", "current_section")), self.env(st).get(("this", "current_paradigm")))))]
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "[]":
            m = strip(a[0])
            if m is not None and m.k == "MemberExpr" and m.a.get("n") in ("paradigms", "paradigm", "paradigm_lr", "paradigm_rl"):
                return [(TOP, self.event(st, ("define", self.eval(a[1], st))))]
        if o is not None and g is None:
            m = strip(o)
            if b in ("insert", "emplace", "try_emplace") and a and m is not None and m.k == "MemberExpr" and m.a.get("n") in ("paradigms", "paradigm", "paradigm_lr", "paradigm_rl"):
                return [(TOP, self.event(st, ("define", TOP)))]
            if m is not None and m.k == "MemberExpr" and m.a.get("n") in ("paradigms", "paradigm", "paradigm_lr", "paradigm_rl"):
                if b in ("find", "count", "contains"):
                    k = self.eval(a[0], st)
                    if not isinstance(k, str): raise AnalysisBroken("%s: name of the paradigm not known" % f.qn)
                    have = k in self.pars
                    return [(("it", ("paradigms",), 0 if have else 1) if b == "find" else int(have), st)]
                if b in ("end", "cend"): return [(UP, st)]
        return super().model(fl, f, n, qn, st)

def elem(prog, f, doc, members=None, at=0, params=None, **k):
    m = dict(current_paradigm="", current_section="", is_separable=0, keep_boundaries=0, verbose=0, first_element=0, n_section_entries=0, max_section_entries=0)
    m.update({"any_tag": "<ANY_TAG>", "any_char": "<ANY_CHAR>", "word_boundary": "<$>", "word_boundary_s": "<$_>", "word_boundary_ns": "<$->", "reading_boundary": "<READING-SEPARATOR>"})
    m.update(members or {})
    return Elem(prog, f, doc, **k).start(m, at, params)

SPECIAL = "^$/<>{}\\*@#+~:"
def esc(t): return "".join("\\" + c if c in SPECIAL else c for c in t)
def P18(prog, res, tier):
    res.rules += ["for every element name, emptiness and node type, constant propagation through the code that reads it yields the documented symbols on the side it stands in, or the refusal that is documented",
                  "after an element has been read the reader stands at its end",
                  "lt-expand puts a backslash before every character that is special in its output, and before no other"]
    seen = set()
    def report(key, msg):
        if key not in seen: seen.add(key); res.violation(key, msg)
    class Fns(dict):
        def __init__(self, cls): self.cls = cls
        def __missing__(self, n): return prog.fn(self.cls + "::" + n)
    C, X = Fns("Compiler"), Fns("Expander")
    with res.guard('readString'):
        lit = {"b": " ", "j": "+", "a": "~"}
        lsx = {"t": "<ANY_TAG>", "w": "<ANY_CHAR>", "d": "<$>", "f": "<READING-SEPARATOR>"}
        names = ["b", "j", "a", "m", "g", "s", "t", "w", "d", "f", "x", "l", "p", "par", "e", "#comment", "section"]
        def one(cls, f, name, empty, typ, kb, sep, attrs, sdefs=("<n>",)):
            node = (name, typ, empty, attrs, "")
            q = {f.params[0].n: ("vec", ()) if cls == "Compiler" else "", f.params[1].n: name}
            return elem(prog, f, [el("l"), node, end("l")], dict(keep_boundaries=kb, is_separable=sep), 1, q, sdefs=sdefs)
        def val(c, f, st):
            v = c.env(st).get((f.params[0].d,), TOP)
            if isvec(v): return "".join(chr(x) if isinstance(x, int) else x if isinstance(x, str) else "?" for x in v[1])
            return v
        for cls, f in (("Compiler", C["readString"]), ("Expander", X["readString"])):
            if len(f.params) != 2: raise AnalysisBroken("%s has other parameters" % f.qn)
            who = "lt-comp" if cls == "Compiler" else "lt-expand"
            for name in names:
                with res.guard(f.qn):
                    for empty in (0, 1):
                        for typ in (ELEM, END) if name == "g" else (ELEM,):
                            for kb in (0, 1):
                                for sep in ((0, 1) if cls == "Compiler" else (0,)):
                                    cases = [({}, ("<n>",))]
                                    if name == "s": cases = [({"n": "n"}, ("<n>",)), ({"n": "n"}, ("<v>",))]
                                    if name == "d": cases = [({}, ()), ({"space": "yes"}, ()), ({"space": "no"}, ())]
                                    for attrs, sd in cases:
                                        want = None
                                        need = True
                                        if name in lit: want = lit[name]
                                        elif name == "m": want = ">" if kb else ""
                                        elif name == "g": want = "#" if typ == ELEM else ""; need = False
                                        elif name == "s": want = "<n>" if cls == "Expander" or "<n>" in sd else None
                                        elif name in lsx and cls == "Compiler" and sep:
                                            want = {"yes": "<$_>", "no": "<$->"}.get(attrs.get("space"), "<$>") if name == "d" else lsx[name]
                                        elif name in lsx and cls == "Expander" and name != "f": want = lsx[name]; need = False
                                        elif name in lsx and cls == "Expander": continue
                                        if need and not empty: want = None
                                        if name == "g" and empty: continue
                                        c = one(cls, f, name, empty, typ, kb, sep, attrs, sd); res.count("elements_" + cls)
                                        what = "%s: %s reads <%s%s%s>%s" % (f.loc, who, "/" if typ == END else "", name, "/" if empty else "", " (with keep-boundaries)" if kb else "")
                                        if want is None:
                                            if c.ends: report("%s|refuse|%s" % (cls, name), "%s: accepted, although it %s" % (what, "is not empty" if need and not empty and (name in lit or name in ("m", "s") or name in lsx) else "is not defined" if name == "s" else "does not belong here"))
                                            continue
                                        if not c.ends: report("%s|lost|%s" % (cls, name), "%s: refused" % what); continue
                                        for st in c.ends:
                                            v = val(c, f, st)
                                            if v is TOP or "?" in v: raise AnalysisBroken("%s: text not determined for <%s>" % (f.qn, name))
                                            if v != want: report("%s|%s" % (cls, name), "%s as '%s' instead of '%s'" % (what, v, want))
                                            if c.cur(st) != 1: report("%s|cursor|%s" % (cls, name), "%s and moves on to another node" % what)
            # text
            texts = ["q", "qw"] + ([c for c in SPECIAL + "[]()|;&'\"!? .-_%="] + [c + "q" for c in SPECIAL] + ["q" + c for c in SPECIAL] + [c + d for c in "^<\\+" for d in "$>:"] + ["q" + c + "q" + c for c in "^#"] if cls == "Expander" else ["^q", "\\<", "<n>"])
            for t in texts:
                with res.guard(f.qn):
                    q = {f.params[0].n: ("vec", ()) if cls == "Compiler" else "", f.params[1].n: "#text"}
                    c = elem(prog, f, [el("l"), text(t), end("l")], {}, 1, q); res.count("texts_" + cls)
                    for st in c.ends:
                        v = val(c, f, st)
                        if v is TOP or "?" in v.replace("?", "", t.count("?")): raise AnalysisBroken("%s: text not determined" % f.qn)
                        w = esc(t) if cls == "Expander" else t
                        if v != w: report("%s|text" % cls, "%s: %s reads the text '%s' as '%s' instead of '%s'" % (f.loc, who, t, v, w))
                    if not c.ends: report("%s|text" % cls, "%s: %s refuses the text '%s'" % (f.loc, who, t))
    with res.guard('sides'):
        body = [text("q"), el("b", 1), el("s", 1, {"n": "n"}), el("g"), text("z"), end("g")]
        for inner in ([], [text("q")], body):
            s = "".join({"#text": x[4], "b": " ", "s": "<n>"}.get(x[0], "#" if x[0] == "g" and x[1] == ELEM else "") for x in inner)
            for empty in ((0, 1) if not inner else (0,)):
                with res.guard("sides"):
                    for name, ig in (("i", 0), ("ig", 1)):
                        doc = [el(name, empty)] + ([] if empty else inner + [end(name)])
                        f = C["procIdentity"]; wq = [q for q in f.params if q.t is not None and not q.t.isint]; iq = [q for q in f.params if q.t is not None and q.t.isint]
                        if len(iq) != 1 or len(wq) != 1: raise AnalysisBroken("Compiler::procIdentity has other parameters")
                        c = elem(prog, f, doc, {}, 0, {iq[0].n: ig, wq[0].n: ("w", "entry")}); res.count("sides")
                        sides(res, report, c, f, "lt-comp", doc, s, ("#" if ig else "") + s)
                        f = X["procIdentityGroup" if ig else "procIdentity"]
                        c = elem(prog, f, doc, {}); res.count("sides")
                        sides(res, report, c, f, "lt-expand", doc, s, ("#" if ig else "") + s)
                    for other in ([], [text("w")]):
                        o = "".join(x[4] for x in other)
                        doc = [el("p"), el("l", empty)] + ([] if empty else inner + [end("l")]) + [el("r")] + other + [end("r"), end("p")]
                        for f, who in ((C["procTransduction"], "lt-comp"), (X["procTransduction"], "lt-expand")):
                            c = elem(prog, f, doc, {}, 0, {q.n: ("w", "entry") for q in f.params}); res.count("sides")
                            sides(res, report, c, f, who, doc, s, o)
                            d2 = [el("p"), el("l")] + other + [end("l"), el("r", empty)] + ([] if empty else inner + [end("r")]) + [end("p")]
                            c = elem(prog, f, d2, {}, 0, {q.n: ("w", "entry") for q in f.params}); res.count("sides")
                            sides(res, report, c, f, who, d2, o, s)
        for f, who in ((C["procTransduction"], "lt-comp"), (X["procTransduction"], "lt-expand")):
            for doc in ([el("p"), el("r"), end("r"), el("l"), end("l"), end("p")], [el("p"), el("l"), end("l"), end("p")], [el("p"), text("q"), el("l"), end("l"), el("r"), end("r"), end("p")], [el("p"), el("l"), end("l"), el("r"), end("r"), el("i", 1), end("p")]):
                with res.guard(f.qn):
                    c = elem(prog, f, doc, {}, 0, {q.n: ("w", "entry") for q in f.params}); res.count("wrong_pairs")
                    if c.ends: report(who + "|pair", "%s: %s accepts a <p> made of %s" % (f.loc, who, " ".join(x[0] for x in doc[1:])))
    with res.guard('paradigms'):
        for f, who in ((C["procPar"], "lt-comp"),):
            for nm, cur, pars, ok in (("known", "", ("known",), 1), ("known", "other", ("known",), 1), ("nope", "", ("known",), 0), ("known", "known", ("known",), 0), ("nope", "nope", ("known",), 0)):
                with res.guard(f.qn):
                    c = elem(prog, f, [el("par", 1, {"n": nm})], dict(current_paradigm=cur), pars=pars); res.count("paradigm_references")
                    if bool(c.ends) != bool(ok): report("par|%s" % who, "%s: %s %s a reference to the paradigm '%s' %s" % (f.loc, who, "refuses" if ok else "accepts", nm, "that is being defined" if cur == nm else "that is defined" if ok else "that is not defined"))
                    for st in c.ends:
                        if ("setParadigm", nm) not in st[1]: report("par|name", "%s: %s takes a reference to the paradigm '%s' for another one" % (f.loc, who, nm))
        f = prog.fn("Expander::procEntry")
        for pars in (("known",), ()):
            with res.guard(f.qn):
                class E2(Entry):
                    def model(self, fl, f, n, qn, st):
                        m = strip(obj(n)) if obj(n) is not None else None
                        if m is not None and m.k == "MemberExpr" and m.a.get("n") in self.SETS:
                            if base(n) == "find": return [(("it", ("paradigms",), 0 if pars else 1), st)]
                            if base(n) == "end": return [(UP, st)]
                            if base(n) in ("count", "contains"): return [(int(bool(pars)), st)]
                        if base(n) == "procPar": return [("known", st)]
                        return super().model(fl, f, n, qn, st)
                c = E2(prog, f, [el("e"), el("par", 1, {"n": "known"}), end("e")]).start(dict(current_paradigm="")); res.count("paradigm_references")
                if bool(c.ends) != bool(pars): report("par|lt-expand", "%s: lt-expand %s a paradigm that is %sdefined" % (f.loc, "refuses" if pars else "accepts", "" if pars else "not "))
    with res.guard('structure'):
        for cls, f in (("Compiler", C["procNode"]), ("Expander", X["procNode"])):
            who = "lt-comp" if cls == "Compiler" else "lt-expand"
            def run(node, nxt=(), **m):
                c = elem(prog, f, [node] + list(nxt), m); res.count("structure"); return c
            def state(c, st, name): return c.env(st).get(("this", name), TOP)
            for nm in ("dictionary", "sdefs", "pardefs", "#text", "#comment"):
                with res.guard(f.qn):
                    for nd in (el(nm), end(nm)):
                        c = run(nd, current_section="sec", current_paradigm="par")
                        if not c.ends: report("%s|struct|%s" % (cls, nm), "%s: %s refuses <%s>" % (f.loc, who, nm))
                        for st in c.ends:
                            if state(c, st, "current_section") != "sec" or state(c, st, "current_paradigm") != "par" or c.cur(st) != 0 or any(e[0] == "entry" for e in st[1]):
                                report("%s|struct|%s" % (cls, nm), "%s: %s does more than pass over <%s>" % (f.loc, who, nm))
            for nm in ("p", "i", "l", "r", "b", "par", "nonsense", "tagset", ""):
                with res.guard(f.qn):
                    c = run(el(nm, 1))
                    if c.ends: report("%s|struct|unknown" % cls, "%s: %s accepts <%s> outside of an entry" % (f.loc, who, nm))
            for empty in (0, 1):
                with res.guard(f.qn):
                    c = run(el("pardef", empty, {"n": "x"}), (text(" "),))
                    for st in c.ends:
                        if state(c, st, "current_paradigm") != ("" if empty else "x"): report("%s|pardef|%d" % (cls, empty), "%s: %s: after <pardef n=\"x\"%s> the entries go to '%s'" % (f.loc, who, "/" if empty else "", state(c, st, "current_paradigm")))
                        if c.cur(st) != 0: report("%s|pardef|cursor" % cls, "%s: %s reads on past <pardef>" % (f.loc, who))
                    if empty and any(not any(e[0] == "define" and e[1] in ("x", TOP) for e in st[1]) for st in c.ends): report("%s|pardef|define" % cls, "%s: %s does not define the paradigm of <pardef n=\"x\"/>" % (f.loc, who))
            c = run(end("pardef"), current_paradigm="x")
            if any(not any(e[0] == "define" and e[1] in ("x", TOP) for e in st[1]) for st in c.ends): report("%s|pardef|define" % cls, "%s: %s does not define a paradigm that has no entries" % (f.loc, who))
            if any(state(c, st, "current_paradigm") != "" for st in c.ends) or not c.ends: report("%s|pardef|end" % cls, "%s: %s: after </pardef> the entries still go to the paradigm" % (f.loc, who))
            for par in ("", "x"):
                with res.guard(f.qn):
                    c = run(el("e", 0), current_section="main@standard", current_paradigm=par)
                    if not c.ends: report("%s|e" % cls, "%s: %s refuses <e>" % (f.loc, who))
                    for st in c.ends:
                        e = [x for x in st[1] if x[0] == "entry"]
                        if len(e) != 1: report("%s|e" % cls, "%s: %s reads the entry %d times" % (f.loc, who, len(e)))
                        elif e[0][2] != par or cls == "Compiler" and e[0][1] != "main@standard": report("%s|e|where" % cls, "%s: %s puts an entry of %s into '%s' '%s'" % (f.loc, who, "the paradigm 'x'" if par else "section 'main@standard'", e[0][1], e[0][2]))
            c = run(el("sdef", 1, {"n": "n"}))
            if not c.ends: report("%s|sdef" % cls, "%s: %s refuses <sdef>" % (f.loc, who))
            if cls == "Expander": continue
            for st in c.ends:
                if [e[1] for e in st[1] if e[0] == "include"] != ["<n>"]: report("sdef", "%s: lt-comp: <sdef n=\"n\"/> defines %s" % (f.loc, [e[1] for e in st[1] if e[0] == "include"]))
            for at, ok in (({"id": "main", "type": "standard"}, 1), ({"id": "main"}, 0), ({"type": "standard"}, 0), ({}, 0)):
                with res.guard(f.qn):
                    c = run(el("section", 0, at), current_section="old@x")
                    if bool(c.ends) != bool(ok): report("section|attr", "%s: lt-comp %s <section %s>" % (f.loc, "refuses" if ok else "accepts", show(at)))
                    for st in c.ends:
                        if state(c, st, "current_section") != "main@standard": report("section", "%s: lt-comp calls the section main@standard '%s'" % (f.loc, state(c, st, "current_section")))
            for k, mx, cur in itertools.product((0, 1, 2, 3), (1, 2), ("main@standard", "+main@standard")):
                with res.guard(f.qn):
                    c = run(el("e", 0), current_section=cur, current_paradigm="", n_section_entries=k, max_section_entries=mx); res.count("split_sections")
                    for st in c.ends:
                        for e in st[1]:
                            if e[0] != "entry" or e[1] == cur: continue
                            if not isinstance(e[1], str): raise AnalysisBroken("Compiler: section not determined")
                            if not e[1].endswith("@standard"): report("split|type", "%s: lt-comp with a maximum of %d entries goes on from section '%s' in '%s', which is not a section of the same type" % (f.loc, mx, cur, e[1]))
                            elif all(x.isalnum() or x in "_-.:" for x in e[1][:-len("@standard")]): report("split|name", "%s: lt-comp with a maximum of %d entries goes on from section '%s' in '%s', which may be a section of the dictionary" % (f.loc, mx, cur, e[1]))
            c = run(el("alphabet", 1), (el("section", 0, {}),))
            if any(c.cur(st) != 0 for st in c.ends): report("alphabet|cursor", "%s: lt-comp reads on past <alphabet/>" % f.loc)
            for t, w in (("qw", "qw"), ("\n", ""), (" ", ""), ("q w", "q w")):
                with res.guard(f.qn):
                    c = run(el("alphabet", 0), (text(t), end("alphabet")), letters="")
                    for st in c.ends:
                        if state(c, st, "letters") is TOP: raise AnalysisBroken("Compiler: alphabet not determined")
                        if state(c, st, "letters") != w: report("alphabet", "%s: lt-comp takes the letters '%s' for '%s'" % (f.loc, t, state(c, st, "letters")))
        with res.guard("insertEntryTokens"): tokens(prog, res, report)
    with res.guard('regular expressions'):
        f = X["procRegexp"]
        for t in ["q", "[qw]+", "q:w", "a\\.b", "\\^", "^", "a*", "(a|b)?", "a\\\\:"]:
            with res.guard(f.qn):
                c = elem(prog, f, [el("re"), text(t), end("re")], {}); res.count("regexps")
                w = ""; k = 0
                while k < len(t):
                    if t[k] == "\\" and k + 1 < len(t): w += t[k:k + 2]; k += 2; continue
                    w += ("\\" if t[k] in SPECIAL.replace("\\", "") else "") + t[k]; k += 1
                for st in c.ends:
                    v = c.env(st).get(("ret", f.key), TOP)
                    if not isinstance(v, str): raise AnalysisBroken("Expander::procRegexp: text not determined")
                    if v != w: report("exp|re", "%s: lt-expand shows the regular expression '%s' as '%s' instead of '%s'" % (f.loc, t, v, w))
                    if c.cur(st) != 2: report("exp|re|cursor", "%s: lt-expand loses its place after <re>" % f.loc)
        f = C["procRegexp"]
        for doc, ok in (([el("re"), text("q+"), end("re")], 1), ([el("re"), el("b", 1), end("re")], 0), ([el("re"), text("q"), el("b", 1), end("re")], 0)):
            with res.guard(f.qn):
                c = elem(prog, f, doc, {}); res.count("regexps")
                if bool(c.ends) != bool(ok): report("comp|re", "%s: lt-comp %s <re> containing %s" % (f.loc, "refuses" if ok else "accepts", [x[0] for x in doc[1:-1]]))
                for st in c.ends:
                    if ("readRegexp", "q+") not in st[1] or c.cur(st) != 2: report("comp|re", "%s: lt-comp does not read the text of <re>" % f.loc)
    res.require()

def sides(res, report, c, f, who, doc, left, right):
    what = "%s: %s reads %s" % (f.loc, who, " ".join(("</%s>" if x[1] == END else "<%s/>" if x[2] else "<%s>") % x[0] if x[1] != TEXT else x[4] for x in doc))
    if not c.ends: report("sides|%s|%s" % (who, doc[0][0]), what + ": refused"); return
    def s(v): return "".join(chr(x) if isinstance(x, int) else x if isinstance(x, str) else "?" for x in v[1]) if isvec(v) else v
    for st in c.ends:
        if who == "lt-comp":
            ev = [e for e in st[1] if e[0] == "setSingleTransduction"]
            if len(ev) != 1: report("sides|%s|%s" % (who, doc[0][0]), "%s %d times" % (what, len(ev))); return
            got = (s(ev[0][1]), s(ev[0][2]))
            if len(ev[0]) < 4 or ev[0][3] != ("w", "entry"): report("sides|weight|%s" % doc[0][0], "%s without the weight of the entry" % what)
        else:
            v = c.env(st).get(("ret", f.key), TOP)
            got = tuple(v[1:]) if ispr(v) else (v, v)
        if any(not isinstance(x, str) for x in got): raise AnalysisBroken("%s: sides not determined (%s)" % (f.qn, got))
        if got != (left, right): report("sides|%s|%s" % (who, doc[0][0]), "%s as '%s' and '%s' instead of '%s' and '%s'" % (what, *got, left, right))
        if c.cur(st) != len(doc) - 1: report("sides|cursor|%s|%s" % (who, doc[0][0]), "%s but does not stop at its end" % what)

class Tokens(CVec):
    """insertEntryTokens: which path the parts of an entry make"""
    limit = 2000; widen = 20; maxvec = 20
    CACHES = ("suffix_paradigms", "postsuffix_paradigms", "prefix_paradigms")
    def __init__(self, prog, f): super().__init__(prog); self.f = f; self.ends = []; self.unsure = []
    def undecided(self, f, cond, st): self.unsure.append("%s: condition at line %s not decided" % (f.qn, cond.line))
    def descend(self, f, n, g, st): return g.cls == self.f.cls and g.n != "matchTransduction" or g.file == self.f.file and not g.cls
    def cache(self, n, st):
        """(map, section, paradigm) denoted by an expression, None if it is something else"""
        n = strip(n)
        if n is None: return None
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "[]" or n.k == "CXXMemberCallExpr" and base(n) == "at":
            o, k = (n.c[1], n.c[2]) if n.k == "CXXOperatorCallExpr" else (obj(n), cargs(n)[0])
            m = strip(o)
            b = (m.a["n"],) if m is not None and m.k == "MemberExpr" and m.a.get("n") in self.CACHES else self.cache(o, st)
            if b is None or len(b) > 2: return None
            return b + (self.eval(k, st),)
        p = self.path(n, st) if n.k == "DeclRefExpr" else None
        v = self.env(st).get(p, TOP) if p is not None else TOP
        return v[1:] if isinstance(v, tuple) and v and v[0] == "cachedref" else None
    def bindref(self, v, init, st):
        c = self.cache(init, st)
        return ("cachedref",) + c if c is not None and v.t is not None and v.t.ref else super().bindref(v, init, st)
    def eval(self, n, st):
        c = self.cache(n, st) if n is not None and n.k in CALLS else None
        if c is not None: return ("cached",) + c
        v = super().eval(n, st)
        if isinstance(v, tuple) and v and v[0] == "cachedref": return ("cached",) + v[1:]
        if v is TOP and n is not None and n.k == "MemberExpr" and n.a.get("n") == "second" and n.c:
            x = self.eval(n.c[0], st); y = strip(n.c[0])
            if not isit(x) and y is not None and y.k == "CXXOperatorCallExpr" and y.a.get("op") in ("->", "*"): x = self.eval(cargs(y)[0], st)
            if isit(x) and x[1] and x[1][0] == "cache": return ("cached",) + x[1][1:]
        return v
    def assign(self, f, n, lhs, val, st):
        c = self.cache(lhs, st)
        if c is not None: return self.event(st, ("cache",) + c + (val,))
        return super().assign(f, n, lhs, val, st)
    def at(self, v):
        if isinstance(v, tuple) and v and v[0] == "st": return v[1]
        if isinstance(v, tuple) and len(v) == 4 and v[:3] == ("cached", "prefix_paradigms", "sec"): return (v[3],)
        return None
    def model(self, fl, f, n, qn, st):
        b = base(n); a = cargs(n); o = obj(n); g = self.p.fns.get(n.a.get("fn"))
        if b == "matchTransduction":
            v = [self.eval(x, st) for x in a]
            if len(v) != 5 or self.at(v[2]) is None: raise AnalysisBroken("insertEntryTokens: matchTransduction called in another way")
            ok = all(isinstance(x, tuple) and x and x[0] == y for x, y in ((v[0], "left"), (v[1], "right"), (v[4], "weight"))) and v[0][1] == v[1][1] == v[4][1]
            if not ok: return [(("st", self.at(v[2]) + ("?",)), self.event(st, ("bad", "the left side, the right side and the weight of one token are not passed on together")))]
            return [(("st", self.at(v[2]) + (v[0][1],)), self.event(st, ("into", self.tr(a[3], st))))]
        if g is not None and g.cls == "EntryToken" and o is not None:
            t = self.eval(o, st)
            if not (isinstance(t, tuple) and t and t[0] == "tok"): raise AnalysisBroken("insertEntryTokens: token not known")
            if b == "isParadigm": return [(int(t[1] == "par"), st)]
            if b == "isRegexp": return [(int(t[1] == "re"), st)]
            if b == "isSingleTransduction": return [(int(t[1] == "pair"), st)]
            if b == "paradigmName": return [(t[2], st)]
            if b in ("left", "right", "regExp"): return [((b, t[2]), st)]
            if b == "entryWeight": return [(("weight", t[2]), st)]
        if g is not None and g.cls == "RegexpCompiler":
            if b == "compile": return [(TOP, self.event(st, ("compiled", self.eval(a[0], st))))]
            if b == "getTransducer":
                l = [e for e in st[1] if e[0] == "compiled"]
                return [(("re", l[-1][1][1] if l and isinstance(l[-1][1], tuple) else "?"), st)]
            return [(TOP, st)]
        if g is not None and g.cls == "Transducer" and o is not None:
            v = [self.eval(x, st) for x in a]
            if b == "getInitial": return [(("st", ()), st)]
            if b == "insertTransducer":
                s = self.at(v[0])
                w = v[1]
                if s is None or not (isinstance(w, tuple) and w and w[0] in ("par", "re")): raise AnalysisBroken("insertEntryTokens: insertTransducer on unknown states")
                return [(("st", s + (w[1],)), self.event(st, ("into", self.tr(o, st))))]
            if b in ("insertNewSingleTransduction", "insertSingleTransduction"):
                s = self.at(v[1])
                if s is None: raise AnalysisBroken("insertEntryTokens: state not known")
                return [(("st", s), self.event(st, ("into", self.tr(o, st))))]
            if b == "linkStates": return [(TOP, self.event(self.event(st, ("link", v[0], v[1])), ("into", self.tr(o, st))))]
            if b == "setFinal": return [(TOP, self.event(self.event(st, ("final", v[0])), ("into", self.tr(o, st))))]
            if b in ("isEmpty",): return [(TOP, st)]
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "[]":
            m = strip(a[0])
            if m is not None and m.k == "MemberExpr" and m.a.get("n") in ("paradigms", "sections"):
                return [(("par" if m.a["n"] == "paradigms" else "section", self.eval(a[1], st)), st)]
        if o is not None and g is None:
            c = self.cache(o, st)
            if c is None:
                m = strip(o)
            if c is not None and len(c) == 2:
                if b == "find":
                    k = self.eval(a[0], st)
                    return [(("it", ("cache",) + c + (k,), 0), self.event(st, ("hit",) + c + (k,))), (("it", ("cache",) + c, 1), st)]
                if b in ("count", "contains"):
                    return [(1, self.event(st, ("hit",) + c + (self.eval(a[0], st),))), (0, st)]
                if b in ("end", "cend"): return [(("it", ("cache",) + c, 1), st)]
        return None
    def tr(self, n, st):
        v = self.eval(n, st)
        return v if isinstance(v, tuple) and v and v[0] in ("par", "section") else TOP
    def ret(self, fl, f, st):
        if f is self.f: self.ends.append(st)
        return st

def tokens(prog, res, report):
    f = prog.fn("Compiler::insertEntryTokens")
    kinds = ("par", "pair", "re")
    for k in (1, 2, 3):
        for seq in itertools.product(kinds, repeat=k):
            with res.guard("insertEntryTokens"):
                toks = tuple(("tok", t, "%s%d" % (t, i)) for i, t in enumerate(seq))
                for par in ("", "cur"):
                    m = Tokens(prog, f)
                    Flow(prog, m).run(f, m.mk({("this", "current_paradigm"): par, ("this", "current_section"): "sec", (f.params[0].d,): ("vec", toks)})); res.count("token_sequences")
                    if m.unsure or not m.ends: raise AnalysisBroken(m.unsure[0] if m.unsure else "Compiler::insertEntryTokens: no end reached")
                    want = tuple(t[2] for t in toks); home = ("par", "cur") if par else ("section", "sec")
                    what = "%s: lt-comp, an entry made of %s in a %s" % (f.loc, "+".join(seq), "paradigm" if par else "section")
                    for st in m.ends:
                        ev = st[1]
                        for e in ev:
                            if e[0] == "bad": report("tokens|sides", "%s: %s" % (what, e[1]))
                            if e[0] == "into" and e[1] is TOP: raise AnalysisBroken("Compiler::insertEntryTokens: target transducer not known")
                            if e[0] == "into" and e[1] != home: report("tokens|home", "%s goes into %s '%s'" % (what, *e[1]))
                            if e[0] == "cache":
                                mp, sec, nm, v = e[1:]
                                if sec != "sec" or par: report("tokens|cache", "%s: the shared paradigm is remembered under '%s'" % (what, sec))
                                s = m.at(v)
                                w = want[:-1] if mp == "suffix_paradigms" else want if mp == "postsuffix_paradigms" else (nm,)
                                if s != w or nm != (want[-1] if mp != "prefix_paradigms" else want[0]): report("tokens|cache|" + mp, "%s: %s['%s'] is set to the state after %s" % (what, mp, nm, s))
                        hits = {e[1]: e[2:] for e in ev if e[0] == "hit"}
                        if any(e[0] == "cache" and e[1] == "suffix_paradigms" for e in ev) != any(e[0] == "cache" and e[1] == "postsuffix_paradigms" for e in ev): report("tokens|pair", "%s: only one end of the shared paradigm is remembered" % what)
                        fin = [e[1] for e in ev if e[0] == "final"]
                        if len(fin) != 1: report("tokens|final", "%s has %d final states" % (what, len(fin))); continue
                        def walk(v):
                            if m.at(v) is not None: return m.at(v)
                            if isinstance(v, tuple) and v and v[0] == "cached" and len(v) == 4 and v[2] == "sec":
                                if v[1] == "postsuffix_paradigms":
                                    for e in ev:
                                        if e[0] == "link" and isinstance(e[2], tuple) and e[2] == ("cached", "suffix_paradigms") + v[2:] and walk(e[1]) is not None: return walk(e[1]) + (v[3],)
                                if v[1] == "prefix_paradigms": return (v[3],)
                            return None
                        # states reached through the prefix cache
                        p = walk(fin[0])
                        if p is None: raise AnalysisBroken("Compiler::insertEntryTokens: final state not known (%s)" % (fin[0],))
                        if p != want: report("tokens|path", "%s becomes the path %s" % (what, "+".join(p) or "of nothing"))
