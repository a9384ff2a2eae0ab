"""P03: every Unicode character is carried whole."""
from sa.prog import AnalysisBroken, where, CALLS, fnodes
from sa.bitai import BV, Loc, Ptr, Term, const, Outcome, explore
from sa.models import Codec, Underflow
from sa.flow import callee, cargs, const_of, strip, obj
from .codec import fmt_cube

STRT = "basic_string<char16_t"
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr")

def scalar_values(I, v):
    """0 < v <= 10FFFF, not a surrogate"""
    if I.truth(I.cmp(">", v, const(0x10FFFF, 33))): return False
    if not I.truth(I.cmp(">", v, const(0, 33))): return False
    if I.truth(I.cmp(">=", v, const(0xD800, 33))) and I.truth(I.cmp("<=", v, const(0xDFFF, 33))): return False
    return True

def inverse(res, prog, enc, dec, tag, first):
    n = 0; lens = set()
    def run(cube, ch):
        I = Codec(prog, cube, ch)
        v = I.sym("c", 32, True)
        if not scalar_values(I, v): return ("skip",)
        s = Loc(("str",)); I.mem[s.key] = []
        x = I.mem[s.key]
        if len(enc.params) == 2: I.call(enc, [s, v])
        else: raise AnalysisBroken("signature of %s" % enc.qn)
        units = I.mem[s.key]
        try:
            if first: out = [I.call(dec, [s])]
            else:
                l = Loc(("vec",)); I.mem[l.key] = []
                I.call(dec, [s, l]); out = I.mem[l.key]
        except (Underflow, Outcome) as o: return ("bad", "the decoder fails on the encoded character")
        if len(out) != 1: return ("bad", "one character becomes %d characters" % len(out))
        y = I.norm(I.conv(out[0], enc.params[1].t)); w = I.norm(v)
        if any(b is None for b in y.b): raise AnalysisBroken("result of %s not expressible" % dec.qn)
        if y.b != w.b: return ("bad", "bits %s of the character differ after encoding and decoding" % [i for i, (a, b) in enumerate(zip(y.b, w.b)) if a != b])
        return ("ok", len(units))
    for cube, ch, r in explore(run):
        if r[0] == "skip": continue
        n += 1
        if r[0] == "bad" and ch: raise AnalysisBroken("%s: depends on something that is not tracked" % tag)
        if r[0] == "bad": res.violation("%s|value" % tag, "%s: for characters %s %s [%s, %s]" % (tag, fmt_cube(cube, "c", 21), r[1], enc.loc, dec.loc))
        else: lens.add(r[1])
    if not n: raise AnalysisBroken("%s: no value explored" % tag)
    res.count("partitions", n); res.sample("pairs", "%s: %d partitions of the 1,112,063 characters, %s units" % (tag, n, sorted(lens)))

LEAD = [("0xxxxxxx", 1), ("110xxxxx", 2), ("1110xxxx", 3), ("11110xxx", 4)]
def utf8(res, prog):
    """InputFile takes exactly the bytes of one character and hands all of them to the decoder"""
    f = prog.fn("InputFile::internal_read")
    n = 0
    for pat, want in LEAD:
        def run(cube, ch):
            calls = []
            def m_dec(I, e):
                a = [I.rval(x) for x in e.c[1:]] if e.k == "CallExpr" else None
                calls.append(a); return Term("skip")
            I = Codec(prog, cube, ch, {"utf8to32": m_dec, "memset": lambda I, e: Term("skip")})
            this = Loc(("in",))
            I.mem[(("in",), "buffer_size")] = const(0, 32, True); I.mem[(("in",), "infile")] = Term("stream")
            b = I.sym("b", 8)
            for i, x in enumerate(reversed(pat)):
                if x != "x": I.cube.setdefault(("b", i), int(x))
            b = I.norm(b)
            if pat[0] == "0" and not I.truth(b): return ("skip",)
            I.stream = [b] + [I.norm(BV(8, False, [("c%d" % k, i) for i in range(8)])) for k in range(3)]
            try: I.call(f, [], this)
            except (Underflow, Outcome) as o: return ("bad", "the character is refused")
            if 4 - len(I.stream) != want: return ("bad", "%d bytes are taken for a character of %d bytes" % (4 - len(I.stream), want))
            if len(calls) == 1 and calls[0] and len(calls[0]) == 3 and all(isinstance(x, Ptr) for x in calls[0][:2]):
                x, y = calls[0][:2]; d = ptrdiff(I, x, y)
                if d is not None and d != want: return ("bad", "%d bytes are decoded for a character of %d bytes" % (d, want))
            return ("ok",)
        for cube, ch, r in explore(run):
            if r[0] == "skip": continue
            n += 1
            if r[0] == "bad" and ch: raise AnalysisBroken("reading of a character depends on something that is not tracked")
            if r[0] == "bad": res.violation("utf8|%d" % want, "InputFile::internal_read: for first bytes %s %s [%s]" % (pat, r[1], f.loc)); break
    # a character the input breaks off in is refused, not made up from what is left in the buffer
    def short(I, e):
        a = e.c[1:] if e.k != "CXXConstructExpr" else e.c
        w = I.cval(I.rval(a[1])); k = I.cval(I.rval(a[2])); g = min(k, len(I.stream) // w)
        del I.stream[:g * w]
        return const(g, 64)
    for pat, want in LEAD[1:]:
        for have in range(1, want):
            def run(cube, ch):
                dec = []
                I = Codec(prog, cube, ch, {"utf8to32": lambda I, e: dec.append(1) or Term("skip"), "memset": lambda I, e: Term("skip"), "fread": short, "fread_unlocked": short})
                I.mem[(("in",), "buffer_size")] = const(0, 32, True); I.mem[(("in",), "infile")] = Term("stream")
                b = I.sym("b", 8)
                for i, x in enumerate(reversed(pat)):
                    if x != "x": I.cube.setdefault(("b", i), int(x))
                I.stream = [I.norm(b)] + [I.norm(BV(8, False, [("c%d" % k, i) for i in range(8)])) for k in range(have - 1)]
                try: I.call(f, [], Loc(("in",)))
                except Outcome: return ("ok",)
                except Underflow: return ("ok",)
                return ("bad",) if dec else ("ok",)
            for cube, ch, r in explore(run):
                n += 1
                if r[0] == "bad" and not ch:
                    res.violation("utf8|short|%d" % want, "InputFile::internal_read: a character of %d bytes of which the input holds only %d is decoded all the same [%s]" % (want, have, f.loc)); break
    res.count("lead_byte_partitions", n)
def ptrdiff(I, x, y):
    try:
        if x.loc.key != y.loc.key: return None
        c = lambda o: I.cval(o) if isinstance(o, BV) else o
        return c(y.off) - c(x.off)
    except Exception: return None
def u16(t): return t is not None and (t.s or "").replace("const ", "").replace("&", "").strip() in ("char16_t", "UChar", "unsigned short")
def cp32(t): return t is not None and t.isint and not t.bool and (t.w or 0) >= 32

CASEFN = ("u_toupper", "u_tolower", "u_totitle", "u_foldCase")
def unitval(n):
    """expression whose value fits a UTF-16 unit"""
    n = strip(n)
    if n is None: return False
    if u16(n.t): return True
    if n.k in CASTS and n.c: return unitval(n.c[0])
    if n.k in CALLS and (callee(n) or "").startswith(CASEFN): return unitval(cargs(n)[0])
    if n.k == "ConditionalOperator": return all(unitval(x) or const_of(x) is not None for x in n.c[1:3])
    if n.k == "BinaryOperator" and n.a.get("op") == "&": return any((const_of(x) or 1 << 30) <= 0xFFFF for x in n.c)
    if n.a.get("cv") is not None or const_of(n) is not None: return True
    return False
def bounded(n, f):
    """a dominating test in the same function bounds the variable: if (c <= 0xFFFF) ..."""
    x = strip(n)
    if x is None or x.k != "DeclRefExpr" or x.a.get("d") is None: return None
    d = x.a["d"]
    def tests(c, ops):
        for m in c.walk():
            if m.k == "BinaryOperator" and m.a.get("op") in ops:
                for i in (0, 1):
                    y = strip(m.c[i])
                    if y is not None and y.k == "DeclRefExpr" and y.a.get("d") == d: return True
    p, q = n.parent, n
    while p is not None:
        if p.k in ("IfStmt", "ConditionalOperator", "WhileStmt", "ForStmt", "DoStmt"):
            c = p.a.get("cond") or (p.c[0] if p.c else None)
            if c is not None and c is not q:
                if tests(c, ("<", "<=", ">", ">=")): return True
                yes = q is p.a.get("then") if p.k == "IfStmt" else q is p.c[1] if p.k == "ConditionalOperator" else True
                if yes and tests(c, ("==",)) and p.k != "DoStmt": return True      # it is that character
        if p.k == "SwitchStmt" and any(x.k == "DeclRefExpr" and x.a.get("d") == d for x in (p.a.get("cond") or p.c[0]).walk()): return True
        p, q = p.parent, p
    return False

# where characters go: parameters that take a character or symbol
SINKF = ("State::step", "State::step_case", "State::step_careful", "State::step_override", "State::apply", "State::apply_override", "State::apply_careful",
         "Transducer::insertSingleTransduction", "Transducer::insertNewSingleTransduction", "MatchState::step", "FSTProcessor::isAlphabetic", "Alphabet::operator()", "RegexpCompiler::consume", "InputFile::unget")
def P03(prog, res, tier):
    res.rules.append("appending a character to a string and decoding the string again gives the character, for every character")
    res.rules.append("no character (32 bits) is stored in a UTF-16 unit outside the encoder, unless its value is a unit or is tested against a bound first")
    res.rules.append("no UTF-16 unit is added to a sequence of characters or given to a step of a transducer as if it were a character")
    encs = [f for f in prog.fns.values() if f.qn == "operator+=" and len(f.params) == 2 and STRT in f.params[0].t.s and cp32(f.params[1].t) and f.body is not None]
    v32 = prog.fnall("ustring_to_vec32") or []
    with res.guard("encoder/decoder"):
        if len(encs) != 1 or len(v32) != 1: raise AnalysisBroken("encoder or decoder not found")
        inverse(res, prog, encs[0], v32[0], "append character/ustring_to_vec32", False)
    with res.guard("first_char32"):
        f1 = prog.fnall("first_char32")
        if len(f1) == 1 and encs: inverse(res, prog, encs[0], f1[0], "append character/first_char32", True)
    with res.guard("UTF-8 input"): utf8(res, prog)
    ek = {f.key for f in encs}; D = Dims(prog)
    res.rules.append("a number of UTF-16 units (size, find, index of a string) is never used as a number of characters of the input, nor the other way round")
    for f in prog.fns.values():
        if f.body is None or f.key in ek or f.file.startswith("/usr"): continue
        for n in fnodes(f):
            if n.k in CASTS and n.a.get("ck") == "IntegralCast" and u16(n.t) and n.t.w == 16 and n.c and cp32(n.c[0].t) and const_of(n) is None and const_of(n.c[0]) is None:
                res.count("narrowing_sites")
                if "erialise" in f.qn: continue                      # bytes, decided by P01
                if unitval(n.c[0]) or constparam(prog, n.c[0], f): continue
                b = bounded(n.c[0], f)
                if b or b is None and not plainchar(n.c[0]): res.sample("narrowings_not_decided", where(n)); continue
                res.violation("narrow|%s" % f.qn, "%s: a character (%s) is cut down to one UTF-16 unit: characters above U+FFFF are lost" % (where(n), n.c[0].t.s))
            if n.k in CALLS: sinks(prog, res, f, n); counts(prog, res, D, f, n)
    res.require()
USTR = ("basic_string<char16_t", "basic_string_view<char16_t")
LEN = ("size", "length", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of")
class Dims:
    """what a number counts: 'u' UTF-16 units of a string, 'c' whole characters, None anything else"""
    def __init__(self, prog): self.p = prog; self.memo = {}; self.busy = set()
    def defs(self, f):
        d = getattr(f, "_dimdefs", None)
        if d is not None: return d
        d = f._dimdefs = {}
        for n in fnodes(f):
            if n.k == "DeclStmt":
                for v in n.a.get("vars", ()):
                    if v.init is not None: d.setdefault(v.d, []).append(v.init)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.a.get("op") in ("=", "+=", "-="):
                x = strip(n.c[0])
                if x is not None and x.k == "DeclRefExpr": d.setdefault(x.a.get("d"), []).append(n.c[1])
        return d
    def of(self, n, f, depth=0):
        n = strip(n)
        while n is not None and n.k in CASTS + ("ParenExpr",) and n.c: n = strip(n.c[0])
        if n is None or depth > 6 or const_of(n) is not None: return None
        if n.k == "MemberExpr" and n.a.get("n") in ("i_codepoint", "i_utf16"): return "c" if n.a["n"] == "i_codepoint" else "u"
        if n.k in CALLS and n.k != "CXXConstructExpr":
            q = callee(n) or ""; b = q.rsplit("::", 1)[-1]
            if b.startswith("u_countChar32"): return "c"
            if q.startswith("Buffer<") and b in ("getPos", "diffPrevPos", "diffPostPos"): return "c"
            o = obj(n)
            if o is not None and b in LEN:
                t = (o.t.s or "") if o.t is not None else ""
                t = t.replace("const ", "")
                if any(x in t.split("<", 1)[0] + "<" + t.split("<", 1)[-1][:9] for x in USTR) or t.startswith(tuple("std::" + x for x in USTR)): return "u"
                if t.startswith("std::vector<int") and b in ("size",): return "c"
                return None
            g = self.p.fns.get(n.a.get("fn"))
            if g is not None and g.body is not None and g.ret is not None and g.ret.isint and not g.ret.bool: return self.result(g)
            return None
        if n.k == "BinaryOperator" and n.a.get("op") in ("+", "-"):
            a, b = self.of(n.c[0], f, depth + 1), self.of(n.c[1], f, depth + 1)
            return a if b is None else b if a is None or a == b else "mixed"
        if n.k == "ConditionalOperator":
            a, b = self.of(n.c[1], f, depth + 1), self.of(n.c[2], f, depth + 1)
            return a if a == b or b is None else b if a is None else "mixed"
        if n.k == "DeclRefExpr":
            k = (f.key, n.a.get("d"))
            if k in self.memo: return self.memo[k]
            if k in self.busy: return None
            self.busy.add(k)
            s = {self.of(x, f, depth + 1) for x in self.defs(f).get(n.a.get("d"), ())} - {None}
            self.busy.discard(k)
            r = self.memo[k] = s.pop() if len(s) == 1 else "mixed" if s else None
            return r
        return None
    def result(self, g):
        k = (g.key, "ret")
        if k in self.memo: return self.memo[k]
        if k in self.busy: return None
        self.busy.add(k)
        s = {self.of(x.c[0], g) for x in fnodes(g) if x.k == "ReturnStmt" and x.c and x.c[0] is not None} - {None}
        self.busy.discard(k)
        r = self.memo[k] = s.pop() if len(s) == 1 else None
        return r
def counts(prog, res, D, f, n):
    """positions in the input buffer are counted in characters, positions in a string in UTF-16 units"""
    q = callee(n) or ""; b = q.rsplit("::", 1)[-1]; a = cargs(n)
    if q.startswith("Buffer<") and b in ("back", "setPos") and a:
        res.count("positions_in_the_input"); d = D.of(a[0], f)
        if d == "u": res.violation("count|%s|%s" % (f.qn, b), "%s: a number of UTF-16 units is used as a number of characters of the input: characters above U+FFFF count twice" % where(n))
    o = obj(n)
    if o is not None and o.t is not None and b in ("substr", "erase", "resize", "at") and any(x in (o.t.s or "")[:40] for x in USTR) or n.k == "CXXOperatorCallExpr" and n.a.get("op") == "[]" and a and a[0].t is not None and any(x in (a[0].t.s or "")[:40] for x in USTR):
        res.count("positions_in_strings")
        for x in (a[1:] if n.k == "CXXOperatorCallExpr" else a):
            if x.t is not None and x.t.isint and D.of(x, f) == "c": res.violation("count|%s|%s" % (f.qn, b), "%s: a number of characters is used as a number of UTF-16 units of a string: characters above U+FFFF are cut" % where(n))
def constparam(prog, n, f):
    """a parameter that every caller gives a small constant"""
    x = strip(n)
    if x is None or x.k != "DeclRefExpr": return False
    i = next((i for i, q in enumerate(f.params) if q.d == x.a.get("d")), None)
    if i is None: return False
    sites = [m for g in prog.fns.values() if g.body is not None for m in fnodes(g) if m.k in CALLS and m.a.get("fn") == f.key]
    for m in sites:
        a = cargs(m)
        e = a[i] if i < len(a) else f.params[i].init
        c = const_of(e) if e is not None else None
        if c is None and e is not None and e.a.get("cv") is not None: c = int(e.a["cv"])
        if (c is None or not 0 <= c <= 0xFFFF) and not (e is not None and unitval(e)): return False
    return bool(sites)
def plainchar(n):
    n = strip(n)
    return n is not None and n.k in ("DeclRefExpr", "MemberExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr", "UnaryOperator", "CallExpr")
def fromunit(n, f, depth=0):
    """True: the value is a single unit of a string (not decoded); None: unknown"""
    n0 = n
    while n is not None and n.k in CASTS + ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and n.c:
        n = n.c[0]
    if n is None or const_of(n0) is not None or n.a.get("cv") is not None: return False
    if n.k == "DeclRefExpr" and not u16(n.t) and cp32(n.t) and depth < 3:
        d = onedef(f).get(n.a.get("d"))
        return fromunit(d, f, depth + 1) if d is not None else False
    if n.k == "DeclRefExpr" and u16(n.t):
        # a local unit variable: loop variable over a string, or initialised from a string
        src = strdecl(f).get(n.a.get("d"))
        return bool(src)
    if n.k in CALLS and u16(n.t):
        q = callee(n) or ""
        return STRT in q or "basic_string_view<char16_t" in q or "operator*" in q
    if n.k == "UnaryOperator" and n.a.get("op") == "*" and u16(n.t): return True
    if n.k == "ArraySubscriptExpr" and u16(n.t): return arr_unit(n, f)
    return False
def arr_unit(n, f): return None
def onedef(f):
    """local variables with a single definition -> the expression"""
    c = getattr(f, "_od", None)
    if c is not None: return c
    defs = {}
    for n in fnodes(f):
        if n.k == "DeclStmt":
            for v in n.a.get("vars", ()):
                if v.init is not None: defs.setdefault(v.d, []).append(v.init)
        elif n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.a.get("op") or "").endswith("=") and n.a.get("op") not in ("==", "!=", "<=", ">="):
            x = strip(n.c[0])
            if x is not None and x.k == "DeclRefExpr": defs.setdefault(x.a.get("d"), []).append(n.c[1] if n.a.get("op") == "=" else None)
        elif n.k == "UnaryOperator" and n.a.get("op") in ("++", "--", "&"):
            x = strip(n.c[0])
            if x is not None and x.k == "DeclRefExpr": defs.setdefault(x.a.get("d"), []).append(None)
        elif n.k in CALLS:
            for a in cargs(n):
                if a is not None and a.k == "DeclRefExpr" and a.a.get("d") is not None: defs.setdefault(a.a["d"], []).append(None)   # bound to a reference
    for p in f.params: defs.setdefault(p.d, []).append(None)
    d = {k: v[0] for k, v in defs.items() if len(v) == 1 and v[0] is not None}
    f._od = d
    return d
def strdecl(f):
    """local variables of unit type that take the units of a string one by one"""
    c = getattr(f, "_ud", None)
    if c is not None: return c
    d = {}
    for n in fnodes(f):
        if n.k == "CXXForRangeStmt":
            v = n.a.get("var"); r = n.a.get("range")
            vv = v.a.get("vars", [None])[0] if v is not None and v.k == "DeclStmt" else v
            if vv is not None and u16(vv.t): d[vv.d] = True
        if n.k == "DeclStmt":
            for v in n.a.get("vars", ()):
                if u16(v.t) and v.init is not None:
                    i = v.init
                    while i.k in CASTS + ("ParenExpr",) and i.c: i = i.c[0]
                    if i.k in CALLS and ("basic_string" in (callee(i) or "")): d[v.d] = True
    try: f._ud = d
    except AttributeError: pass
    return d
def sinks(prog, res, f, n):
    q = callee(n) or ""; b = q.rsplit("::", 1)[-1]; a = cargs(n)
    args = []
    if b in ("push_back", "insert", "emplace_back", "emplace") and q.startswith(("std::vector<int", "std::set<int", "std::list<int", "std::deque<int", "sorted_vector<int")): args = a
    elif q in SINKF: args = a[1:] if n.k == "CXXOperatorCallExpr" else a
    for x in args:
        if x.t is None or not cp32(x.t) and not (x.t.ref and "int" in (x.t.s or "")): continue
        res.count("character_sinks")
        if fromunit(x, f):
            if ascii_only(x, n, f): continue
            res.violation("unit|%s|%s" % (f.qn, b), "%s: one UTF-16 unit of a string is used as a character: characters above U+FFFF are split in two" % where(n))
def ascii_only(x, n, f):
    """the unit was compared with particular characters before, or the string holds digits (printf)"""
    p = n.parent
    u = x
    while u is not None and u.k in CASTS + ("ParenExpr", "MaterializeTemporaryExpr") and u.c: u = u.c[0]
    d = u.a.get("d") if u is not None and u.k == "DeclRefExpr" else None
    while p is not None:
        if p.k in ("IfStmt", "SwitchStmt", "ConditionalOperator") and d is not None:
            for c in p.c:
                if c is None: continue
                for m in c.walk():
                    if m.k == "BinaryOperator" and m.a.get("op") in ("==", "<", "<=", ">", ">=", "!="):
                        for i in (0, 1):
                            y = strip(m.c[i])
                            if y is not None and y.k == "DeclRefExpr" and y.a.get("d") == d: return True
                break
        p = p.parent
    return False
