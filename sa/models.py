"""Models of the external byte-stream / container primitives for the bit interpreter."""
from .bitai import BV, Term, Loc, Ptr, const, Outcome, Interp, eqv, _T
from .prog import AnalysisBroken

class Underflow(Exception):
    def __init__(self, node): self.node = node

def args(e):
    return e.c[1:] if e.k != "CXXConstructExpr" else e.c

def recv(I, e):
    """receiver location of a member call"""
    if e.k == "CXXOperatorCallExpr":
        b = I.eval(e.c[1])
    else:
        me = e.c[0]
        b = I.eval(me.c[0]) if me.c else None
        if me.a.get("ar") and isinstance(b, Loc): b = I.read(b)
    if isinstance(b, Ptr): b = b.loc
    return b

def obytes(I, v, n):
    """n little-endian bytes of the scalar behind pointer v"""
    if not isinstance(v, Ptr): raise AnalysisBroken("byte source is not a tracked object")
    out = []
    k = 0
    base = I.mem.get((v.loc.key, v.off)) if ((v.loc.key, v.off) in I.mem) else None
    if base is None:
        x = I.read(v.loc)
        if not isinstance(x, BV): raise AnalysisBroken("bytes of %r" % (x,))
        if x.w < 8 * n: raise AnalysisBroken("reads past object")
        return [BV(8, False, x.b[8*i:8*i+8]) for i in range(n)]
    for i in range(n):
        x = I.read(Loc((v.loc.key, v.off + i)))
        if not isinstance(x, BV): raise AnalysisBroken("bytes of %r" % (x,))
        out.append(BV(8, False, x.b[:8]))
    return out

def take(I, n, node):
    out = []
    for _ in range(n):
        if not I.stream: raise Underflow(node)
        out.append(I.norm(I.stream.pop(0)))
    return out

def store_bytes(I, v, bs, elemw=None):
    if not isinstance(v, Ptr): raise AnalysisBroken("byte destination is not a tracked object")
    key = (v.loc.key, v.off)
    if key in I.mem or elemw == 8 and len(bs) > 1 or v.off:
        for i, b in enumerate(bs): I.mem[(v.loc.key, v.off + i)] = BV(8, False, b.b)
    else:
        t = I.loctype.get(v.loc.key)
        w = 8 * len(bs)
        I.mem[v.loc.key] = BV(w, False, [x for b in bs for x in b.b])

def m_fwrite(I, e):
    a = args(e)
    p = I.rval(a[0]); n = I.cval(I.rval(a[1])) * I.cval(I.rval(a[2])); I.rval(a[3])
    I.out.extend(obytes(I, p, n))
    return I.rval(a[2])
def m_fputc(I, e):
    a = args(e); v = I.rval(a[0])
    I.out.append(BV(8, False, v.b[:8]))
    return I.conv(BV(8, False, v.b[:8]), _T(32, True))
def m_fread(I, e):
    a = args(e)
    p = I.rval(a[0]); n = I.cval(I.rval(a[1])) * I.cval(I.rval(a[2]))
    store_bytes(I, p, take(I, n, e))
    return I.rval(a[2])
def m_fgetc(I, e):
    b = take(I, 1, e)[0]
    return BV(32, True, list(b.b) + [0] * 24)
def m_owrite(I, e):
    if e.k != "CXXMemberCallExpr": return NotImplemented
    a = args(e)
    if len(a) != 2: return NotImplemented
    p = I.rval(a[0]); n = I.cval(I.rval(a[1]))
    I.out.extend(obytes(I, p, n))
    return recv(I, e)
def m_oput(I, e):
    v = I.rval(args(e)[0]); I.out.append(BV(8, False, v.b[:8])); return recv(I, e)
def m_iread(I, e):
    if e.k != "CXXMemberCallExpr": return NotImplemented
    a = args(e)
    if len(a) != 2: return NotImplemented
    p = I.rval(a[0]); n = I.cval(I.rval(a[1]))
    store_bytes(I, p, take(I, n, e))
    return recv(I, e)
def m_iget(I, e):
    if len(args(e)) == 0: return m_fgetc(I, e)
    l = I.eval(args(e)[0]); b = take(I, 1, e)[0]; I.write(l, b); return recv(I, e)
def m_good(v):
    def f(I, e): return const(v, 8)
    return f
def m_skip(I, e): return Term("skip")
def m_bswap(I, e):
    l = I.eval(args(e)[0]); v = I.read(l)
    bs = [v.b[8*i:8*i+8] for i in range(v.w // 8)]
    I.write(l, BV(v.w, v.sg, [x for b in reversed(bs) for x in b])); return None
def m_bswapv(I, e):
    v = I.rval(args(e)[0])
    bs = [v.b[8*i:8*i+8] for i in range(v.w // 8)]
    return BV(v.w, v.sg, [x for b in reversed(bs) for x in b])

OSTREAM = "std::basic_ostream<char, std::char_traits<char>>"
ISTREAM = "std::basic_istream<char, std::char_traits<char>>"

def _lastname(n): return n.rsplit("::", 1)[-1]

BYTE = {}
for _n in ("fwrite", "fwrite_unlocked"): BYTE[_n] = m_fwrite
for _n in ("fputc", "putc", "fputc_unlocked", "putc_unlocked"): BYTE[_n] = m_fputc
for _n in ("fread", "fread_unlocked"): BYTE[_n] = m_fread
for _n in ("fgetc", "getc", "fgetc_unlocked", "getc_unlocked"): BYTE[_n] = m_fgetc
def _bystream(e):
    q = e.a.get("qn") or ""
    return q.startswith("std::basic_ostream") or q.startswith("std::ostream"), q.startswith("std::basic_istream") or q.startswith("std::istream"), q
def m_write(I, e):
    o, i, q = _bystream(e)
    return m_owrite(I, e) if o else NotImplemented
def m_put(I, e):
    o, i, q = _bystream(e)
    return m_oput(I, e) if o else NotImplemented
def m_read(I, e):
    o, i, q = _bystream(e)
    return m_iread(I, e) if i else NotImplemented
def m_get(I, e):
    o, i, q = _bystream(e)
    return m_iget(I, e) if i else NotImplemented
def m_streamop(I, e):
    # diagnostics: std::cerr << ...   (no effect on the tracked state)
    return Term("ostream")
def m_not(I, e):
    if "basic_ios" in (e.a.get("qn") or ""): return const(0, 8)
    return NotImplemented
BYTE.update({"write": m_write, "put": m_put, "read": m_read, "get": m_get, "operator<<": m_streamop,
             "operator!": m_not, "operator bool": m_good(1), "fail": m_good(0), "good": m_good(1), "bad": m_good(0),
             "native_to_big_inplace": m_bswap, "big_to_native_inplace": m_bswap, "endian_reverse_inplace": m_bswap,
             "native_to_big": m_bswapv, "big_to_native": m_bswapv, "endian_reverse": m_bswapv,
             "ferror": m_good(0), "feof": m_good(0), "ferror_unlocked": m_good(0), "feof_unlocked": m_good(0)})

# ---- sequence containers (basic_string<char16_t>, string_view, vector): a Python list
def seqof(I, l):
    if isinstance(l, Loc):
        v = I.mem.get(l.key)
        while isinstance(v, Loc): l = v; v = I.mem.get(l.key)
        if isinstance(v, list): return v
        if v is None or isinstance(v, Term) and v.op in ("undef",):
            I.mem[l.key] = []; return I.mem[l.key]
        raise AnalysisBroken("not a sequence: %r" % (v,))
    if isinstance(l, list): return l
    raise AnalysisBroken("not a sequence: %r" % (l,))
def _isseq(e):
    q = e.a.get("qn") or ""
    return q.startswith("std::basic_string") or q.startswith("std::vector") or q.startswith("std::__cxx11::basic_string")
def m_push(I, e):
    if not _isseq(e): return NotImplemented
    if e.k == "CXXOperatorCallExpr": l = I.eval(e.c[1]); v = I.rval(e.c[2]); at = e.c[2].t
    else: l = recv(I, e); v = I.rval(args(e)[0]); at = args(e)[0].t
    s = seqof(I, l)
    if isinstance(v, list): s.extend(v)
    else: s.append(v)
    return l
def m_size(I, e):
    if not _isseq(e): return NotImplemented
    return const(len(seqof(I, recv(I, e))), 64)
def m_empty(I, e):
    if not _isseq(e): return NotImplemented
    return const(0 if seqof(I, recv(I, e)) else 1, 8)
def m_index(I, e):
    if not _isseq(e): return NotImplemented
    if e.k == "CXXOperatorCallExpr": l = I.eval(e.c[1]); i = I.rval(e.c[2])
    else: l = recv(I, e); i = I.rval(args(e)[0])
    s = seqof(I, l); n = I.cval(i)
    if n < 0 or n >= len(s): raise Outcome("oob", e)
    return s[n]
def m_data(I, e):
    if not _isseq(e): return NotImplemented
    return Term("data", _Box(seqof(I, recv(I, e))))
class _Box:
    def __init__(self, v): self.v = v
    def __repr__(self): return "box%d" % id(self.v)
def m_noop(I, e):
    if not _isseq(e): return NotImplemented
    return None
def m_clear(I, e):
    if not _isseq(e): return NotImplemented
    seqof(I, recv(I, e)).clear(); return None
SEQ = {"push_back": m_push, "operator+=": m_push, "append": m_push, "size": m_size, "length": m_size, "empty": m_empty,
       "operator[]": m_index, "at": m_index, "reserve": m_noop, "shrink_to_fit": m_noop, "clear": m_clear, "data": m_data, "emplace_back": m_push}

class Codec(Interp):
    def __init__(self, prog, cube, choices, models=None, **kw):
        calls = dict(BYTE); calls.update(SEQ)
        if models: calls.update(models)
        super().__init__(prog, cube, choices, {"calls": calls}, **kw)
        self.out = []; self.stream = []; self.loctype = {}; self.memo = {}
    def s_DeclStmt(self, s):
        super().s_DeclStmt(s)
        for v in s.a["vars"]:
            if v.t.rec and ("basic_string" in v.t.rec or "vector" in v.t.rec):
                l = self.frames[-1]["vars"][v.d]
                if not isinstance(self.mem.get(l.key), list) and not v.t.ref: self.mem[l.key] = []
    def cmp(self, op, a, b):
        if not (isinstance(a, BV) and isinstance(b, BV)):
            k = (op, repr(a), repr(b))
            if k not in self.memo: self.memo[k] = super().cmp(op, a, b)
            return self.memo[k]
        return super().cmp(op, a, b)
    def e_CXXConstructExpr(self, e):
        if e.t.rec and ("basic_string" in e.t.rec or "vector" in e.t.rec):
            if not e.c or e.c[0].k == "CXXDefaultArgExpr": return []
            v = self.eval(e.c[0])
            if isinstance(v, Loc): v = self.mem.get(v.key)
            return list(v) if isinstance(v, list) else v
        if len(e.c) == 1 and e.a.get("cc"): return self.eval(e.c[0])
        return self.e_call(e)
    def read(self, loc):
        if isinstance(loc, Loc) and isinstance(self.mem.get(loc.key), list): return self.mem[loc.key]
        return super().read(loc)
    def s_CXXForRangeStmt(self, s):
        rng = None
        v = s.a["range"].a["vars"][0]
        x = self.eval(v.init)
        if isinstance(x, Loc): x = self.read(x)
        if not isinstance(x, list): raise AnalysisBroken("range-for over untracked sequence at line %s" % s.line)
        var = s.a["var"].a["vars"][0]
        from .bitai import _Break, _Cont
        for it in list(x):
            fr = self.frames[-1]
            l = Loc((fr["id"], var.n, var.d)); fr["vars"][var.d] = l
            self.mem[l.key] = self.conv(it, var.t) if isinstance(it, BV) and var.t.isint else it
            try: self.stmt(s.body)
            except _Break: break
            except _Cont: pass
    def e_ArraySubscriptExpr(self, e):
        b = self.rvalp(e.c[0])
        if isinstance(b, Term) and b.op == "data":
            i = self.cval(self.rval(e.c[1])); s = b.args[0].v
            if i < 0 or i >= len(s): raise Outcome("oob", e)
            return s[i]
        return super().e_ArraySubscriptExpr(e)
