"""Constant propagation with short strings and short vectors of constants."""
from .prog import CALLS
from .flow import strip, cargs, obj, callee, const_of, strlit
from .cprop import CProp, TOP, issym, isstr_t

def isvec(v): return isinstance(v, tuple) and len(v) == 2 and v[0] == "vec"
def isit(v): return isinstance(v, tuple) and len(v) in (3, 4) and v[0] == "it"      # ("it", vector, index[, path of the container])
def ispr(v): return isinstance(v, tuple) and len(v) == 3 and v[0] == "pr"            # pair of constants
def isel(v): return isinstance(v, tuple) and len(v) == 3 and v[0] == "elem"          # reference to an element: path of the container, index
def it_(v, p, i): return ("it", v, i) if p is None else ("it", v, i, p)
def itn(v, k): return v[:2] + (v[2] + k,) + v[3:]
VECT = ("std::vector<", "std::list<", "std::deque<", "std::set<", "sorted_vector<")

class CVec(CProp):
    maxvec = 6
    def read_global(self, n):
        g = self.p.globals.get(n.a.get("g") or n.a.get("m"))
        if g is not None and g["init"] is not None:
            s = strlit(g["init"])
            if s is not None: return s
            c = const_of(g["init"])
            if c is not None: return c
            v = self.eval(g["init"], self.mk())
            if isinstance(v, (int, str)): return v
        return TOP
    def chr(self, v): return chr(v) if isinstance(v, int) and 0 < v < 0x110000 else v if isinstance(v, str) else None
    def project(self, v, name, st):
        if isel(v):
            w = self.env(st).get(v[1], TOP)
            v = w[1][v[2]] if isvec(w) and v[2] < len(w[1]) else TOP
        if ispr(v): return v[1] if name == "first" else v[2]
        return TOP
    def eval(self, n, st):
        v = super().eval(n, st)
        if v is TOP and n is not None and n.k == "MemberExpr" and n.c and n.a.get("n") in ("first", "second"):
            return self.project(self.eval(n.c[0], st), n.a["n"], st)
        if isel(v):
            w = self.env(st).get(v[1], TOP)
            return w[1][v[2]] if isvec(w) and v[2] < len(w[1]) else TOP
        if v is TOP and n is not None and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXScalarValueInitExpr", "InitListExpr") and n.t is not None and (n.t.s or "").replace("const ", "").startswith(VECT) and not [x for x in n.c if x is not None and x.k != "CXXDefaultArgExpr"]:
            return ("vec", ())
        if v is TOP and n is not None and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 2 and n.t is not None and (n.t.s or "").replace("const ", "").startswith(("std::pair<", "pair<")):
            x, y = self.eval(n.c[0], st), self.eval(n.c[1], st)
            if isinstance(x, (int, str)) and isinstance(y, (int, str)): return ("pr", x, y)
        return v
    def bindref(self, v, init, st):
        if v.t is not None and v.t.ref:
            i = strip(init)
            if i is not None and i.k == "CXXOperatorCallExpr" and i.a.get("op") == "*":
                x = self.eval(i.c[1], st)
                if isit(x) and len(x) == 4: return ("elem", x[3], x[2])
        return super().bindref(v, init, st)
    def _path(self, n, st, env):
        m = strip(n)
        if m is not None and m.k == "MemberExpr" and m.c and m.a.get("n") in ("first", "second"):
            v = self.eval(m.c[0], st)          # a component that is itself a container lives at a path of its own
            if ispr(v):
                x = v[1 if m.a["n"] == "first" else 2]
                if isinstance(x, tuple) and x and x[0] == "ref": return x[1]
        return super()._path(n, st, env)
    def setelem(self, target, st, fn):
        """x.first / x.second where x refers to an element of a known vector: apply fn to it"""
        t = strip(target)
        if t is None or t.k != "MemberExpr" or t.a.get("n") not in ("first", "second") or not t.c: return None
        p = self._path(t.c[0], st, self.env(st)); e = self.env(st).get(p, TOP) if p is not None else TOP
        if not isel(e): return None
        w = self.env(st).get(e[1], TOP)
        if not isvec(w) or e[2] >= len(w[1]) or not ispr(w[1][e[2]]): return None
        x = w[1][e[2]]; i = 1 if t.a["n"] == "first" else 2
        y = fn(x[i]); el = list(x); el[i] = y
        l = list(w[1]); l[e[2]] = tuple(el) if isinstance(y, (int, str)) else ("sym", "elem")
        return self.set(st, e[1], ("vec", tuple(l)))
    def declare(self, fl, f, n, v, st):
        st2 = super().declare(fl, f, n, v, st)
        if v.t is not None and not v.t.ref and not v.t.ptr and self.env(st2).get((v.d,), TOP) is TOP:
            t = v.t.s or ""
            i = strip(v.init) if v.init is not None else None
            if t.replace("const ", "").startswith(VECT) and (i is None or i.k == "CXXConstructExpr" and not [x for x in i.c if x.k != "CXXDefaultArgExpr"] or i.k == "InitListExpr" and not i.c):
                return self.set(st2, (v.d,), ("vec", ()))
            if isstr_t(t) and (i is None or i.k == "CXXConstructExpr" and not [x for x in i.c if x.k != "CXXDefaultArgExpr"]):
                return self.set(st2, (v.d,), "")
        return st2
    def std(self, fl, f, n, qn, st):
        a = cargs(n); o = obj(n); b = qn.rsplit("::", 1)[-1]
        libcall = n.a.get("fn") not in self.p.fns or qn.startswith("operator")
        if n.k == "CXXOperatorCallExpr" and libcall:
            op = n.a.get("op")
            if op in ("==", "!=", "*", "++", "--", "->", "+=", "+", "-", "[]"):
                v = [self.eval(x, st) for x in a]
                if op in ("==", "!=") and len(v) == 2 and isit(v[0]) and isit(v[1]): return [(int((v[0][1:3] == v[1][1:3]) == (op == "==")), st)]
                if op in ("++", "--") and isit(v[0]):
                    p = self.path(a[0], st); nv = itn(v[0], 1 if op == "++" else -1)
                    return [(nv if len(v) == 1 else v[0], self.set(st, p, nv) if p is not None else st)]
                if op in ("*", "->") and isit(v[0]):
                    e = v[0][1]
                    if isvec(e) and v[0][2] < len(e[1]): return [(e[1][v[0][2]], st)]
                    return [(TOP, st)]
                if op == "[]" and isvec(v[0]) and isinstance(v[1], int):
                    e = v[0][1]
                    return [(e[v[1]] if 0 <= v[1] < len(e) else TOP, st)]
                if op == "[]" and isinstance(v[0], str) and isinstance(v[1], int):
                    return [(ord(v[0][v[1]]) if 0 <= v[1] < len(v[0]) else TOP, st)]
                if op in ("+", "-") and len(v) == 2 and isit(v[0]) and isinstance(v[1], int): return [(itn(v[0], v[1] if op == "+" else -v[1]), st)]
                if op == "+" and len(v) == 2:
                    x, y = self.chr(v[0]), self.chr(v[1])
                    if x is not None and y is not None: return [(x + y, st)]
                if op == "+=" and len(v) == 2 and self.setelem(a[0], st, lambda x: x) is not None:
                    y = self.chr(v[1])
                    return [(TOP, self.setelem(a[0], st, lambda x: x + y if isinstance(x, str) and y is not None else TOP))]
                if op == "+=" and len(v) == 2:
                    p = self.path(a[0], st); y = self.chr(v[1])
                    self.appended(fl, f, n, a[0], v[1], st)
                    nv = v[0] + y if isinstance(v[0], str) and y is not None and len(v[0]) < 80 else TOP
                    return [(nv if p is None else ("ref", p), self.set(st, p, nv) if p is not None else st)]
        if o is not None and libcall:
            v = self.eval(o, st); p = self.path(o, st)
            if b in ("push_back", "emplace_back") and a:
                x = self.eval(a[0], st); self.appended(fl, f, n, o, x, st)
                if isvec(v) and p is not None:
                    nv = ("vec", v[1] + (x if x is not TOP else ("sym", "elem"),)) if len(v[1]) < self.maxvec else TOP
                    return [(TOP, self.set(st, p, nv))]
                if isinstance(v, str) and p is not None:
                    y = self.chr(x); return [(TOP, self.set(st, p, v + y if y is not None else TOP))]
            if b in ("append", "push_back") and len(a) == 1 and self.setelem(o, st, lambda x: x) is not None:
                y = self.chr(self.eval(a[0], st))
                return [(TOP, self.setelem(o, st, lambda x: x + y if isinstance(x, str) and y is not None else TOP))]
            if b == "append" and len(a) >= 1 and isinstance(v, str) and p is not None:
                x = self.eval(a[0], st); self.appended(fl, f, n, o, x, st)
                return [(("ref", p), self.set(st, p, v + x if isinstance(x, str) and len(a) == 1 else TOP))]
            if b == "append" and a: self.appended(fl, f, n, o, self.eval(a[0], st), st)
            if isvec(v):
                if b in ("begin", "cbegin"): return [(it_(v, p, 0), st)]
                if b in ("end", "cend"): return [(it_(v, p, len(v[1])), st)]
                if b == "size": return [(len(v[1]), st)]
                if b == "empty": return [(int(not v[1]), st)]
                if b in ("back", "front") and v[1]: return [(v[1][-1 if b == "back" else 0], st)]
                if b == "clear" and p is not None: return [(TOP, self.set(st, p, ("vec", ())))]
                if b == "insert" and p is not None and len(a) == 3:
                    w, x, y = (self.eval(z, st) for z in a)
                    ok = isit(w) and isit(x) and isit(y) and isvec(x[1]) and x[1] == y[1]
                    nv = v[1][:w[2]] + x[1][1][x[2]:y[2]] + v[1][w[2]:] if ok else None
                    return [(TOP, self.set(st, p, ("vec", nv) if ok and len(nv) <= 4 * self.maxvec else TOP))]
                if b in ("insert", "emplace") and p is not None and len(a) == 2:
                    w, x = (self.eval(z, st) for z in a)
                    ok = isit(w) and (w[1] == v or w[1] == p or isvec(w[1])) and 0 <= w[2] <= len(v[1]) and x is not TOP and len(v[1]) < self.maxvec
                    return [(TOP, self.set(st, p, ("vec", v[1][:w[2]] + (x,) + v[1][w[2]:]) if ok else TOP))]
                if b == "pop_back" and p is not None and v[1]: return [(TOP, self.set(st, p, ("vec", v[1][:-1])))]
                if b == "assign" and p is not None and len(a) == 2:
                    x, y = (self.eval(z, st) for z in a)
                    if isit(x) and isit(y) and isvec(x[1]) and x[1] == y[1]: return [(TOP, self.set(st, p, ("vec", x[1][1][x[2]:y[2]])))]
                if b == "at" and a:
                    i = self.eval(a[0], st)
                    if isinstance(i, int) and 0 <= i < len(v[1]): return [(v[1][i], st)]
                if b in ("insert", "emplace", "erase", "pop_back", "resize", "assign", "swap") and p is not None: return [(TOP, self.set(st, p, TOP))]
            if isinstance(v, str):
                if b in ("find", "contains"):
                    y = [self.eval(z, st) for z in a if z.k != "CXXDefaultArgExpr"]
                    x = self.chr(y[0]) if y else None
                    if x is not None and (len(y) == 1 or len(y) == 2 and isinstance(y[1], int)):
                        i = v.find(x, *y[1:])
                        return [((i if i >= 0 else 0xFFFFFFFFFFFFFFFF) if b == "find" else int(i >= 0), st)]
                if b == "insert" and p is not None and len(a) in (2, 3):
                    x = [self.eval(y, st) for y in a]
                    i = x[0][2] if isit(x[0]) else x[0]
                    y = self.chr(x[1]) if len(x) == 2 else self.chr(x[2]) * x[1] if isinstance(x[1], int) and self.chr(x[2]) is not None else None
                    ok = isinstance(i, int) and 0 <= i <= len(v) and y is not None
                    return [(("it", ("vec", tuple(map(ord, v[:i] + y + v[i:]))), i) if ok else TOP, self.set(st, p, v[:i] + y + v[i:] if ok else TOP))]
                if b == "find_first_of" and a:
                    x = [self.eval(y, st) for y in a if y.k != "CXXDefaultArgExpr"]
                    if isinstance(x[0], str) and (len(x) == 1 or isinstance(x[1], int)):
                        k = next((k for k in range(x[1] if len(x) > 1 else 0, len(v)) if v[k] in x[0]), None)
                        return [(k if k is not None else 0xFFFFFFFFFFFFFFFF, st)]
                if b == "substr":
                    x = [self.eval(y, st) for y in a if y.k != "CXXDefaultArgExpr"]
                    if all(isinstance(y, int) for y in x): return [(v[x[0]:x[0] + x[1]] if len(x) == 2 else v[x[0]:], st)]
                if b in ("begin", "cbegin"): return [(("it", ("vec", tuple(map(ord, v))), 0), st)]
                if b in ("end", "cend"): return [(("it", ("vec", tuple(map(ord, v))), len(v)), st)]
                if b in ("at", "operator[]") and a:
                    i = self.eval(a[0], st)
                    if isinstance(i, int) and 0 <= i < len(v): return [(ord(v[i]), st)]
                if b == "compare" and a:
                    x = self.eval(a[0], st)
                    if isinstance(x, str): return [((v > x) - (v < x), st)]
        if qn in ("std::make_pair",) and len(a) == 2:
            x, y = self.eval(a[0], st), self.eval(a[1], st)
            return [(("pr", x, y) if isinstance(x, (int, str)) and isinstance(y, (int, str)) else TOP, st)]
        if qn in ("std::begin", "std::end", "std::cbegin", "std::cend") and a:
            v = self.eval(a[0], st)
            if isvec(v): return [(it_(v, self.path(a[0], st), 0 if "begin" in b else len(v[1])), st)]
        return super().std(fl, f, n, qn, st)
    def appended(self, fl, f, n, target, v, st):
        """hook: v was appended to a string or vector"""
