"""Resolved-program model: builds the libTooling exporter, exports every translation
unit of /repo/lttoolbox from the current working tree and loads it."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LTX_REPO", "/repo")
TOOLSRC = os.path.join(VERIF, "tool", "ltx.cc")
INST = os.path.join(VERIF, "tool", "inst.cc")

class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable tree...)."""

FLAGS = ["-std=c++2b", "-DHAVE_DECL_FGETC_UNLOCKED", "-DHAVE_DECL_FMEMOPEN",
         "-DHAVE_DECL_FPUTC_UNLOCKED", "-DHAVE_DECL_FPUTS_UNLOCKED",
         "-DHAVE_DECL_FREAD_UNLOCKED", "-DHAVE_DECL_FWRITE_UNLOCKED",
         "-DHAVE_GETOPT_LONG", '-DPACKAGE_VERSION="3.8.4"', "-D_GNU_SOURCE",
         "-D_POSIX_C_SOURCE=200112", "-DNDEBUG", "-w",
         "-I/usr/include/libxml2", "-I/usr/include/utf8cpp",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

def _builddir():
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close(); os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "ltx-build-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d

def tool():
    """Build (once) the exporter from /verif/tool/ltx.cc."""
    h = hashlib.sha256(open(TOOLSRC, "rb").read()).hexdigest()[:16]
    exe = os.path.join(_builddir(), "ltx-" + h)
    if os.path.exists(exe):
        return exe
    cxx = shutil.which("clang++-18") or shutil.which("clang++") or shutil.which("g++")
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = [cxx, "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           "-I/usr/lib/llvm-18/include", TOOLSRC, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build exporter:\n" + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe

class Type:
    __slots__ = ("s", "w", "sg", "bool", "enum", "fl", "ptr", "alen", "elem", "rec", "ref", "const")
    def __init__(self, d):
        self.s = d["s"]; self.w = d.get("w"); self.sg = d.get("sg"); self.bool = d.get("bool", False)
        self.enum = d.get("enum", False); self.fl = d.get("fl"); self.ptr = d.get("ptr")
        self.alen = d.get("alen"); self.elem = d.get("elem"); self.rec = d.get("rec")
        self.ref = d.get("ref", 0); self.const = d.get("const", False)
    @property
    def isint(self): return self.w is not None
    def __repr__(self): return "T<%s>" % self.s

class Node:
    __slots__ = ("id", "k", "t", "line", "c", "a", "parent", "fn")
    def __init__(self): self.a = {}; self.c = []; self.parent = None
    def __getattr__(self, n):        # only called for missing attributes
        try: return self.a[n]
        except KeyError: return None
    def __repr__(self):
        return "<%s#%d@%s %s>" % (self.k, self.id, self.line, self.a.get("n") or self.a.get("qn") or self.a.get("op") or self.a.get("v") or "")
    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.c))

# attribute children that are statements/expressions, in evaluation order
SUBATTR = ("init", "range", "begin", "end", "cvar", "cond", "inc", "var", "sub", "then", "else", "body")

class Var:
    __slots__ = ("d", "n", "t", "init", "bind", "static", "tls", "fn")

class Fn:
    def __init__(self): pass
    def __repr__(self): return "Fn(%s)" % self.qn
    @property
    def loc(self): return "lttoolbox/%s:%d" % (self.file, self.line)

class Program:
    def __init__(self):
        self.fns = {}; self.records = {}; self.enums = {}; self.globals = {}
        self.byqn = {}; self.units = 0; self.types = {}
        self._callers = None

    # ---- loading
    def _type(self, tab, i):
        d = tab[i]
        t = self.types.get(d["s"])
        if t is None:
            t = self.types[d["s"]] = Type(d)
        elif t.w is None and d.get("w") is not None or (t.rec is None and d.get("rec")):
            t.__init__(d)
        return t

    def load(self, path):
        d = json.load(open(path))
        tab = d["types"]
        self.units += 1
        unit = os.path.basename(path)
        remap = {}                      # same-named functions of different files (main, file-local helpers)
        for j in d["functions"]:
            if j["key"] in self.fns and self.fns[j["key"]].file != j["file"]:
                remap[j["key"]] = j["key"] + "@" + j["file"]
        def mkvar(v, fn):
            x = Var(); x.d = (unit, v["d"]); x.n = v["n"]; x.t = self._type(tab, v["t"])
            x.static = v.get("static", False); x.tls = v.get("tls", False); x.fn = fn
            x.init = mk(v["init"], fn) if v.get("init") else None
            x.bind = []
            for b in v.get("bind", []):
                y = Var(); y.d = (unit, b["d"]); y.n = b["n"]; y.t = self._type(tab, b["t"]); y.fn = fn
                y.init = mk(b["init"], fn) if b.get("init") else None; y.bind = (unit, b["hv"]) if "hv" in b else None; y.static = False
                x.bind.append(y)
            return x
        def mk(j, fn):
            if j is None: return None
            n = Node(); n.id = j["i"]; n.k = j["k"]; n.line = j.get("l"); n.fn = fn
            n.t = self._type(tab, j["t"]) if "t" in j else None
            for key, val in j.items():
                if key in ("i", "k", "l", "t", "c"): continue
                if key == "vars":
                    vs = [mkvar(v, fn) for v in val]
                    n.a["vars"] = vs
                    for v in vs:
                        if v.init is not None: v.init.parent = n; n.c.append(v.init)
                        for b in v.bind:
                            if b.init is not None: b.init.parent = n; n.c.append(b.init)
                elif key == "caps":
                    cs = []
                    for c in val:
                        c = dict(c)
                        if "d" in c: c["d"] = (unit, c["d"])
                        if "t" in c: c["t"] = self._type(tab, c["t"])
                        if "init" in c: c["init"] = mk(c["init"], fn); c["init"].parent = n; n.c.append(c["init"])
                        cs.append(c)
                    n.a["caps"] = cs
                elif key in SUBATTR:
                    k = mk(val, fn)
                    n.a[key] = k
                elif key in ("ct", "clt", "at"):
                    n.a[key] = self._type(tab, val)
                elif key == "d":
                    n.a["d"] = (unit, val)
                elif key == "fn":
                    n.a["fn"] = remap.get(val, val)
                else:
                    n.a[key] = val
            for key in SUBATTR:
                k = n.a.get(key)
                if k is not None: k.parent = n; n.c.append(k)
            for kid in j.get("c", ()):
                k = mk(kid, fn)
                if k is None:
                    continue
                k.parent = n; n.c.append(k)
            if fn is not None: fn.nodes[n.id] = n
            return n
        for j in d["functions"]:
            key = remap.get(j["key"], j["key"])
            if key in self.fns: continue
            f = Fn(); f.key = key; f.qn = j["qn"]; f.n = j["n"]; f.file = j["file"]; f.line = j["line"]
            f.eline = j.get("eline"); f.ret = self._type(tab, j["ret"]); f.dk = j["dk"]; f.cls = j.get("cls")
            f.flags = {k: j[k] for k in ("cm", "sm", "vm", "ca", "ma", "cc", "mc", "def", "implicit", "inst", "pub") if k in j}
            f.unit = unit; f.nodes = {}
            f.params = []
            for p in j["params"]:
                x = Var(); x.d = (unit, p["d"]); x.n = p["n"]; x.t = self._type(tab, p["t"]); x.fn = f; x.bind = []; x.static = False
                x.init = mk(p["def"], f) if p.get("def") else None
                f.params.append(x)
            f.inits = []
            for i in j.get("inits", ()):
                i = dict(i)
                if "e" in i: i["e"] = mk(i["e"], f)
                if "base" in i: i["base"] = self._type(tab, i["base"])
                f.inits.append(i)
            f.body = mk(j["body"], f)
            f.cfgj = j.get("cfg")
            self.fns[f.key] = f
            self.byqn.setdefault(f.qn, []).append(f)
        for g in d["globals"]:
            if g["qn"] in self.globals and self.globals[g["qn"]]["init"] is not None: continue
            self.globals[g["qn"]] = {"qn": g["qn"], "file": g["file"], "line": g["line"],
                                     "t": self._type(tab, g["t"]), "init": mk(g.get("init"), None) if g.get("init") else None}
        for e in d["enums"]:
            self.enums[e["qn"]] = [(v["n"], int(v["v"])) for v in e["v"]]
        for r in d["records"]:
            if r["qn"] in self.records: continue
            r = dict(r)
            r["bases"] = [self._type(tab, b) for b in r.get("bases", ())]
            fl = []
            for x in r["fields"]:
                x = dict(x); x["t"] = self._type(tab, x["t"]); x["init"] = mk(x["init"], None) if x.get("init") else None
                fl.append(x)
            r["fields"] = fl; r["t"] = self._type(tab, r["t"])
            self.records[r["qn"]] = r

    # ---- queries
    def fn(self, qn, npar=None, pred=None, must=True):
        """Unique function by qualified name (optionally by arity / predicate)."""
        c = [f for f in self.byqn.get(qn, []) if (npar is None or len(f.params) == npar) and (pred is None or pred(f))]
        if len(c) == 1: return c[0]
        if not c and not must: return None
        raise AnalysisBroken("anchor %s%s: %d candidates" % (qn, "" if npar is None else "/%d" % npar, len(c)))
    def fnall(self, qn): return list(self.byqn.get(qn, []))
    def callees(self, f):
        for n in fnodes(f):
            if n.fn and False: pass
            key = n.a.get("fn")
            if key and n.k in CALLS: yield n, self.fns.get(key)
    def callers(self):
        if self._callers is None:
            m = {}
            for f in self.fns.values():
                for n in fnodes(f):
                    if n.k in CALLS and n.a.get("fn"):
                        m.setdefault(n.a["fn"], []).append((f, n))
            self._callers = m
        return self._callers
    def reach(self, roots, lambdas=True):
        """Functions reachable from roots through resolved calls (and lambdas created)."""
        seen = {}; st = list(roots)
        for r in roots: seen[r.key] = r
        while st:
            f = st.pop()
            for n in fnodes(f):
                if n.k in CALLS or (lambdas and n.k == "LambdaExpr") or (n.k == "DeclRefExpr" and n.a.get("fn")):
                    g = self.fns.get(n.a.get("fn"))
                    if g is not None and g.key not in seen:
                        seen[g.key] = g; st.append(g)
        return seen

CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral"}

def fnodes(f):
    """All AST nodes of a function (initialisers and body)."""
    for i in f.inits:
        if i.get("e") is not None: yield from i["e"].walk()
    if f.body is not None: yield from f.body.walk()

def where(n, f=None):
    f = f or n.fn
    return "lttoolbox/%s:%s (%s)" % (f.file, n.line, f.qn) if f is not None else "line %s" % n.line

def sources():
    s = sorted(glob.glob(os.path.join(REPO, "lttoolbox", "*.cc")))
    return [x for x in s if os.path.basename(x) != "check-cstdint.cc"]

def load_program(extra=()):
    """Export + load the current working tree. extra: list of other files (self-test sources)."""
    exe = tool()
    src = sources()
    if len(src) < 30: raise AnalysisBroken("only %d sources found" % len(src))
    h = hashlib.sha256(open(TOOLSRC, "rb").read())
    h.update(REPO.encode()); h.update(open(INST, "rb").read())
    for p in sorted(glob.glob(os.path.join(REPO, "lttoolbox", "*"))):
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
    out = os.path.join(_builddir(), "exp-" + h.hexdigest()[:20])
    if not os.path.exists(os.path.join(out, "DONE")):
        # keep at most a few old exports
        old = sorted(glob.glob(os.path.join(_builddir(), "exp-*")), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        for o in old[:-6]: shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="exptmp-", dir=_builddir())
        _export(exe, src + [INST], os.path.join(REPO, "lttoolbox") + "/", tmp)
        open(os.path.join(tmp, "DONE"), "w").close()
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    p = Program()
    for s in src + [INST]:
        p.load(os.path.join(out, os.path.basename(s) + ".json"))
    p.tree_hash = h.hexdigest()
    return p

def _export(exe, src, root, outdir):
    inc = ["-I" + REPO, "-I" + os.path.join(REPO, "lttoolbox")]
    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + ".json")
        r = subprocess.run([exe, root, o, s, "--"] + FLAGS + inc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return s, r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        for s, rc, o in ex.map(one, src):
            if rc: raise AnalysisBroken("export of %s failed (%d):\n%s" % (s, rc, o[-1500:]))

def load_snippet(path):
    """Export + load one stand-alone source under /verif (positive examples)."""
    exe = tool()
    tmp = tempfile.mkdtemp(prefix="snip-")
    try:
        o = os.path.join(tmp, os.path.basename(path) + ".json")
        r = subprocess.run([exe, os.path.dirname(path) + "/", o, path, "--"] + FLAGS + ["-I" + REPO, "-I" + os.path.join(REPO, "lttoolbox")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise AnalysisBroken("snippet %s: %s" % (path, r.stdout[-1500:]))
        p = Program(); p.load(o); return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    import time
    t = time.time(); p = load_program()
    print(p.units, "units", len(p.fns), "functions", len(p.records), "records", sum(len(f.nodes) for f in p.fns.values()), "nodes", round(time.time() - t, 1), "s")
