"""P12: options and file arguments reach the code they are documented to control."""
import re
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, strip, cargs, obj, callee, const_of, strlit
from sa.cprop import CProp, TOP, issym

LEAF_IN_TOOL = {"compose", "trim", "process", "endProgram", "get_symbol"}
WATCH = {"readTransducerSet", "writeTransducerSet", "readACX", "compose", "trim", "process", "get_symbol", "openInBinFile", "openOutBinFile", "openOutTextFile",
         "InputFile::open_or_exit", "Transducer::invert", "Transducer::minimize", "Transducer::updateAlphabet", "Transducer::deleteSymbols", "Transducer::epsilonizeSymbols",
         "Transducer::applyACX", "Transducer::joinFinals", "Transducer::show", "Alphabet::writeSymbol"}
WATCHCLS = {"FSTProcessor", "Compiler", "AttCompiler", "Expander", "TMXCompiler"}
IGNORE = {"FSTProcessor::initDefaultIgnoredCharacters", "FSTProcessor::getNullFlush"}
KNOWN = {"FSTProcessor::" + x for x in ("parseICX", "parseRCX", "load", "initGeneration", "initPostgeneration", "initTransliteration", "initAnalysis", "initSAO", "initBiltrans", "initDecomposition",
         "initTMAnalysis", "valid", "generation", "postgeneration", "transliteration", "intergeneration", "SAO", "bilingual", "analysis", "tm_analysis", "quoteMerge", "quoteUnmerge")} | {
         "Compiler::parse", "Compiler::parseACX", "Compiler::write", "AttCompiler::parse", "AttCompiler::write", "Expander::expand", "TMXCompiler::parse", "TMXCompiler::write",
         "TMXCompiler::setOriginLanguageCode", "TMXCompiler::setMetaLanguageCode"}

class Main(CProp):
    """constant propagation through one tool's main() for one command line"""
    limit = 3000
    widen = 2
    def __init__(self, prog, f, cfg, setters):
        super().__init__(prog); self.f = f; self.cfg = cfg; self.ends = []; self.setters = setters; self.decl = []
    def read_global(self, n):
        qn = n.a.get("g") or n.a.get("qn") or n.a.get("m")
        g = self.p.globals.get(qn)
        if g is not None and g["init"] is not None:
            s = strlit(g["init"])
            if s is not None: return s
            return const_of(g["init"]) if const_of(g["init"]) is not None else TOP
        if qn in ("stdin", "stdout", "stderr"): return ("sym", qn)
        if n.k == "DeclRefExpr" and n.a.get("n") in ("stdin", "stdout", "stderr"): return ("sym", n.a["n"])
        return TOP
    def descend(self, f, n, g, st):
        if g.file == self.f.file and g.n not in LEAF_IN_TOOL: return True
        if g.key in self.setters: return True
        if g.qn in WATCH or g.qn in KNOWN or g.qn in IGNORE: return False
        if g.cls in WATCHCLS: return True               # not one of the documented steps: look inside
        if not g.cls and g.file in ("cli.cc", "file_utils.cc", "cli.h", "file_utils.h"): return True
        return g.cls in ("FSTProcessor", "Compiler", "AttCompiler", "Expander") and g.dk == "CXXConstructor"
    def noreturn(self, fl, f, n, st):
        q = callee(n) or ""
        if q == "CLI::print_usage" or (n.a.get("n") or q) == "endProgram": self.ends.append(("usage", st, n)); return
        a = cargs(n); v = self.eval(a[0], st) if a else TOP
        self.ends.append(("exit", v, st, n))
    def event(self, st, e): return st if e in st[1] else (st[0], st[1] + (e,))
    def binop(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if (isinstance(x, str) or isinstance(x, tuple) and x and x[0] == "sym") and isinstance(y, int) and y == 0 and op in ("==", "!="): return int(op == "!=")
        return super().binop(op, a, b)
    def edge(self, fl, f, cond, val, st):
        v = self.eval(cond, st) if cond is not None and not isinstance(val, tuple) else TOP
        if isinstance(v, tuple) and v and v[0] == "sym": return st if val else None
        return super().edge(fl, f, cond, val, st)
    def lst(self, name): return self.cfg["strs"].get(name)
    def model(self, fl, f, n, qn, st):
        a = cargs(n); base = re.sub(r"_\d+$", "", qn.rsplit("::", 1)[-1]); o = obj(n)
        if qn == "CLI::print_usage":
            self.ends.append(("usage", st, n)); return []
        if qn.endswith("endProgram"):
            self.ends.append(("usage", st, n)); return []
        if qn in ("CLI::add_bool_arg", "CLI::add_str_arg", "CLI::add_file_arg"):
            self.decl.append((qn[5:], [self.eval(x, st) for x in a], n)); return [(TOP, st)]
        if qn == "CLI::parse_args": return [(TOP, self.event(st, ("parse_args", ())))]
        if qn in ("CLI::get_bools", "CLI::get_strs", "CLI::get_files"): return [(("sym", qn[9:]), st)]
        if qn.startswith("CLI::"): return [(TOP, st)]
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("[]", "==", "!=", "*", "++", "->", "!"):
            v = [self.eval(x, st) for x in a]; op = n.a["op"]
            if op == "[]" and v[0] == ("sym", "bools"):
                if isinstance(v[1], str):
                    self.cfg["asked"].add(("bool", v[1]))
                    return [(int(v[1] in self.cfg["bools"]), st)]
            if op == "[]" and v[0] == ("sym", "strs") and isinstance(v[1], str):
                self.cfg["asked"].add(("str", v[1])); return [(("list", v[1]), st)]
            if op == "[]" and v[0] == ("sym", "files") and isinstance(v[1], int):
                self.cfg["files_asked"].add(v[1])
                return [(self.cfg["files"].get(v[1], "FILE%d" % v[1]), st)]
            if op == "[]" and isinstance(v[0], tuple) and v[0] and v[0][0] == "list" and isinstance(v[1], int):
                l = self.lst(v[0][1]) or []
                return [(l[v[1]] if v[1] < len(l) else ("sym", "no such value"), st)]
            if op in ("==", "!=") and len(v) == 2 and all(isinstance(x, tuple) and x and x[0] == "it" for x in v):
                return [(int((v[0] == v[1]) == (op == "==")), st)]
            if op == "++" and isinstance(v[0], tuple) and v[0] and v[0][0] == "it":
                p = self.path(a[0], st); nv = ("it", v[0][1], v[0][2] + 1)
                return [(nv, self.set(st, p, nv) if p else st)]
            if op == "*" and isinstance(v[0], tuple) and v[0] and v[0][0] == "it":
                l = self.lst(v[0][1]) if isinstance(v[0][1], str) else None
                return [(l[v[0][2]] if l and v[0][2] < len(l) else ("sym", "elem"), st)]
        if o is not None and (qn.startswith("std::") or qn.startswith("__gnu")):
            v = self.eval(o, st)
            if base in ("find", "count", "contains") and v in (("sym", "strs"), ("sym", "bools")) and a:
                k = self.eval(a[0], st)
                if isinstance(k, str):
                    self.cfg["asked"].add(("str" if v[1] == "strs" else "bool", k))
                    have = k in self.cfg["strs"] if v[1] == "strs" else k in self.cfg["bools"]
                    if base != "find": return [(int(have), st)]
                    return [(("it", v[1] + ":" + k, 0) if have else ("it", v[1] + ":end", 0), st)]
            if base in ("end", "cend") and v in (("sym", "strs"), ("sym", "bools")): return [(("it", v[1] + ":end", 0), st)]
            if isinstance(v, tuple) and v and v[0] == "list":
                l = self.lst(v[1]) or []
                if base in ("begin", "cbegin"): return [(("it", v[1], 0), st)]
                if base in ("end", "cend"): return [(("it", v[1], len(l)), st)]
                if base in ("back", "front", "at"):
                    return [(l[-1 if base == "back" else 0] if l else ("sym", "no such value"), st)]
                if base == "empty": return [(int(not l), st)]
                if base == "size": return [(len(l), st)]
            if "conflict" in self.cfg and base in ("find", "count", "contains") and v is TOP and "Transducer" in (o.t.s if o.t is not None else ""):
                if base != "find": return [(self.cfg["conflict"], st)]
                return [(("it", ("unknown", self.path(o, st)), 0 if self.cfg["conflict"] else 1), st)]
            if base in ("begin", "cbegin"): return [(("it", ("unknown", self.path(o, st)), 0), st)]      # unknown containers: exactly one generic element
            if base in ("end", "cend"): return [(("it", ("unknown", self.path(o, st)), 1), st)]
            if base == "second" : return [(TOP, st)]
            if base in ("c_str", "data"): return [(v, st)]
            if base == "empty" and isinstance(v, str): return [(int(v == ""), st)]
            if base == "insert" and a:
                v = self.eval(a[0], st)
                return [(TOP, self.event(st, ("insert", (v,))) if isinstance(v, str) else st)]
        if qn in ("std::begin", "std::end") and a:
            v = self.eval(a[0], st); l = self.lst(v[1]) if isinstance(v, tuple) and v and v[0] == "list" else None
            if l is not None: return [(("it", v[1], 0 if base == "begin" else len(l)), st)]
        if base == "to_ustring": return [(self.eval(a[0], st), st)]
        if base in ("getenv", "secure_getenv"):
            k = self.eval(a[0], st); v = self.cfg["env"].get(k)
            return [(v if v is not None else 0, st)]
        if base in ("atoi", "stoi", "stol", "atol", "strtol", "stoul"):
            v = self.eval(a[0], st)
            try: return [(int(v), st)]
            except (TypeError, ValueError): return [(TOP, st)]
        if base == "xmlReaderForFile": return [(("sym", "reader", self.eval(a[0], st)), st)]
        if base == "xmlTextReaderRead": return [(1 if self.cfg.get("xml", True) else -1, st)]
        if base in ("openInBinFile", "openOutBinFile", "openOutTextFile"):
            v = self.eval(a[0], st)
            return [(("sym", base, v), self.event(st, (base, (v,))))]
        if base in ("fopen", "u_fopen"):
            v = ("sym", base, self.eval(a[0], st), self.eval(a[1], st))
            return [(v, self.event(st, (base, v[2:])))]
        if base == "getopt_long" or base == "getopt":
            i = self.env(st).get(("getopt",), 0)
            seq = self.cfg.get("getopt", ())
            v = seq[i] if i < len(seq) else -1
            return [(v, self.set(st, ("getopt",), i + 1))]
        if base in ("fclose", "u_fclose"):
            return [(TOP, self.event(st, ("close", (self.eval(a[0], st),))))]
        if base == "LtLocale" or "LtLocale" in qn: return [(TOP, st)]
        g = self.p.fns.get(n.a.get("fn"))
        if g is not None and not self.descend(f, n, g, st) and n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if base in ("begin", "end", "size", "count", "empty", "operator<<", "startswith"): return [(TOP, st)]
            snap = ()
            if (g.qn not in WATCH and g.cls not in WATCHCLS) or g.qn in IGNORE: 
                return [(TOP if g.ret is None or g.ret.s == "void" or g.ret.isint else ("sym", qn), st)]
            args = []
            for i, q in enumerate(g.params):
                e = a[i] if i < len(a) else q.init
                v = self.eval(e, st) if e is not None else TOP
                if v is TOP and e is not None:
                    for x in e.walk():
                        if x.k in ("DeclRefExpr", "MemberExpr"):
                            y = self.read_global(x)
                            if isinstance(y, str): v = y
                            break
                if q.t is not None and (q.t.rec or q.t.ref) and not isinstance(v, str) and not issym(v):
                    pp = self.path(e, st) if e is not None else None
                    v = ("obj", pp[0]) if pp else TOP
                args.append(v)
            me = self.path(o, st) if o is not None else None
            if g.cls == "Transducer": args.append(("obj", me[0]) if me else TOP)
            p = self.path(o, st) if o is not None else None
            if p is not None and g.cls:
                snap = frozenset((k[len(p):], v) for k, v in self.env(st).items() if k[:len(p)] == p and len(k) == len(p) + 1)
            v = ("sym", qn) if g.ret is not None and g.ret.s not in ("void",) else TOP
            if qn == "FSTProcessor::valid": v = 1
            if g.ret is not None and g.ret.bool and v != 1: v = TOP
            st2 = st
            ev = (g.qn, tuple(args), snap)
            st2 = self.event(st, ev)
            return [(v, st2)]
        return None
    def eval(self, n, st):
        if n is not None and n.k == "ArraySubscriptExpr":
            v = self.eval(n.c[0], st); i = self.eval(n.c[1], st)
            if isinstance(v, str) and isinstance(i, int) and 0 <= i <= len(v): return ord(v[i]) if i < len(v) else 0
            if isinstance(v, tuple) and v == ("sym", "argv"):
                if isinstance(i, int): return "ARGV%d" % i
        if n is not None and n.k == "DeclRefExpr" and n.a.get("n") == "optarg": return "OPTARG"
        if n is not None and n.k == "DeclRefExpr" and n.a.get("n") == "optind": return self.cfg.get("optind", TOP)
        return super().eval(n, st)
    def init(self, fl, f, e, st):
        m = e.get("init"); n = f.nodes.get(e.get("s")) if e.get("s") is not None else None
        if not m or m == "<base>": return st
        v = self.eval(n, st) if n is not None else TOP
        if v is TOP:
            for x in self.p.records.get(f.cls, {}).get("fields", ()):
                if x["n"] == m and x["init"] is not None: v = self.eval(x["init"], st)
        return self.set(st, self.resolve(("this", m), self.env(st)), v) if v is not TOP else st
    def ret(self, fl, f, st):
        if f is self.f: self.ends.append(("return", self.env(st).get(("ret", f.key), 0), st))
        return st

def find_setters(prog):
    """methods of the tool classes that only store their arguments: key -> field"""
    out = {}
    for f in prog.fns.values():
        if f.cls not in ("FSTProcessor", "Compiler", "AttCompiler", "Expander", "TMXCompiler") or not f.params or f.dk == "CXXConstructor" or len(f.params) != 1: continue
        fld = []
        ok = True
        for n in fnodes(f):
            if n.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"): ok = False
            if n.k in CALLS and n.k not in ("CXXOperatorCallExpr", "CXXConstructExpr"):
                b = (callee(n) or "").rsplit("::", 1)[-1]
                if not ("operator" in b or b in ("to_ustring", "assign")): ok = False
            if (n.k == "BinaryOperator" or n.k == "CXXOperatorCallExpr") and n.a.get("op") == "=":
                l, r = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
                l = strip(l)
                if l.k == "MemberExpr" and any(x.k == "DeclRefExpr" and x.a.get("d") == f.params[0].d for x in r.walk()): fld.append(l.a["n"])
        if ok and fld: out[f.key] = fld
    return out

def run(prog, f, cfg, setters):
    m = Main(prog, f, cfg, setters)
    env = {}
    for q in f.params:
        if q.n == "argv": env[(q.d,)] = ("sym", "argv")
        elif q.n == "argc" and "argc" in cfg: env[(q.d,)] = cfg["argc"]
    fl = Flow(prog, m)
    fl.run(f, m.mk(env))
    return m

def config(bools=(), strs=None, files=None, env=None, **k):
    return dict(bools=frozenset(bools), strs=strs or {}, files=files or {}, env=env or {}, asked=set(), files_asked=set(), **k)

# ---------------------------------------------------------------- what the tools document
def st_of(e):
    return next(x for x in e if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], frozenset))

B, S = "b", "s"
DECL = {   # tool: options (short, long, kind), number of file arguments, of which required
 "lt_proc": ([("a","analysis",B),("b","bilingual",B),("c","case-sensitive",B),("d","debugged-gen",B),("e","decompose-nouns",B),("g","generation",B),("i","ignored-chars",S),
   ("r","restore-chars",S),("l","tagged-gen",B),("m","tagged-nm-gen",B),("n","non-marked-gen",B),("o","surf-bilingual",B),("O","surf-bilingual-keep",B),("p","post-generation",B),
   ("x","inter-generation",B),("s","sao",B),("t","transliteration",B),("v","version",B),("z","null-flush",B),("w","dictionary-case",B),("C","careful-case",B),
   ("I","no-default-ignore",B),("W","show-weights",B),("N","analyses",S),("L","weight-classes",S),("M","compound-max-elements",S),("h","help",B)], 3, 1),
 "lt_comp": ([("d","debug",B),("m","keep-boundaries",B),("v","var",S),("a","alt",S),("l","var-left",S),("r","var-right",S),("H","hfst",B),("S","no-split",B),("j","jobs",B),("V","verbose",B),("h","help",B)], 4, 3),
 "lt_compose": ([("i","inverted",B),("a","anywhere",B),("j","jobs",B)], 3, 1),
 "lt_expand": ([("m","keep-boundaries",B),("v","var",S),("a","alt",S),("l","var-left",S),("r","var-right",S)], 2, 1),
 "lt_invert": ([("h","help",B)], 2, 0),
 "lt_merge": ([("u","unmerge",B),("z","null-flush",B),("h","help",B)], 2, 0),
 "lt_paradigm": ([("a","analyser",B),("e","exclude",S),("s","sort",B),("z","null-flush",B),("h","help",B)], 3, 1),
 "lt_print": ([("a","alpha",B),("H","hfst",B),("h","help",B)], 2, 0),
 "lt_restrict": ([("m","minimise",B),("v","var",S),("a","alt",S),("l","var-left",S),("r","var-right",S)], 3, 1),
 "lt_tmxproc": ([("s","space",B),("z","null-flush",B)], 3, 1),
 "lt_trim": ([("s","match-section",S)], 3, 1),
 "lt_append": ([("k","keep",B),("s","single",B),("h","help",B)], 3, 1),
 "lt_apply_acx": ([], 3, 1),
}
def IN(i): return ("sym", "openInBinFile", "FILE%d" % i)
def OUTB(i): return ("sym", "openOutBinFile", "FILE%d" % i)
def OUTT(i): return ("sym", "openOutTextFile", "FILE%d" % i)
ANY = "*"
MANY = 2147483647

def x_lt_proc(c, E):
    """(outcome, events, fields) for one command line"""
    b, s = c["bools"], c["strs"]
    cmd = None; mode = "gm_unknown"
    if "analysis" in b: cmd = "a"
    if "bilingual" in b:
        if cmd: return "usage"
        cmd = "b"
    for o in ("surf-bilingual", "surf-bilingual-keep"):
        if o in b:
            if cmd not in (None, "b"): return "usage"
            cmd = "b"
    if "generation" in b:
        if cmd not in (None, "b"): return "usage"
        if cmd: mode = "gm_bilgen"
        else: cmd = "g"
    for o, k in (("decompose-nouns", "e"), ("post-generation", "p"), (("inter-generation", "transliteration"), "t"), ("sao", "s")):
        if any(x in b for x in ((o,) if isinstance(o, str) else o)):
            if cmd: return "usage"
            cmd = k
    for o, m in (("debugged-gen", "gm_all"), ("tagged-gen", "gm_tagged"), ("tagged-nm-gen", "gm_tagged_nm"), ("non-marked-gen", "gm_clean"), ("careful-case", "gm_carefulcase")):
        if o in b:
            cmd = cmd or "g"; mode = m
    for o in ("analyses", "weight-classes", "compound-max-elements"):
        if o in s and int(s[o][-1]) < 1: return "fail"
    f = {"setCaseSensitiveMode": int("case-sensitive" in b), "setUseDefaultIgnoredChars": int("no-default-ignore" not in b and "restore-chars" not in s),
         "setDisplayWeightsMode": int("show-weights" in b), "setNullFlush": int("null-flush" in b), "setDictionaryCaseMode": int("dictionary-case" in b),
         "setBiltransSurfaceForms": int("surf-bilingual" in b), "setBiltransSurfaceFormsKeep": int("surf-bilingual-keep" in b),
         "setIgnoredChars": int("ignored-chars" in s), "setRestoreChars": int("restore-chars" in s),
         "setMaxAnalysesValue": int(s["analyses"][-1]) if "analyses" in s else MANY, "setMaxWeightClassesValue": int(s["weight-classes"][-1]) if "weight-classes" in s else MANY,
         "setCompoundMaxElements": int(s["compound-max-elements"][-1]) if "compound-max-elements" in s else 4}
    ev = [("FSTProcessor::parseICX", (x,)) for x in s.get("ignored-chars", ())] + [("FSTProcessor::parseRCX", (x,)) for x in s.get("restore-chars", ())]
    ev += [("openInBinFile", ("FILE0",)), ("FSTProcessor::load", (IN(0),))]
    if c["files"].get(1) != "": ev.append(("InputFile::open_or_exit", ("FILE1",)))
    out = OUTT(2) if c["files"].get(2) != "" else ("sym", "openOutTextFile", "")
    ev.append(("openOutTextFile", (out[2],)))
    Q = "FSTProcessor::"
    init = {"g": ("initGeneration",), "p": ("initPostgeneration", "initTransliteration"), "t": ("initPostgeneration", "initTransliteration"), "s": ("initAnalysis", "initSAO"),
            "b": ("initBiltrans",), "e": ("initDecomposition",), "a": ("initAnalysis",), None: ("initAnalysis",)}[cmd]
    ev.append((tuple(Q + x for x in init), ())); ev.append((Q + "valid", ()))
    ent = {"g": ("generation",), "p": ("postgeneration",), "t": ("transliteration", "intergeneration"), "s": ("SAO",), "b": ("bilingual",), "e": ("analysis",), "a": ("analysis",), None: ("analysis",)}[cmd]
    ev.append((tuple(Q + x for x in ent), (ANY, out) + ((E[mode],) if cmd in ("g", "b") else ())))
    return ("return", ev, {"FSTProcessor": f}, [tuple(Q + x for x in ent)])

def compf(c, exp=False):
    b, s = c["bools"], c["strs"]
    one = lambda o: s[o][0] if o in s else ""
    f = {"setKeepBoundaries": int("keep-boundaries" in b), "setVariantValue": one("var"), "setAltValue": one("alt"), "setVariantLeftValue": one("var-left"), "setVariantRightValue": one("var-right")}
    if not exp:
        j = "jobs" in b or (c["env"].get("LT_JOBS") is not None and not c["env"]["LT_JOBS"].startswith("n"))
        m = c["env"].get("LT_MAX_SECTION_ENTRIES")
        f.update({"setVerbose": int("verbose" in b), "setEntryDebugging": int("debug" in b), "setJobs": int(j), "setMaxSectionEntries": int(m) if m is not None else (50000 if j else 0)})
    return f
def x_lt_comp(c, E):
    b, s = c["bools"], c["strs"]; d = c["files"].get(0, "FILE0")
    if d not in ("lr", "rl", "u"): return "usage"
    if d == "lr" and "var-left" in s or d == "rl" and "var-right" in s: return "usage"
    ev = []
    if not c.get("xml", True):
        ev = [("AttCompiler::parse", ("FILE1", int(d == "rl"))), ("openOutBinFile", ("FILE2",)), ("AttCompiler::write", (OUTB(2),))]
        return ("return", ev, {"AttCompiler": {"setHfstSymbols": int("hfst" in b), "setSplitting": int("no-split" not in b)}}, ["AttCompiler::parse"])
    D = {"lr": "LR", "rl": "RL", "u": "U"}[d]
    if d == "lr" and c["files"].get(3) != "": ev.append(("Compiler::parseACX", ("FILE3", D)))
    ev += [("Compiler::parse", ("FILE1", D)), ("openOutBinFile", ("FILE2",)), ("Compiler::write", (OUTB(2),))]
    return ("return", ev, {"Compiler": compf(c)}, ["Compiler::parse"])
def x_lt_expand(c, E):
    return ("return", [("openOutTextFile", ("FILE1",)), ("Expander::expand", ("FILE0", OUTT(1)))], {"Expander": compf(c, True)}, ["Expander::expand"])
def x_lt_compose(c, E):
    b = c["bools"]; j = "jobs" in b or (c["env"].get("LT_JOBS") is not None and not c["env"]["LT_JOBS"].startswith("n"))
    return ("return", [("openInBinFile", ("FILE0",)), ("openInBinFile", ("FILE1",)), ("openOutBinFile", ("FILE2",)),
                       ("compose", (IN(0), IN(1), OUTB(2), int("inverted" in b), int("anywhere" in b), int(j)))], {}, [])
RD = "readTransducerSet"; WR = "writeTransducerSet"
def x_lt_invert(c, E):
    return ("return", [("openInBinFile", ("FILE0",)), ("openOutBinFile", ("FILE1",)), (RD, (IN(0), "?l", "?a", "?t")), ("Transducer::invert", ("?a", ANY)), (WR, (OUTB(1), "?l", "?a", "?t"))], {}, [])
def x_lt_merge(c, E):
    return ("return", [("InputFile::open_or_exit", ("FILE0",)), ("openOutTextFile", ("FILE1",)), ("FSTProcessor::initBiltrans", ()),
                       ("FSTProcessor::quoteUnmerge" if "unmerge" in c["bools"] else "FSTProcessor::quoteMerge", (ANY, OUTT(1)))], {}, [])
def x_lt_paradigm(c, E):
    b = c["bools"]
    return ("return", [("openInBinFile", ("FILE0",)), (RD, (IN(0), "?l", "?a", "?t"))] + ([] if "analyser" in b else [("Transducer::invert", ("?a", ANY))]) +
            [("InputFile::open_or_exit", ("FILE1",)), ("openOutTextFile", ("FILE2",)), ("opt:process", (ANY, "?t", "?a", "?l", ANY, OUTT(2), int("sort" in b)))] + [("insert", (x,)) for x in c["strs"].get("exclude", ())], {}, [])
def x_lt_print(c, E):
    b = c["bools"]; ev = [("openInBinFile", ("FILE0",)), ("openOutTextFile", ("FILE1",)), (RD, (IN(0), "?l", "?a", "?t"))]
    if "alpha" in b: ev += [("opt:Alphabet::writeSymbol", (ANY, OUTT(1)))]
    else: ev += [("Transducer::joinFinals", (ANY, ANY)), ("Transducer::show", ("?a", OUTT(1), 0, int("hfst" in b), ANY))]
    return ("return", ev, {}, [])
def x_lt_restrict(c, E):
    b, s = c["bools"], c["strs"]; d = c["files"].get(0, "FILE0")
    D = {"lr": "LR", "rl": "RL"}.get(d)
    if D is None: return "any"
    mn = "minimise" in b or (c["env"].get("LT_RELEASE") is not None and not c["env"]["LT_RELEASE"].startswith("n"))
    ev = [("openInBinFile", ("FILE1",)), ("openOutBinFile", ("FILE2",)), (RD, (IN(1), "?l", "?a", "?t")), ("get_symbol", (D, "?a", "r", "?keep"))]
    for o, p in (("var", "v"), ("alt", "alt"), ("var-left", "vl"), ("var-right", "vr")): ev += [("get_symbol", (x, "?a", p, "?keep")) for x in s.get(o, ())]
    ev += [("Transducer::deleteSymbols", ("?drop", ANY)), ("Transducer::epsilonizeSymbols", ("?keep", ANY))]
    if D == "RL": ev.append(("Transducer::invert", ("?a", ANY)))
    if mn: ev.append(("Transducer::minimize", (ANY,) * 1 + (ANY,) if False else ANY))
    return ("return", ev + [(WR, (OUTB(2), "?l", "?a", "?t"))], {}, [])
def x_lt_tmxproc(c, E):
    return ("return", [("openInBinFile", ("FILE0",)), ("FSTProcessor::load", (IN(0),)), ("FSTProcessor::initTMAnalysis", ()), ("FSTProcessor::valid", ()), ("InputFile::open_or_exit", ("FILE1",)),
                       ("openOutTextFile", ("FILE2",)), ("FSTProcessor::tm_analysis", (ANY, OUTT(2), E["tm_space" if "space" in c["bools"] else "tm_punct"]))],
            {"FSTProcessor": {"setNullFlush": 1}}, ["FSTProcessor::tm_analysis"])
def x_lt_trim(c, E):
    return ("return", [("openInBinFile", ("FILE0",)), ("openInBinFile", ("FILE1",)), ("openOutBinFile", ("FILE2",))] + [("insert", (x,)) for x in c["strs"].get("match-section", ())] + [("trim", (IN(0), IN(1), OUTB(2), ANY))], {}, [])
def x_lt_append(c, E):
    b = c["bools"]
    ev = [("openInBinFile", ("FILE0",)), ("openInBinFile", ("FILE1",)), ("openOutBinFile", ("FILE2",)), (RD, (IN(0), "?l", "?a", "?t")), (RD, (IN(1), "?l2", "?a2", "?t2")),
          (WR, (OUTB(2), "?l", "?a", "?t"))]
    if not ("keep" in b and c["conflict"]): ev.insert(5, ("Transducer::updateAlphabet", ("?a2", "?a", int("single" not in b), ANY)))
    return ("return", ev, {}, [])
def x_lt_apply_acx(c, E):
    return ("return", [("openInBinFile", ("FILE0",)), ("readACX", ("FILE1",)), ("openOutBinFile", ("FILE2",)), (RD, (IN(0), "?l", "?a", "?t")), ("Transducer::applyACX", ("?a", ("sym", "readACX"), ANY)), (WR, (OUTB(2), "?l", "?a", "?t"))], {}, [])
ORDERED = lambda n: not (n.startswith("open") or n in ("insert", "InputFile::open_or_exit", "FSTProcessor::parseICX", "FSTProcessor::parseRCX", "get_symbol") )

def unify(exp, got, sub):
    if exp == ANY: return True
    if isinstance(exp, tuple) and exp and exp[0] not in ("sym",) and isinstance(got, tuple) and len(exp) == len(got) and exp[:1] != ("sym",):
        return all(unify(a, b, sub) for a, b in zip(exp, got))
    if isinstance(exp, str) and exp.startswith("?"):
        if got is TOP: return True
        if exp in sub: return sub[exp] == got
        if got in sub.values(): return False
        sub[exp] = got; return True
    if got is TOP: return True                 # not determined: no verdict on this argument
    return exp == got
def match_event(e, g, sub):
    names = e[0] if isinstance(e[0], tuple) else (e[0],)
    names = tuple(n[4:] if n.startswith("opt:") else n for n in names)
    if g[0] not in names: return False
    if e[1] == ANY: return True
    if len(e[1]) != len(g[1]): return False
    s2 = dict(sub)
    if all(unify(a, b, s2) for a, b in zip(e[1], g[1])):
        sub.update(s2); return True
    return False
def isopt(e): return (e[0] if isinstance(e[0], str) else e[0][0]).startswith("opt:")

def judge(spec, m, setters, prog):
    """None or a text saying what differs"""
    ends = m.ends
    if not ends: return "no end of the program is reachable"
    kinds = {e[0] for e in ends}
    if spec == "any": return None
    if spec == "usage":
        return None if kinds == {"usage"} else "should be refused with the usage message, but the program goes on"
    if spec == "fail":
        for e in ends:
            if e[0] == "return": return "should be refused, but the program goes on"
            if e[0] == "exit" and e[1] in (0,): return "is refused with exit status 0"
        return None
    _, ev, fields, entries = spec
    for e in ends:
        if e[0] != "return":
            if e[0] == "exit" and e[1] is not TOP and e[1] != 0 and any(x.get("catch") for x in ()): continue
            return "is refused (%s)" % e[0]
        if e[1] not in (0, TOP): return "ends with exit status %s" % (e[1],)
        got = [x for x in st_of(e)[1] if x[0] not in ("parse_args", "close", "fopen", "u_fopen")]
        sub = {}; rest = list(got); order = []
        for x in ev:
            for i, g in enumerate(rest):
                if match_event(x, g, sub):
                    order.append((x, got.index(g))); del rest[i]
                    if isopt(x): rest = [h for h in rest if not match_event(x, h, sub)]
                    break
            else:
                if not isopt(x):
                    nm = x[0] if isinstance(x[0], str) else x[0][0]
                    near = [g for g in rest if g[0] == nm]
                    return "'%s' %s" % (nm, "is called with %s instead of %s" % (show(near[0][1]), show(x[1])) if near else "%s is not reached" % show(x[1]))
        if rest: return "'%s' %s is called though nothing asks for it" % (rest[0][0], show(rest[0][1]))
        seq = [i for x, i in order if ORDERED((x[0] if isinstance(x[0], str) else x[0][0]).replace("opt:", ""))]
        if seq != sorted(seq): return "the steps run in another order: %s" % [g[0] for g in got]
        raw = st_of(e)[1]
        for i, g in enumerate(raw):
            if g[0] == "close":
                for h in raw[i + 1:]:
                    if h[0] != "close" and g[1][0] is not TOP and g[1][0] in h[1]: return "'%s' uses a file after it was closed" % h[0]
        for cls, want in fields.items():
            for ent in entries:
                for g in got:
                    if g[0] in (ent if isinstance(ent, tuple) else (ent,)):
                        have = {k[0]: v for k, v in g[2]}
                        for setter, v in want.items():
                            fld = [fl for k, fl in setters.items() if prog.fns[k].qn == cls + "::" + setter]
                            if not fld: continue
                            for fl in fld[0]:
                                if fl in have and have[fl] != v: return "'%s' runs with '%s' = %s (%s) instead of %s" % (g[0], fl, have[fl], setter, v)
    return None
def show(a): return "(" + ", ".join("?" if x is TOP or x == ANY else (x[2] if isinstance(x, tuple) and len(x) > 2 and x[0] == "sym" else str(x) if not isinstance(x, tuple) else x[0] if x[0] != "sym" else x[1]) for x in (a if isinstance(a, tuple) else (a,))) + ")"

MODES = ["analysis", "bilingual", "surf-bilingual", "surf-bilingual-keep", "generation", "decompose-nouns", "post-generation", "inter-generation", "transliteration", "sao",
         "debugged-gen", "tagged-gen", "tagged-nm-gen", "non-marked-gen", "careful-case"]
def configs(tool, tier):
    opts, nf, req = DECL[tool]
    bl = [o for _, o, k in opts if k == B and o not in ("help", "version")]
    sl = [o for _, o, k in opts if k == S]
    num = {"analyses", "weight-classes", "compound-max-elements"}
    def sv(o, v="7"): return [v] if o in num else ["v1"] if tool in ("lt_comp", "lt_expand") else ["v1", "v2"]
    import itertools
    fl = {"lt_comp": [{0: d, **({3: ""} if e else {})} for d in ("lr", "rl", "u", "xx") for e in (0, 1)], "lt_restrict": [{0: d} for d in ("lr", "rl")]}.get(tool, [{}])
    if tool == "lt_proc": fl = [{}, {1: "", 2: ""}]
    envs = [{}]
    if tool in ("lt_comp", "lt_compose"): envs += [{"LT_JOBS": "y"}, {"LT_JOBS": "no"}]
    if tool == "lt_comp": envs += [{"LT_MAX_SECTION_ENTRIES": "77"}]
    if tool == "lt_restrict": envs += [{"LT_RELEASE": "y"}, {"LT_RELEASE": "no"}]
    xm = (True, False) if tool == "lt_comp" else (True,)
    allo = [(o, B) for o in bl] + [(o, S) for o in sl]
    depth = 3 if tier == "thorough" else 2
    for n in range(depth + 1):
        for combo in itertools.combinations(allo, n):
            if tool == "lt_proc" and n == 3 and not sum(o in MODES for o, _ in combo) >= 2: continue
            for f in (fl if n <= 1 or tool != "lt_proc" else fl[:1]):
                for env in (envs if n <= 1 else envs[:1]):
                    for x in xm:
                        strs = {o: sv(o) for o, k in combo if k == S}
                        for cf in ((0, 1) if tool == "lt_append" else (None,)):
                            yield config([o for o, k in combo if k == B], strs, f, env, xml=x, **({} if cf is None else {"conflict": cf}))
                        if n == 1 and set(strs) & num:
                            for v in ("0", "-3", "1"): yield config([], {o: [v] for o in strs}, f, env, xml=x)

NOCONSULT = {"help", "version", ("lt_tmxproc", "null-flush"), ("lt_merge", "null-flush"), ("lt_paradigm", "null-flush")}

# setting -> entry points whose code must look at it (documented reach of the option)
READS = {"FSTProcessor": {"setBiltransSurfaceForms": ["bilingual"], "setBiltransSurfaceFormsKeep": ["bilingual"], "setCaseSensitiveMode": ["analysis", "generation", "bilingual", "transliteration", "SAO"],
  "setDictionaryCaseMode": ["analysis"], "setNullFlush": ["analysis", "tm_analysis"], "setIgnoredChars": ["analysis"], "setRestoreChars": ["analysis"], "setUseDefaultIgnoredChars": ["analysis"],
  "setDisplayWeightsMode": ["analysis", "generation", "bilingual"], "setMaxAnalysesValue": ["analysis", "generation", "bilingual"],
  "setMaxWeightClassesValue": ["analysis", "generation", "bilingual"], "setCompoundMaxElements": ["analysis"]},
 "Compiler": {s: ["parse"] for s in ("setAltValue", "setVariantValue", "setVariantLeftValue", "setVariantRightValue", "setKeepBoundaries", "setJobs", "setMaxSectionEntries", "setVerbose", "setEntryDebugging")},
 "Expander": {s: ["expand"] for s in ("setAltValue", "setVariantValue", "setVariantLeftValue", "setVariantRightValue", "setKeepBoundaries")},
 "AttCompiler": {"setHfstSymbols": ["parse"], "setSplitting": ["parse"]},
 "TMXCompiler": {"setOriginLanguageCode": ["parse"], "setMetaLanguageCode": ["parse"]}}

def P12(prog, res, tier):
    res.rules += ["for every tool and every command line of the enumerated set (every option alone and every pair; triples of mode options in the thorough tier), constant propagation through main() reaches exactly the documented processing step, with the documented files, mode and settings, or the documented refusal",
                  "every documented option is declared under its documented short and long name and kind, and every option key that main() looks up is declared with that kind",
                  "every setting an option controls is looked at by the code of each mode the option is documented for",
                  "the option parser records every declared option under its own name, with its argument if it takes one, refuses undeclared ones, and hands over the file arguments in order"]
    setters = find_setters(prog)
    enum = {}
    for q in ("GenerationMode", "TranslationMemoryMode"): enum.update(dict(prog.enums.get(q, ())))
    mains = {f.file[:-3]: f for f in prog.fnall("main")}
    for tool, (opts, nf, req) in DECL.items():
        f = mains.get(tool)
        if f is None: raise AnalysisBroken("no main() in %s.cc" % tool)
        spec = globals()["x_" + tool]; asked = set(); bad = 0; broken = None; done = 0
        m = None
        for c in configs(tool, tier):
            try: m = run(prog, f, c, setters)
            except AnalysisBroken as e: broken = e; res.sample("command_lines_not_analysed", "%s %s: %s" % (tool, cl(c), e)); continue
            done += 1
            asked |= c["asked"]; res.count("command_lines")
            sp = spec(c, enum)
            if tool == "lt_append" and len({any(x[0] == "Transducer::updateAlphabet" for x in st_of(e)[1]) for e in m.ends if e[0] == "return"}) > 1:
                res.sample("not_analysed", "lt_append: what happens to a section in both files")
                sp[1][:] = [x for x in sp[1] if x[0] != "Transducer::updateAlphabet"]; sp[1].insert(5, ("opt:Transducer::updateAlphabet", ("?a2", "?a", int("single" not in c["bools"]), ANY)))
            d = judge(sp, m, setters, prog)
            if d and bad < 3:
                bad += 1
                res.violation("%s|%s" % (tool, cl(c)), "lttoolbox/%s.cc main(): with %s: %s" % (tool, cl(c) or "no options", d))
        if not done: raise broken or AnalysisBroken("%s: nothing analysed" % tool)
        decl = {}
        files = []
        for k, a, n in m.decl:
            if k == "add_file_arg": files.append((a[0], a[1] if len(a) > 1 else TOP, n))
            else: decl[a[1]] = (chr(a[0]) if isinstance(a[0], int) else None, B if k == "add_bool_arg" else S, n)
        for sh, lo, k in opts:
            res.count("declared_options")
            if lo not in decl: res.violation("%s|undeclared|%s" % (tool, lo), "%s: option --%s (-%s) is documented but not declared" % (f.loc, lo, sh)); continue
            if decl[lo][0] not in (sh, None): res.violation("%s|short|%s" % (tool, lo), "%s: option --%s is declared with -%s instead of -%s" % (where(decl[lo][2]), lo, decl[lo][0], sh))
            if decl[lo][1] != k: res.violation("%s|kind|%s" % (tool, lo), "%s: option --%s %s an argument" % (where(decl[lo][2]), lo, "must take" if k == S else "must not take"))
            if lo not in NOCONSULT and (tool, lo) not in NOCONSULT and ("bool" if k == B else "str", lo) not in asked:
                res.violation("%s|unused|%s" % (tool, lo), "%s: option --%s is accepted but nothing asks for it" % (where(decl[lo][2]), lo))
        for k, key in asked:
            if key not in decl: res.violation("%s|asks|%s" % (tool, key), "%s: main() looks up option '%s', which is not declared" % (f.loc, key))
            elif decl[key][1] != (B if k == "bool" else S): res.violation("%s|asks|%s" % (tool, key), "%s: main() looks up option '%s' as the wrong kind" % (f.loc, key))
        shorts = [v[0] for v in decl.values() if v[0]]
        for x in set(shorts):
            if shorts.count(x) > 1: res.violation("%s|dup|%s" % (tool, x), "%s: two options share -%s" % (f.loc, x))
        if len(files) != nf: res.violation("%s|files" % tool, "%s: %d file arguments declared instead of %d" % (f.loc, len(files), nf))
        elif sum(1 for a in files if a[1] == 0) != req or any(a[1] != 0 for a in files[:req]):
            res.violation("%s|files" % tool, "%s: the required file arguments are not the first %d" % (f.loc, req))
    tmxcomp(prog, res, mains, setters)
    # settings are looked at
    for cls, tab in READS.items():
        for s, ents in tab.items():
            fs = prog.fnall(cls + "::" + s)
            if not fs: continue
            fld = setters.get(fs[0].key)
            for e in ents:
                roots = prog.fnall(cls + "::" + e)
                if not roots: raise AnalysisBroken("no %s::%s" % (cls, e))
                res.count("setting_reaches_mode")
                if not fld:
                    if not any(True for n in fnodes(fs[0]) if n.k == "MemberExpr"):
                        res.violation("%s::%s|nofield" % (cls, s), "%s: %s::%s() stores nothing" % (fs[0].loc, cls, s))
                    continue
                if not any(reads_field(prog, roots, cls, x) for x in fld):
                    res.violation("%s::%s|unread|%s" % (cls, s, e), "%s: no code reachable from %s::%s() looks at '%s', which %s() sets" % (fs[0].loc, cls, e, fld[0], s))
    cli_class(prog, res)

def reads_field(prog, roots, cls, fld):
    for g in prog.reach(roots).values():
        for n in fnodes(g):
            if n.k == "MemberExpr" and n.a.get("m") == cls + "::" + fld:
                q = n.parent
                if q is not None and q.k == "BinaryOperator" and q.a.get("op") == "=" and q.c[0] is n: continue
                if q is not None and q.k == "CXXOperatorCallExpr" and q.a.get("op") == "=" and len(q.c) > 1 and strip(q.c[1]) is n: continue
                return True
    return False
def cl(c):
    return " ".join(["--" + x for x in sorted(c["bools"])] + ["--%s %s" % (k, " ".join(v)) for k, v in sorted(c["strs"].items())] + ["%s=%s" % x for x in sorted(c["env"].items())] +
                    ["arg%d='%s'" % x for x in sorted(c["files"].items())] + ([] if c.get("xml", True) else ["(input not XML)"]) +
                    (["(a section in both files)"] if c.get("conflict") else []))

def tmxcomp(prog, res, mains, setters):
    f = mains.get("lt_tmxcomp")
    if f is None: raise AnalysisBroken("no main() in lt_tmxcomp.cc")
    for opt, setter, field in (("o", "setOriginLanguageCode", None), ("m", "setMetaLanguageCode", None), (None, None, None), ("?", None, None)):
        seq = () if opt is None else (ord(opt),)
        c = config(getopt=seq, argc=6 if opt else 4, optind=3 if opt else 1)
        m = run(prog, f, c, setters); res.count("command_lines")
        if opt == "?":
            if {e[0] for e in m.ends} - {"usage"}: res.violation("lt_tmxcomp|unknown", "%s: an unknown option is not refused" % f.loc)
            continue
        rets = [e for e in m.ends if e[0] == "return"]
        if not rets: res.violation("lt_tmxcomp|%s" % opt, "%s: lt-tmxcomp%s never gets to compiling" % (f.loc, " -" + opt if opt else "")); continue
        last = (6 if opt else 4) - 1
        for e in rets:
            ev = [x for x in st_of(e)[1]]
            pa = [x for x in ev if x[0] == "TMXCompiler::parse"]; wr = [x for x in ev if x[0] == "TMXCompiler::write"]
            if not pa or pa[0][1][0] != "ARGV%d" % (last - 1): res.violation("lt_tmxcomp|parse", "%s: the TMX file compiled is not the one before the last argument" % f.loc)
            elif not wr or not (isinstance(wr[0][1][0], tuple) and wr[0][1][0][2:3] == ("ARGV%d" % last,)): res.violation("lt_tmxcomp|write", "%s: the result is not written to the last argument" % f.loc)
            if opt and pa:
                called = [x for x in ev if x[0] == "TMXCompiler::" + setter and x[1] == ("OPTARG",)]
                fld = [v for k, v in setters.items() if prog.fns[k].qn == "TMXCompiler::" + setter]
                have = {k[0]: v for k, v in pa[0][2]}
                if not called and not (fld and have.get(fld[0][0]) == "OPTARG"): res.violation("lt_tmxcomp|%s" % opt, "%s: -%s does not reach %s" % (f.loc, opt, setter))
    # long option table and short option string agree with the switch
    for n in fnodes(f):
        if n.k in CALLS and (callee(n) or "").rsplit("::", 1)[-1] in ("getopt_long", "getopt"):
            s = strlit(cargs(n)[2]); res.count("getopt_calls")
            if s is None: continue
            for o in "om":
                if o + ":" not in s: res.violation("lt_tmxcomp|optstring|" + o, "%s: -%s does not take an argument in the option string '%s'" % (where(n), o, s))

def cli_class(prog, res):
    """CLI::parse_args: declared option -> recorded under its own name, whichever kind"""
    f = prog.fn("CLI::parse_args")
    for name, isb in (("add_str_arg", 0), ("add_bool_arg", 1)):
        g = prog.fn("CLI::" + name)
        got = {}
        for n in fnodes(g):
            if n.k == "InitListExpr" and n.t is not None and n.t.rec:
                rec = prog.records.get(n.t.rec) or prog.records.get(n.t.s) or next((r for q, r in prog.records.items() if q.endswith(n.t.s.split("::")[-1])), None)
                if rec is None: continue
                for fld, e in zip(rec["fields"], n.c):
                    d = None
                    for x in e.walk():
                        if x.k == "DeclRefExpr" and any(x.a.get("d") == q.d for q in g.params): d = [q.n for q in g.params if q.d == x.a["d"]][0]
                    got[fld["n"]] = d if d else const_of(e) if const_of(e) is not None else strlit(e)
        if not {"short_opt", "long_opt", "is_bool"} <= set(got): res.sample("not_analysed", "CLI::%s: option record not recognised" % name); return
        res.count("cli_obligations", 3)
        pi = {q.n: i for i, q in enumerate(g.params)}
        if pi.get(got.get("short_opt")) != 0: res.violation("CLI|%s|short" % name, "%s: the short name is not recorded" % g.loc)
        if pi.get(got.get("long_opt")) != 1: res.violation("CLI|%s|long" % name, "%s: the long name is not recorded" % g.loc)
        if got.get("is_bool") not in (isb, None): res.violation("CLI|%s|kind" % name, "%s: the option is recorded as one %s argument" % (g.loc, "without" if not isb else "with an"))
    for isb in (0, 1):
        c = CliParse(prog, isb); fl = Flow(prog, c)
        fl.run(f, c.mk())
        want = {0: {("opt", "strs", "optarg"), ("argstr", "short"), ("argstr", ord(":")), ("long", "name"), ("long", "val"), ("has_arg", 1)},
                1: {("opt", "bools", 1), ("argstr", "short"), ("long", "name"), ("long", "val"), ("has_arg", 0)}}[isb]
        res.count("cli_obligations", len(want))
        for w in want - c.seen: res.violation("CLI|parse|%d|%s" % (isb, w[0]), "%s: for an option %s argument the parser does not do %s" % (f.loc, "without" if isb else "with", WORDS[w[0]]))
        for w in c.seen - want: res.violation("CLI|parse|%d|%s" % (isb, w[0]), "%s: for an option %s argument the parser does %s %s" % (f.loc, "without" if isb else "with", WORDS[w[0]], w[1:]))
        if not c.usage_unknown: res.violation("CLI|unknown", "%s: an option that is not declared is not refused" % f.loc)
        if not c.count_low: res.violation("CLI|few", "%s: too few file arguments are not refused" % f.loc)
        if not c.count_high: res.violation("CLI|many", "%s: too many file arguments are not refused" % f.loc)
WORDS = {"opt": "record it under its long name with its value", "argstr": "put it in the short option string", "long": "put it in the long option table", "has_arg": "declare whether it takes an argument", "files": "collect the file arguments in order"}

class CliParse(CProp):
    """effects of CLI::parse_args on one declared option of the given kind"""
    limit = 6000; widen = 2
    def __init__(self, prog, isb): super().__init__(prog); self.isb = isb; self.seen = set(); self.usage_unknown = False; self.count_low = self.count_high = False
    def mem(self, n):
        n = strip(n); return n.a.get("m") if n is not None and n.k == "MemberExpr" else None
    def field(self, n):
        """name of the option-record field an expression denotes, through c_str() and casts"""
        n = strip(n)
        if n is None: return None
        if n.k == "CXXMemberCallExpr" and (callee(n) or "").rsplit("::", 1)[-1] in ("c_str", "data"): return self.field(obj(n))
        if n.k == "MemberExpr" and n.a["n"] in ("short_opt", "long_opt", "is_bool", "var", "desc"): return n.a["n"]
        if n.k == "CXXConstructExpr" and n.c: return self.field(n.c[0])
        return None
    def eval(self, n, st):
        if self.field(n) == "is_bool" and n.k == "MemberExpr": return self.isb
        return super().eval(n, st)
    def elem(self, fl, f, n, st):
        if n.k == "BinaryOperator" and n.a.get("op") == "=":
            l = strip(n.c[0])
            if l.k == "MemberExpr" and l.a["n"] == "name" and self.field(n.c[1]) == "long_opt": self.seen.add(("long", "name"))
            if l.k == "MemberExpr" and l.a["n"] == "val" and self.field(n.c[1]) == "short_opt": self.seen.add(("long", "val"))
            if l.k == "MemberExpr" and l.a["n"] == "has_arg":
                v = self.eval(n.c[1], st)
                if isinstance(v, int): self.seen.add(("has_arg", v))
            if l.k == "CXXOperatorCallExpr" and l.a.get("op") == "[]" and (self.mem(l.c[1]) or "").endswith("::bools") and self.field(l.c[2]) == "long_opt":
                v = self.eval(n.c[1], st); self.seen.add(("opt", "bools", v))
        return super().elem(fl, f, n, st)
    def model(self, fl, f, n, qn, st):
        base = qn.rsplit("::", 1)[-1]; a = cargs(n); o = obj(n)
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "+=" and len(a) == 2 or base == "push_back" and o is not None:
            x = a[1] if n.k == "CXXOperatorCallExpr" else a[0]; tgt = strip(a[0] if n.k == "CXXOperatorCallExpr" else o)
            if tgt is not None and tgt.k == "DeclRefExpr":
                v = self.eval(x, st)
                if self.field(x) == "short_opt": self.seen.add(("argstr", "short"))
                elif v == ord(":"): self.seen.add(("argstr", ord(":")))
            if base == "push_back" and tgt is not None and tgt.k == "CXXOperatorCallExpr" and tgt.a.get("op") == "[]" and (self.mem(tgt.c[1]) or "").endswith("::strs") and self.field(tgt.c[2]) == "long_opt":
                if any(y.k == "DeclRefExpr" and y.a.get("n") == "optarg" for y in x.walk()): self.seen.add(("opt", "strs", "optarg"))
            return [(TOP, st)]
        if qn == "CLI::print_usage":
            # why are we here?
            e = self.env(st)
            if e.get(("found",)) == 0 or e.get(("unmatched",)) == 1: self.usage_unknown = True
            if e.get(("low",)) == 1: self.count_low = True
            if e.get(("high",)) == 1: self.count_high = True
            return []
        return None
    def edge(self, fl, f, cond, val, st):
        n = strip(cond) if cond is not None and not isinstance(val, tuple) else None
        if n is not None and n.k == "BinaryOperator" and n.a.get("op") in ("<", ">", "<=", ">="):
            txt = {x.a["n"] for x in n.walk() if x.k == "MemberExpr"}
            if "files" in txt and ("min_file_args" in txt or "file_args" in txt):
                op = n.a["op"]; left = {x.a["n"] for x in n.c[0].walk() if x.k == "MemberExpr"}
                if "files" not in left: op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                lim = "min_file_args" if "min_file_args" in txt else "file_args"
                # only strict comparisons with the right bound refuse exactly the wrong counts
                if lim == "min_file_args" and (op == "<" and val or op == ">=" and not val): return self.set(st, ("low",), 1)
                if lim == "file_args" and (op == ">" and val or op == "<=" and not val): return self.set(st, ("high",), 1)
                if lim == "file_args" and op == ">" and not val or lim == "min_file_args" and op == "<" and not val: return self.set(self.set(st, ("low",), 0), ("high",), 0)
        s2 = super().edge(fl, f, cond, val, st)
        if s2 is None or n is None: return s2
        # the declared option does not match what getopt returned
        if n.k == "BinaryOperator" and n.a.get("op") in ("==", "!=") and any(self.field(x) == "short_opt" for x in n.c) and not any(isinstance(const_of(x), int) for x in n.c):
            eq = (n.a["op"] == "==") == val
            return self.set(s2, ("unmatched",), 0 if eq else 1)
        if n.k == "DeclRefExpr" and n.t is not None and n.t.bool:
            v = self.eval(n, s2)
            if v == 0: s2 = self.set(s2, ("found",), 0)
        return s2
