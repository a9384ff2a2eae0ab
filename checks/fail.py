"""P11: a failure is reported and ends the run with a failure status."""
import re
from sa.prog import AnalysisBroken, where, fnodes, CALLS
from sa.flow import Flow, strip, cargs, obj, callee, const_of, strlit, cfg, catch_blocks
from sa.cprop import CProp, TOP, issym
from . import cli

OPENERS = {"fopen", "u_fopen", "xmlReaderForFile", "xmlReadFile", "freopen", "fdopen"}
def base(n): return re.sub(r"_\d+$", "", (callee(n) or "").rsplit("::", 1)[-1])
def errtext(n):
    """the message, if this call starts an error message on the error stream"""
    if n.k == "CXXOperatorCallExpr" and n.a.get("op") == "<<" and len(n.c) == 3:
        o = strip(n.c[1])
        if o is not None and o.k == "DeclRefExpr" and o.a.get("g") == "std::cerr":
            s = strlit(n.c[2])
            if s and s.lower().startswith("error"): return s
    if n.k in CALLS and base(n) in ("fprintf", "u_fprintf"):
        for x in cargs(n)[1:2]:
            s = strlit(x)
            if s and s.lower().startswith("error"): return s
    return None
# messages that are remarks about the dictionary, not failures: lt-comp -V points at entries beginning with a space
REMARKS = ("Compiler::procIdentity", "Compiler::procTransduction")

def enders(prog):
    """functions that never come back to their caller"""
    e = getattr(prog, "_enders", None)
    if e is not None: return e
    e = prog._enders = set(); ch = True
    fs = [f for f in prog.fns.values() if f.cfgj]
    while ch:
        ch = False
        for f in fs:
            if f.key in e or f.n == "main": continue
            g = cfg(f); seen = {g.entry}; work = [g.entry]
            while work:
                b = g.b[work.pop()]
                if any(n is not None and (n.k in CALLS and (n.a.get("nr") and n.k != "CXXConstructExpr" or n.a.get("fn") in e) or n.k == "CXXThrowExpr") for n in (f.nodes.get(x) for x in b["e"] if not isinstance(x, dict))): continue
                for t in b["s"]:
                    if t is not None and t not in seen: seen.add(t); work.append(t)
            if g.exit not in seen: e.add(f.key); ch = True
    return e

class Err(CProp):
    """follows every path on which an error message was printed, or a checker answered 'no'"""
    limit = 2500; widen = 2
    def __init__(self, prog, root, errf): super().__init__(prog); self.root = root; self.errf = errf; self.bad = []; self.false = set(); self.sites = set()
    def extra(self, fl, f, g, s):
        return [(b, self.mk()) for b in catch_blocks(f, g)] if f is self.root else ()
    def mark(self, st, n): return (st[0], (n.id,)) if not st[1] else st
    def elem(self, fl, f, n, st):
        if n.k in CALLS:
            t = errtext(n)
            if t: self.sites.add(n.id); st = self.mark(st, n); return (self.result(f, n, st, TOP),)
        return super().elem(fl, f, n, st)
    def model(self, fl, f, n, qn, st):
        if n.a.get("fn") in self.errf: return [(TOP, st), (0, self.mark(st, n))]
        if n.a.get("fn") in enders(self.p): return []
        return None
    def noreturn(self, fl, f, n, st):
        if st[1] and base(n) in ("exit", "_exit", "quick_exit", "_Exit"):
            a = cargs(n); v = self.eval(a[0], st) if a else TOP
            if v == 0: self.bad.append((st[1][0], "exits with status 0 at %s" % where(n)))
    def ret(self, fl, f, st):
        if st[1]:
            v = self.env(st).get(("ret", f.key), TOP)
            if f.n == "main":
                if v == 0 or v is TOP and ("ret", f.key) not in self.env(st): self.bad.append((st[1][0], "ends with status 0"))
            elif f.ret is not None and (f.ret.bool or f.ret.ptr) and v == 0: self.false.add(st[1][0])
            else: self.bad.append((st[1][0], "goes on to the normal end of %s" % f.qn))
        return st

def messages(prog, res):
    cand = {}
    for f in prog.fns.values():
        if f.cfgj and any(n.k in CALLS and errtext(n) for n in fnodes(f)): cand[f.key] = f
    errf = set(); todo = list(cand.values()); seen = 0
    if len(todo) < 20: raise AnalysisBroken("only %d functions with error messages found" % len(todo))
    while todo:
        f = todo.pop()
        c = Err(prog, f, errf)
        try: Flow(prog, c).run(f, c.mk())
        except AnalysisBroken as e:
            res.sample("not_analysed", "%s: %s" % (f.qn, e)); continue
        res.count("functions_with_error_paths"); res.count("error_sites", len(c.sites))
        for nid, how in sorted(set(c.bad)):
            n = f.nodes[nid]
            if f.qn in REMARKS and errtext(n) and "Error (" in errtext(n) and guarded_verbose(n): continue
            res.violation("%s|%s" % (f.qn, (errtext(n) or base(n))[:30]), "%s: after %s, %s %s" % (where(n), "the message '%s...'" % errtext(n) if errtext(n) else "%s() answered no" % base(n), f.qn, how))
        if c.false and f.key not in errf:
            errf.add(f.key)
            for g in prog.fns.values():
                if g.cfgj and any(n.a.get("fn") == f.key for n in fnodes(g) if n.k in CALLS) and g not in todo: todo.append(g)
    return errf
def guarded_verbose(n):
    p = n
    while p is not None:
        if p.k == "IfStmt" and any(x.k == "MemberExpr" and x.a["n"] == "verbose" for x in (p.a.get("cond") or p.c[0]).walk()): return True
        p = p.parent
    return False

class FailMain(cli.Main):
    """one tool run in which exactly one thing goes wrong: an open fails, the XML breaks off, the dictionary is not valid, or an exception arrives"""
    limit = 6000
    def __init__(self, prog, f, cfg_, setters, opens, reads, errf):
        super().__init__(prog, f, cfg_, setters); self.opens = opens; self.reads = reads; self.errf = errf; self.sites = set(); self.bad = []; self.unasked = False
    def failed(self, st):
        for e in st[1]:
            if e[0] == "FAIL": return e
        return None
    def event(self, st, e): return st                      # only failures are recorded
    def fail(self, st, n, what):
        self.sites.add((what, where(n)))
        return (st[0], st[1] + (("FAIL", what, where(n)),)) if not self.failed(st) else st
    def extra(self, fl, f, g, s):
        if f is self.f: return [(b, self.mk(ev=(("FAIL", "an exception", f.loc),))) for b in catch_blocks(f, g)]
        return ()
    def descend(self, f, n, g, st):
        if g.key in self.opens: return True
        if g.key in self.errf: return False
        if g.file == self.f.file and g.n not in cli.LEAF_IN_TOOL: return True
        return g.key in self.setters
    def model(self, fl, f, n, qn, st):
        b = base(n); g = self.p.fns.get(n.a.get("fn"))
        if g is not None and g.key in enders(self.p): return []
        if b in OPENERS:
            ok = (("sym", b, where(n)), st)
            return [ok] if self.failed(st) else [ok, (0, self.fail(st, n, "a file that cannot be opened"))]
        if b == "xmlTextReaderRead":
            fl_ = self.failed(st)
            if f.file == self.f.file: return [(1, st), (0, st), (-1, st)]           # lt-comp looks whether the file is XML at all
            if fl_ and fl_[1].startswith("XML"): return [(-1, st)]
            out = [(1, st), (0, st)]
            return out if fl_ else out + [(-1, self.fail(st, n, "XML that breaks off"))]
        if g is not None and g.key in self.errf:
            ok = (st[0], st[1] + (("ASKED",),)) if g.qn == "FSTProcessor::valid" and ("ASKED",) not in st[1] else st
            return [(TOP, st)] if self.failed(st) else [(1, ok), (0, self.fail(st, n, "a 'no' from %s()" % b))]
        if g is not None and g.key in self.opens: return None
        if g is not None and g.key in self.reads and not self.failed(st):
            return [(TOP, st), (TOP, self.fail(st, n, "XML that breaks off"))]
        if b in ("fclose", "u_fclose"): return [(TOP, st)]
        return super().model(fl, f, n, qn, st)
    def noreturn(self, fl, f, n, st):
        x = self.failed(st)
        if x and base(n) in ("exit", "_exit", "quick_exit", "_Exit"):
            a = cargs(n); v = self.eval(a[0], st) if a else TOP
            if v == 0: self.bad.append((x, "exit status 0 at %s" % where(n)))
    def ret(self, fl, f, st):
        x = self.failed(st)
        if x and f is self.f:
            v = self.env(st).get(("ret", f.key), 0)
            if v == 0: self.bad.append((x, "status 0"))
        if f is self.f and not x and ("ASKED",) not in st[1] and self.env(st).get(("ret", f.key), 0) == 0: self.unasked = True
        return st

def reaching(prog, names):
    out = set(); ch = True
    direct = {f.key for f in prog.fns.values() if any(n.k in CALLS and base(n) in names for n in fnodes(f))}
    out = set(direct)
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.key not in out and any(n.k in CALLS and n.a.get("fn") in out for n in fnodes(f)): out.add(f.key); ch = True
    return out

class ReadFail(CProp):
    """follows every path after a call that asks for the next XML node and is told that there is an error"""
    limit = 4000; widen = 2
    def __init__(self, prog, root, passing): super().__init__(prog); self.root = root; self.passing = passing; self.bad = []; self.passes = False; self.sites = set()
    def descend(self, f, n, g, st): return g.key in self.passing
    def model(self, fl, f, n, qn, st):
        if base(n) == "xmlTextReaderRead":
            self.sites.add(where(n))
            if st[1]: self.bad.append((n, "asks for a further node after the reader reported an error")); return []
            return [(1, st), (0, st), (-1, (st[0], (n.id,)))]
        if n.a.get("fn") in enders(self.p): return []
        return None
    def ret(self, fl, f, st):
        if f is self.root and st[1]: self.passes = True
        return st
def breaks_off(prog, res):
    """an XML input that breaks off ends the run: no function that reads XML nodes comes back normally, or reads on, after the reader reported an error"""
    mains = {f.file for f in prog.fnall("main")}
    direct = [f for f in prog.fns.values() if f.cfgj and f.file not in mains and any(n.k in CALLS and base(n) == "xmlTextReaderRead" for n in fnodes(f))]
    if len(direct) < 5: raise AnalysisBroken("only %d functions that read XML found" % len(direct))
    todo = list(direct); passing = set()
    while todo:
        f = todo.pop()
        c = ReadFail(prog, f, passing)
        try: Flow(prog, c).run(f, c.mk())
        except AnalysisBroken as e: res.sample("not_analysed", "%s: %s" % (f.qn, e)); continue
        res.count("functions_reading_xml"); res.count("xml_reads", len(c.sites))
        for n, how in c.bad: res.violation("%s|read" % f.qn, "%s: %s %s" % (where(n), f.qn, how))
        if c.passes and not c.bad:
            if f.ret is not None and (f.ret.isint or f.ret.bool) and f.key not in passing:
                passing.add(f.key)                        # hands the result to its caller
                todo += [g for g in prog.fns.values() if g.cfgj and g not in todo and any(n.k in CALLS and n.a.get("fn") == f.key for n in fnodes(g))]
            elif f.key not in passing: res.violation("%s|read" % f.qn, "%s: %s comes back normally after xmlTextReaderRead() reported an error" % (f.loc, f.qn))

class Consult(CProp):
    """has the dictionary been checked before this function comes back?"""
    limit = 6000; widen = 2
    def __init__(self, prog, root, reach, target): super().__init__(prog); self.root = root; self.reach = reach; self.target = target; self.bad = False; self.asked = False
    def descend(self, f, n, g, st): return g.key in self.reach and g.key not in self.target
    def model(self, fl, f, n, qn, st):
        if n.a.get("fn") in self.target: self.asked = True; return [(TOP, (st[0], (1,)))]
        if n.a.get("fn") in enders(self.p): return []
        return None
    def ret(self, fl, f, st):
        if f is self.root and not st[1]: self.bad = True
        return st
def consulted(prog, res):
    """the compiler does not come back from parse() without having looked whether the dictionary is valid"""
    target = {g.key for g in prog.fnall("Compiler::valid")}
    if not target: raise AnalysisBroken("Compiler::valid not found")
    reach = calling(prog, target)
    for f in prog.fnall("Compiler::parse"):
        c = Consult(prog, f, reach, target); Flow(prog, c).run(f, c.mk())
        res.count("validity_checks")
        if c.bad: res.violation("%s|valid" % f.qn, "%s: %s can come back without having asked whether the dictionary is valid" % (f.loc, f.qn))
def calling(prog, keys):
    out = set(keys); ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.key not in out and any(n.k in CALLS and n.a.get("fn") in out for n in fnodes(f)): out.add(f.key); ch = True
    return out

def P11(prog, res, tier):
    res.rules += ["after an error message no path comes back to a normal return (or the function answers 'no' and every caller then ends the run), and the exit status is not 0",
                  "for every tool: if any file cannot be opened, the XML of any input breaks off, the dictionary is declared invalid, or an exception reaches main(), the tool does not end with status 0",
                  "a function that asks for the next XML node does not come back normally, and does not ask again, after the reader reported an error (or hands the result to a caller for which this holds)",
                  "Compiler::parse() does not come back without having asked whether the dictionary is valid; lt-proc and lt-tmxproc do not end normally without having asked",
                  "no exit(0) after a failure"]
    errf = messages(prog, res)
    with res.guard("XML that breaks off"): breaks_off(prog, res)
    with res.guard("validity of the dictionary"): consulted(prog, res)
    for k in sorted(enders(prog)):
        f = prog.fns[k]; res.count("functions_that_end_the_run")
        for n in fnodes(f):
            if n.k in CALLS and n.a.get("nr") and base(n) in ("exit", "_exit", "quick_exit", "_Exit") and cargs(n) and const_of(cargs(n)[0]) == 0:
                res.violation("%s|exit0" % f.qn, "%s: %s reports success when it ends the run" % (where(n), f.qn))
    for q in ("FSTProcessor::valid", "Compiler::valid"):
        for g in prog.fnall(q): errf.add(g.key)
    opens = reaching(prog, OPENERS); reads = reaching(prog, {"xmlTextReaderRead"})
    setters = cli.find_setters(prog)
    mains = {f.file[:-3]: f for f in prog.fnall("main")}
    for tool in list(cli.DECL) + ["lt_tmxcomp"]:
        f = mains.get(tool)
        if f is None: raise AnalysisBroken("no main() in %s.cc" % tool)
        if tool == "lt_tmxcomp": cs = [cli.config(argc=4, optind=1)]
        else: cs = list(failconfigs(tool))
        sites = set(); done = 0; err = None
        for c in cs:
            m = FailMain(prog, f, c, setters, opens, reads, errf)
            env = {}
            for q in f.params:
                if q.n == "argv": env[(q.d,)] = ("sym", "argv")
                elif q.n == "argc" and "argc" in c: env[(q.d,)] = c["argc"]
            try: Flow(prog, m).run(f, m.mk(env))
            except AnalysisBroken as e: err = e; continue
            done += 1
            sites |= m.sites
            if tool in ("lt_proc", "lt_tmxproc"):
                res.count("validity_checks")
                if m.unasked: res.violation("%s|unasked" % tool, "lttoolbox/%s.cc with %s: ends normally without having asked whether the transducers are valid" % (tool, cli.cl(c) or "no options"))
            for x, how in m.bad:
                res.violation("%s|%s|%s" % (tool, x[1], x[2].split(":")[0]), "lttoolbox/%s.cc with %s: %s (%s) ends with %s" % (tool, cli.cl(c) or "no options", x[1], x[2], how))
        if not done: res.sample("not_analysed", "%s: %s" % (tool, err))
        res.count("tools", 1 if done else 0); res.count("failure_points", len(sites)); res.count("command_lines", done)
    if not res.cov.get("failure_points"): raise AnalysisBroken("no tool could be analysed")

def failconfigs(tool):
    opts, nf, req = cli.DECL[tool]
    fl = {"lt_comp": [{0: "lr"}, {0: "rl"}], "lt_restrict": [{0: "lr"}]}.get(tool, [{}])
    for f in fl:
        for x in ((True, False) if tool == "lt_comp" else (True,)):
            yield cli.config((), {}, f, {}, xml=x)
    if tool == "lt_proc":
        for o in cli.MODES: yield cli.config((o,))
        yield cli.config((), {"ignored-chars": ["v1"]}); yield cli.config((), {"restore-chars": ["v1"]})
