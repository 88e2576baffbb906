"""P20: failures are announced and end the run (statement outcome analysis, exception handlers, failure results).

For each statement list the ways control can leave it (fall through, return, raise, exit with success or failure) are computed, with callees that never return resolved. Reported: an error announcement after which the run can go on or end with success; exits with success status from blocks that do nothing but print or outside the command modules; exits and raises that depend on verbosity; handlers around reading or computing code that neither raise, exit, recover nor print; exceptions built and not raised; finally blocks that discard exceptions; failure results (False) that callers ignore, store as results or test against a value that is never returned."""
import ast, re
import builtins
import pyx
from common import Broken
from pyx import subterms

QUIET = {"print", "flush", "write", "print_end_phono3py", "print_end", "warn", "format", "join"}
IO = {"open", "load", "loadtxt", "File", "genfromtxt", "safe_load", "full_load", "read", "parse", "listdir", "lzma", "fromfile", "get_io_module_to_decompress"}
FALLBACK = {"ImportError", "ModuleNotFoundError"}


def verbose_name(s):
    s = s.lower().lstrip("_")
    return s in ("log_level", "verbose", "is_verbose", "verbosity", "quiet", "loglevel")


def verbose_expr(e):
    """A test that looks at nothing but the verbosity."""
    ns = [n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute)) and not (isinstance(n, ast.Name) and n.id == "self")]
    return bool(ns) and all(verbose_name(x) for x in ns)


class Flow:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.calls = {}

    def target(self, f, node):
        if f.qual not in self.calls:
            self.calls[f.qual] = {id(e.node): e for e in self.p.events(f) if e.kind == "call"}
        return self.calls[f.qual].get(id(node))

    def name(self, f, node):
        e = self.target(f, node)
        c = e.t[1] if e is not None else None
        if c is not None and c[0] in ("func", "ext", "class", "builtin"):
            return c[1].rsplit(".", 1)[-1]
        fn = node.func
        return fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None

    def func(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = {"fall"}
        self.memo[f.qual] = self.block(f, f.node.body) if isinstance(getattr(f.node, "body", None), list) else {"fall"}
        return self.memo[f.qual]

    def status(self, c):
        a = c.args[0] if c.args else None
        if a is None or isinstance(a, ast.Constant) and a.value in (0, None, False):
            return "exit0"
        if isinstance(a, ast.Constant):
            return "exit1"
        return "exit?"

    def call(self, f, c):
        if pyx.is_exit(c):
            return {self.status(c)}
        e = self.target(f, c)
        if e is None or e.t[1][0] == "ext":
            return {"fall"}
        ts, complete = self.p.targets(e.t[1], f)
        if not ts or not complete or any(ctor for _, ctor in ts):
            return {"fall"}
        out = set()
        for g, _ in ts:
            if g not in own(self.p) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(g.node)):
                return {"fall"}
            o = self.func(g)
            out |= ({"fall"} if o & {"fall", "return"} else set()) | (o - {"fall", "return", "raise"})
        return out or {"raise"}

    def block(self, f, body):
        out = set()
        for st in body:
            o = self.stmt(f, st)
            out |= o - {"fall"}
            if "fall" not in o:
                return out
        return out | {"fall"}

    def stmt(self, f, st):
        if isinstance(st, ast.Return):
            return {"return"}
        if isinstance(st, ast.Raise):
            return {"raise"}
        if isinstance(st, (ast.Break, ast.Continue)):
            return {"loop"}
        if isinstance(st, ast.If):
            if verbose_expr(st.test):
                o = self.block(f, st.body) | self.block(f, st.orelse)
                return o
            return self.block(f, st.body) | self.block(f, st.orelse)
        if isinstance(st, (ast.For, ast.While)):
            o = self.block(f, st.body)
            r = (o - {"fall", "loop"}) | self.block(f, st.orelse)
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and "loop" not in o:
                return r - {"fall"}
            return r
        if isinstance(st, ast.Try):
            o = self.block(f, st.body)
            for h in st.handlers:
                o |= self.block(f, h.body)
            if "fall" in o and st.orelse:
                o = (o - {"fall"}) | self.block(f, st.orelse)
            fin = self.block(f, st.finalbody)
            return (o | fin) if "fall" in fin else fin
        if isinstance(st, ast.With):
            return self.block(f, st.body)
        if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)) and getattr(st, "value", None) is not None:
            out = {"fall"}
            for c in ast.walk(st.value):
                if isinstance(c, ast.Call):
                    o = self.call(f, c)
                    out |= o
                    if "fall" not in o:
                        return out - {"fall"} | o
            return out
        return {"fall"}


_own = {}


def own(p):
    if id(p) not in _own:
        _own[id(p)] = set(p.own_funcs())
    return _own[id(p)]


def parents(f):
    up = {}
    for n in ast.walk(f.node):
        for fld, v in ast.iter_fields(n):
            for i, c in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    up[c] = (n, fld, i)
    return up


def own_nodes(f):
    """Nodes of the function without those of nested functions."""
    stack = list(f.node.body) if isinstance(getattr(f.node, "body", None), list) else []
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def stmt_of(n, up):
    while n in up and not isinstance(n, ast.stmt):
        n = up[n][0]
    return n


def after(F, f, st, up):
    """Outcomes of what follows a statement, to the end of the function."""
    out = set()
    while True:
        par, fld, i = up[st]
        if isinstance(getattr(par, fld), list):
            o = F.block(f, getattr(par, fld)[i + 1:])
            out |= o - {"fall", "loop"}
            if "loop" in o:
                o = {"fall"}
                while not isinstance(par, (ast.For, ast.While)) and par in up:
                    par = up[par][0]
            if "fall" not in o:
                return out
        if par is f.node:
            return out | {"end"}
        if isinstance(par, ast.ExceptHandler):
            par = up[par][0]
        if isinstance(par, ast.Try) and fld == "body" and par.orelse:
            o = F.block(f, par.orelse)
            out |= o - {"fall"}
            if "fall" not in o:
                return out
        if isinstance(par, ast.Try) and par.finalbody and fld != "finalbody":
            o = F.block(f, par.finalbody)
            out |= o - {"fall"}
            if "fall" not in o:
                return out
        st = par


def run(R):
    p = pyx.project()
    F = Flow(p)
    R.explanation = "How control leaves the statements after error messages, in exception handlers and after calls that report failure by their result."
    R.assumptions = ["print_error of phonopy announces an error of the run", "a handler for a missing optional module is a fallback"]
    helpers = announcers(p, F)
    R.count("error announcers", len(helpers))
    fail = failing(p, F)
    for f in p.own_funcs():
        if f.node is None or not isinstance(getattr(f.node, "body", None), list):
            continue
        R.count("functions")
        up = parents(f)
        announced(R, p, F, f, up, helpers)
        exits(R, p, F, f, up)
        complaints(R, p, F, f, up)
        handlers(R, p, F, f, up)
        results(R, p, F, f, up, fail)
    R.require("functions", 500)
    R.require("error announcements", 10)
    R.require("exits", 20)
    R.require("exception handlers", 15)


def announcers(p, F):
    """Own functions that do nothing conditional but announce an error and come back."""
    out = {"print_error", "print_error_message"}
    for f in p.own_funcs():
        if not isinstance(getattr(f.node, "body", None), list):
            continue
        work = list(f.node.body)
        while work:
            st = work.pop()
            if isinstance(st, ast.If) and verbose_expr(st.test):
                work += st.body
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and F.name(f, st.value) in out and "fall" in F.func(f):
                out.add(f.name)
    return out


def announced(R, p, F, f, up, helpers):
    if f.name in helpers:
        return
    for n in own_nodes(f):
        if isinstance(n, ast.Call) and F.name(f, n) in helpers:
            R.count("error announcements")
            o = after(F, f, stmt_of(n, up), up)
            bad = o & {"end", "exit0", "return"}
            if bad:
                R.report("goes-on-after-error", f.qual, context(n, up, f), "after announcing an error the run can %s" % " or ".join(sorted({"end": "go on", "return": "go on", "exit0": "end with success status"}[b] for b in bad)), n.lineno)


COMPLAINT = re.compile(r"could not|couldn't|cannot|can't|not found|inconsistent|n't match|invalid|\bwrong|failed|incorrect|"
                       r"(has|have) to be|must be|not well|^# ?no |^no [\"']|n.t exist|not exist|missing|unable to|not supported|n't support|broken", re.I)


def complaints(R, p, F, f, up):
    """In the command-line modules: a text saying that something is missing or wrong, after which the run never fails."""
    cui = f.module.name.startswith("phono3py.cui")
    if all(printing(F, f, st) for st in f.node.body):
        return
    for n in own_nodes(f):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print"):
            continue
        s = " ".join(x.value for a in n.args for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        if not COMPLAINT.search(s):
            continue
        st = stmt_of(n, up)
        if not cui and not gives_up(st, up):
            continue
        R.count("complaints")
        o = after(F, f, st, up)
        if not o & {"end", "return", "exit0"} or o & {"exit1", "raise", "exit?"} and fails_later(F, f, st, up):
            continue
        if not stays(F, st, up, f) and used_or_failing(p, F, f):
            continue
        R.report("complaint", f.qual, context(n, up, f), "the run says \"%s\" and then goes on without failing" % s.strip()[:60], n.lineno)


def gives_up(st, up):
    """The block of the statement ends with a return of nothing."""
    par, fld, i = up[st]
    b = getattr(par, fld)
    return isinstance(par, ast.If) and isinstance(b, list) and isinstance(b[-1], ast.Return) and \
        (b[-1].value is None or isinstance(b[-1].value, ast.Constant) and b[-1].value.value is None)


def words_of(test):
    return {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(test) if isinstance(x, (ast.Name, ast.Attribute))}


def fails_later(F, f, st, up):
    """Behind the statement the run fails at once, or under a test of something the complaint depends on."""
    guards = set()
    n = st
    while n in up:
        par = up[n][0]
        if isinstance(par, ast.If) and not verbose_expr(par.test):
            guards |= words_of(par.test)
        elif isinstance(par, (ast.ExceptHandler, ast.For, ast.While)):
            return True
        n = par
        if n is f.node:
            break
    while True:
        par, fld, i = up[st]
        if isinstance(getattr(par, fld), list):
            for x in getattr(par, fld)[i + 1:]:
                o = F.stmt(f, x)
                if not o & {"exit1", "raise", "exit?"}:
                    continue
                if "fall" not in o or isinstance(x, ast.If) and (verbose_expr(x.test) or words_of(x.test) & guards):
                    return True
        if par is f.node:
            return False
        st = par


def stays(F, st, up, f):
    """Whether control passes from a statement to the code behind the branch it stands in."""
    while True:
        par, fld, i = up[st]
        if isinstance(getattr(par, fld), list):
            if "fall" not in F.block(f, getattr(par, fld)[i + 1:]):
                return False
        if par is f.node or not (isinstance(par, ast.If) and verbose_expr(par.test)):
            return par is not f.node
        st = par


def used_or_failing(p, F, f):
    """Callers take the result of f, or fail after the call."""
    for g, e in ((x[0].fn, x[0]) for x in p.call_sites().get(f.qual, [])):
        if not isinstance(getattr(g.node, "body", None), list):
            return True
        up = parents(g)
        st = stmt_of(e.node, up)
        if not (isinstance(st, ast.Expr) and st.value is e.node):
            return True
        if after(F, g, st, up) & {"exit1", "raise"}:
            return True
    return False


def context(n, up, f):
    """Nearest non-verbosity test the node stands under."""
    while n in up:
        par, fld, _ = up[n]
        if isinstance(par, ast.If) and not verbose_expr(par.test):
            return ("not " if fld == "orelse" else "") + ast.unparse(par.test)[:80]
        if isinstance(par, ast.ExceptHandler):
            return "except " + (ast.unparse(par.type) if par.type else "")
        n = par
        if n is f.node:
            break
    return "body"


def printing(F, f, st):
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
        return F.name(f, st.value) in QUIET or F.name(f, st.value) in ("print_error", "print_error_message")
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
        return True
    if isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass)):
        return True
    if isinstance(st, ast.If) and verbose_expr(st.test):
        return all(printing(F, f, x) for x in st.body + st.orelse)
    if isinstance(st, ast.Assign) and isinstance(st.value, (ast.JoinedStr, ast.Constant, ast.BinOp)) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        return True
    return False


def exits(R, p, F, f, up):
    mod = f.module.name
    command = mod.startswith("phono3py.cui") or ".scripts." in mod
    for n in own_nodes(f):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and pyx.is_exit(n):
            k = stmt_of(n, up)
            par = up.get(k)
            v = k
            while v in up and v is not f.node:
                q, fld, _ = up[v]
                if isinstance(q, ast.If) and mentions_verbosity(q.test) and (isinstance(n, ast.Raise) or F.status(n) != "exit0") and v is not q.test:
                    if not isinstance(n, ast.Raise) or True:
                        o = after(F, f, q, up) if not (q.orelse and fld == "body") else F.block(f, q.orelse)
                        if fld == "body" and not q.orelse or "fall" in o or o & {"end", "return", "exit0"}:
                            if o & {"end", "return", "exit0", "fall"}:
                                R.report("silent-failure", f.qual, context(n, up, f), "the run stops here only at some verbosity levels", n.lineno)
                    break
                v = q
        if not (isinstance(n, ast.Call) and pyx.is_exit(n)):
            continue
        R.count("exits")
        if F.status(n) != "exit0":
            continue
        if not command:
            R.report("success-status", f.qual, context(n, up, f), "calculation code ends the program with success status", n.lineno)
            continue
        st = stmt_of(n, up)
        par, fld, i = up[st]
        if par is f.node:
            continue
        body = getattr(par, fld)
        if isinstance(body, list) and all(printing(F, f, x) for x in body[:i]) and not isinstance(par, (ast.For, ast.While, ast.With)):
            if isinstance(par, ast.Try) and fld == "body":
                continue
            if isinstance(par, ast.If) and i == 0 and not any(isinstance(x, ast.Expr) for x in body[:i]):
                continue
            R.report("success-status", f.qual, context(n, up, f), "the run stops with a message but with success status", n.lineno)


def mentions_verbosity(e):
    return any(isinstance(n, (ast.Name, ast.Attribute)) and verbose_name(n.attr if isinstance(n, ast.Attribute) else n.id) for n in ast.walk(e))


def types_of(h):
    if h.type is None:
        return {"BaseException"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?") for t in ts}


def working(p, F, f, body):
    """Does the block read input or call the package's own code?"""
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call):
                nm = F.name(f, n)
                if nm in IO:
                    return "reads input"
                e = F.target(f, n)
                if e is not None:
                    ts, _ = p.targets(e.t[1], f)
                    if any(g in own(p) for g, _ in ts):
                        return "calls " + nm
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                # a lookup in data read from a file
                b = n.value
                if isinstance(b, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    return "looks up data"
    return None


def handlers(R, p, F, f, up):
    for n in own_nodes(f):
        if isinstance(n, ast.Try):
            w = working(p, F, f, n.body)
            for st in n.finalbody:
                for x in ast.walk(st):
                    if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not any(isinstance(y, (ast.For, ast.While)) and x in ast.walk(y) for y in ast.walk(st)):
                        R.report("finally-discards", f.qual, context(n, up, f), "leaving the finally block this way discards a pending exception", x.lineno)
            for h in n.handlers:
                R.count("exception handlers")
                ts = types_of(h)
                if ts <= FALLBACK and all(isinstance(x, (ast.Pass, ast.Continue)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in h.body) and \
                        any(isinstance(y, ast.Call) for x in n.body for y in ast.walk(x)):
                    R.report("swallowed", f.qual, "except " + ", ".join(sorted(ts)) + " around calls",
                             "what could not be computed is neither reported nor computed in another way", h.lineno)
                if ts <= FALLBACK or w is None:
                    continue
                o = F.block(f, h.body)
                if not o & {"fall", "return", "loop", "exit0"}:
                    continue
                says, does = False, False
                for st in h.body:
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and F.name(f, st.value) in ("print", "warn", "print_error", "write"):
                        says = True
                    for x in ast.walk(st):
                        if isinstance(x, ast.Call) and F.name(f, x) not in QUIET | {"str", "repr", "type"}:
                            e = F.target(f, x)
                            tt = p.targets(e.t[1], f)[0] if e is not None else []
                            if any(g in own(p) for g, _ in tt) or F.name(f, x) in IO or passes(h, x):
                                does = True
                broad = ts & {"Exception", "BaseException", "OSError", "IOError", "FileNotFoundError", "PermissionError", "KeyError", "ValueError", "RuntimeError", "IndexError", "LookupError", "EOFError", "AttributeError", "TypeError"} or not ts <= FALLBACK
                wide = ts & {"Exception", "BaseException", "OSError", "IOError", "RuntimeError", "LookupError"}
                if not broad or does and (says or consumed(h) or not wide):
                    continue
                reading = w in ("reads input", "looks up data") or any(x in w for x in ("read", "load", "parse", "get_forces"))
                if "exit0" in o:
                    R.report("swallowed", f.qual, "except " + ", ".join(sorted(ts)) + " around: " + w, "the handler ends the run with success status", h.lineno)
                elif not says or reading and not o & {"return"} and not consumed(h):
                    R.report("swallowed", f.qual, "except " + ", ".join(sorted(ts)) + " around: " + w, "the exception is dropped and the run goes on", h.lineno)
        elif isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.context_expr, ast.Call) and F.name(f, it.context_expr) == "suppress":
                    w = working(p, F, f, n.body)
                    if w:
                        R.report("swallowed", f.qual, "suppress around: " + w, "exceptions are dropped and the run goes on", n.lineno)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            nm = F.name(f, n.value)
            b = getattr(builtins, nm or "", None)
            if isinstance(b, type) and issubclass(b, BaseException) and isinstance(n.value.func, ast.Name):
                R.report("not-raised", f.qual, context(n, up, f), "the exception %s is created and not raised" % nm, n.lineno)


def passes(h, call):
    return h.name and any(isinstance(x, ast.Name) and x.id == h.name for a in call.args + [k.value for k in call.keywords] for x in ast.walk(a))


def consumed(h):
    return h.name and any(isinstance(x, ast.Name) and x.id == h.name for st in h.body for x in ast.walk(st))


def failing(p, F):
    """qual -> 'status' (returns only truth values or the like) / 'mixed' (False or a result)."""
    out = {}
    for f in p.own_funcs():
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f)):
            continue
        vs = []
        for e in p.returns(f):
            vs += list(pyx.alts(e.t)) if e.t is not None else [("c", None)]
        if vs and "fall" in F.func(f) and set(vs) <= {("c", False), ("list", ()), ("c", None)} and set(vs) != {("c", None)}:
            out[f.qual] = "status"          # a value only where the work was given up
            continue
        if ("c", False) not in vs:
            continue
        rest = [v for v in vs if v != ("c", False)]
        consts = [v for v in rest if v[0] == "c"]
        if not rest:
            continue
        if f.is_property or f.name.startswith("__") or f.name.startswith(("is_", "_is_", "has_", "_has_")):
            continue
        boolish = [v for v in rest if v[0] in ("op", "not", "cmp", "bool")]
        if boolish:
            continue
        out[f.qual] = "status" if len(consts) == len(rest) or any(v[0] == "c" and v[1] for v in rest) else "mixed"
    return out


def noneable(p, F, g):
    """Returns None besides results that are never false."""
    if g not in own(p):
        return False
    vs = []
    for e in p.returns(g):
        vs += list(pyx.alts(e.t)) if e.t is not None else [("c", None)]
    rest = [v for v in vs if v != ("c", None)]
    return bool(rest) and len(rest) < len(vs) and all(v[0] in ("tuple", "dict", "fstr") for v in rest)


def consts(p, f, fall):
    """Constants a function can return, or None when something else may come back."""
    vs = set()
    for e in p.returns(f):
        for v in (pyx.alts(e.t) if e.t is not None else [("c", None)]):
            vs.add(v)
    if fall:
        vs.add(("c", None))
    return vs


def never(v, c):
    """Is term v certainly not the constant c?"""
    if v[0] == "c":
        return type(v[1]) is not type(c) or v[1] != c
    return v[0] in ("tuple", "list", "dict", "set", "fstr", "comp")


def results(R, p, F, f, up, fail):
    evs = p.events(f)
    tested = set()
    for e in evs:
        for c, _ in e.conds:
            tested |= set(subterms(c))
        if e.kind in ("if", "assert", "return", "while"):
            for t in e.t if isinstance(e.t, tuple) and e.t and isinstance(e.t[0], tuple) else [e.t]:
                if isinstance(t, tuple):
                    tested |= set(subterms(t))
    for n in own_nodes(f):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            e = F.target(f, n.value)
            if e is None:
                continue
            ts, complete = p.targets(e.t[1], f)
            if ts and complete and all(fail.get(g.qual) for g, _ in ts):
                R.report("ignored-failure", f.qual, ts[0][0].name, "the call tells by its result whether it failed, and the result is dropped", n.lineno)
    for e in evs:
        if e.kind == "call":
            ts, complete = p.targets(e.t[1], f)
            if ts and complete and any(fail.get(g.qual) == "mixed" for g, _ in ts):
                R.count("calls with failure results")
                if e.t not in tested and not any(e.t == x.t for x in evs if x.kind == "return"):
                    g = [g for g, _ in ts if fail.get(g.qual) == "mixed"][0]
                    R.report("failure-as-result", f.qual, g.name, "the call returns False when it fails, which is used as its result", e.line)
    # tests that cannot succeed
    for n in own_nodes(f):
        if not (isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq)) and isinstance(n.comparators[0], ast.Constant)):
            continue
        c = n.comparators[0].value
        if c is not None and not isinstance(c, bool):
            continue
        t = term_of(p, f, n, evs)
        if t is None or t[0] != "call":
            continue
        ts, complete = p.targets(t[1], f)
        if not ts or not complete or any(ctor for _, ctor in ts):
            continue
        R.count("tests of results")
        possible = False
        for g, _ in ts:
            if g not in own(p) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(g)) or g.abstract:
                possible = True
                break
            vs = consts(p, g, "fall" in F.func(g))
            if any(not never(v, c) for v in vs):
                possible = True
        if not possible:
            R.report("impossible-test", f.qual, ts[0][0].name, "%s never returns %r, so the failure goes unnoticed" % (ts[0][0].name, c), n.lineno)
    # success reported after a failure, and the other way round
    for e in evs:
        if e.kind == "return" and e.t in (("c", True), ("c", False)) and e.conds:
            c, b = e.conds[-1]
            while c[0] == "not" or c[0] == "op" and c[1] == "not":
                c, b = c[-1] if c[0] == "op" else c[1], not b
            if c[0] == "op" and c[1] == "is" and c[3] in (("c", None), ("c", False)):
                c, b = c[2], not b
            if c[0] != "call":
                continue
            ts, complete = p.targets(c[1], f)
            if ts and complete and all(fail.get(g.qual) or noneable(p, F, g) for g, _ in ts) and e.t[1] != b:
                R.report("status-inverted", f.qual, ts[0][0].name, "%s is returned where the call %s" % (e.t[1], "succeeded" if b else "failed"), e.line)
    # a failure result whose only consequence is a message
    for n in own_nodes(f):
        if isinstance(n, ast.If):
            t = None
            for e in evs:
                if e.kind == "if" and e.node is n:
                    t = e.t
            if t is None:
                continue
            neg = t[0] == "not" or t[0] == "op" and t[1] == "not"
            x = (t[2] if t[0] == "op" else t[1]) if neg else t
            if x[0] == "op" and x[1] in ("is", "==") and len(x) > 3 and x[3][0] == "c" and x[3][1] in (False, None):
                neg, x = True, x[2]
            if x[0] != "call" or not neg:
                continue
            ts, complete = p.targets(x[1], f)
            if ts and complete and any(fail.get(g.qual) for g, _ in ts) and all(printing(F, f, st) for st in n.body) and "fall" in F.block(f, n.body):
                R.report("ignored-failure", f.qual, ts[0][0].name, "the failure is announced and the run goes on", n.lineno)


def term_of(p, f, n, evs):
    for e in evs:
        for c, _ in e.conds:
            if c[0] == "op" and c[1] in ("is", "is not", "=="):
                pass
    for e in evs:
        if e.kind == "if":
            for s in subterms(e.t):
                if s[0] == "op" and s[1] in ("is", "is not", "==") and len(s) > 3 and s[3] == ("c", n.comparators[0].value) and any(x is n for x in ast.walk(e.node.test if hasattr(e.node, "test") else e.node)):
                    return s[2]
    return None
