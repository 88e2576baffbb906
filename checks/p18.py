"""P18: hidden inputs (clock, environment, unordered containers, uninitialised memory, mutable global state) and the flow of the random seed.

Kernels: symbolic execution with callees inlined; every read of scratch memory is compared with the stores that can precede it, writes to static storage and calls of clock/random/environment functions are reported. Python: sources of values that differ between equal runs are followed to the places they are used; arrays allocated uninitialised must be filled; the seed given by the user must reach the generator under every condition."""
import ast
from concurrent.futures import ProcessPoolExecutor
import cfront, csym, init, kern, pyx, mutate, p02, p05, p15
from common import Broken
from cfront import strip, callee, args

HIDDEN_C = {"rand", "random", "drand48", "lrand48", "srand", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "getpid",
            "omp_get_wtime", "arc4random", "rand_r"}


# ---------------------------------------------------------------- kernels
def label(ex, b):
    r, _ = init.root(b)
    nm = ex.bases.get(b, {}).get("name", "?")
    return ("heap block of %s" % r[2] + ("" if b == r else " (." + str(b[2]) + ")")) if r[0] == "heap" else "'%s'" % nm


def one(name):
    p = cfront.load("default")
    f = next(x for x in p02.roots(p) if "%s:%s" % (x.file, x.name) == name)
    ex = csym.Exec(p)
    try:
        ex.run_root(f)
    except csym.Abort as e:
        return name, "abort %s" % e, [], {}, {}, []
    I = init.Init(ex)
    rep, cnt, und = [], {}, []

    def c(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    for v, fn, vid, nm, e in ex.uninits:
        if v == csym.UNINIT and not fn.name.startswith("step"):
            rep.append(("uninitialised-variable", fn.file, "%s: '%s'" % (fn.name, nm), "read before it is assigned on any path", e.line))
        elif v == csym.MAYBE:
            t = only_sometimes(fn, vid, e)
            if t:
                rep.append(("uninitialised-variable", fn.file, "%s: '%s'" % (fn.name, nm), t, e.line))
    by, par = {}, {}
    for a in ex.accs:
        r, ind = init.root(a.base)
        if r[0] in ("heap", "local") and not ind and r not in ex.inited:
            by.setdefault(a.base, []).append(a)
        elif r[0] == "param":
            par.setdefault(a.base, []).append(a)
    done = set()
    for b, l in by.items():
        if b in ex.escaped or init.root(b)[0] in ex.escaped:
            c("blocks handed to external routines")
            continue
        c("scratch blocks")
        W = [a for a in l if a.kind == "w" and not a.rmw]
        for r in l:
            if not (r.kind == "r" or r.rmw) or r.size is None:
                continue
            k = (init.root(b)[0][1:4], b[2:] if b[0] == "field" else None, r.line, r.fn.name, r.txt, r.off.c() if r.off.isconst() else None)
            if k in done:
                continue
            x, u = I.read(b, r, W)
            if u == "empty" and not x and r.dead():
                continue
            done.add(k)
            c("reads of scratch memory")
            if x:
                rep.append(("uninitialised-memory", r.fn.file, "%s: %s" % (r.fn.name, label(ex, b)), "'%s': %s" % (r.txt[:60], x), r.line))
            elif u:
                und.append("%s:%s %s (%s)" % (r.fn.name, r.line, r.txt[:40], u[:60]))
            else:
                c("reads proved initialised")
    need = {}
    if f.name.startswith(("ph3py_", "phcalc_", "recgrid_", "dym_")):
        for b, l in par.items():
            if not any(a.kind == "w" for a in l) or b in ex.escaped:
                continue
            W = [a for a in l if a.kind == "w" and not a.rmw]
            why = None
            seen = set()
            for r in l:
                if (r.kind == "r" or r.rmw) and r.size is not None:
                    k = (r.line, r.fn.name, r.txt)
                    if k in seen:
                        continue
                    x, u = I.read(b, r, W)
                    if u == "empty" and not x and r.dead():
                        continue
                    seen.add(k)
                    if x:
                        why = "reads it (%s, '%s')" % (r.fn.name, r.txt[:50])
                        break
            if why is None:
                w = I.partial(b, W)
                if w is not None:
                    why = "fills it only under a condition (%s, '%s')" % (w.fn.name, w.txt[:50])
            c("output arguments of kernels")
            if why:
                need[init.root(b)[0][2]] = why
    return name, None, rep, cnt, need, und


def only_sometimes(fn, vid, e):
    """The single assignment of a variable stands in an if-branch that does not contain the read."""
    up = {}
    for n in fn.body.walk():
        for k in n.kids:
            if k is not None:
                up[id(k)] = n
    ws = []
    for n in fn.body.walk():
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.op == "=" or n.k == "CompoundAssignOperator"):
            l = strip(n.kids[0])
            if l is not None and l.k == "DeclRefExpr" and l.ref == vid:
                ws.append(n)
        if n.k == "UnaryOperator" and n.op == "&":
            l = strip(n.kids[0])
            if l is not None and l.k == "DeclRefExpr" and l.ref == vid:
                return None
        if n.k == "UnaryOperator" and n.op in ("++", "--"):
            l = strip(n.kids[0])
            if l is not None and l.k == "DeclRefExpr" and l.ref == vid:
                ws.append(n)
    if len(ws) != 1:
        return None

    def chain(n):
        out = []
        while id(n) in up:
            q = up[id(n)]
            out.append((q, n))
            n = q
        return out
    rd = {id(q) for q, _ in chain(e)}
    for q, child in chain(ws[0]):
        if id(q) in rd:
            break
        if q.k == "IfStmt" and child is not q.kids[0]:
            return "assigned only under a condition, and read without it"
        if q.k in ("WhileStmt", "DoStmt", "ForStmt", "SwitchStmt"):
            return None
    return None


def statics(R, p):
    """Writes to storage that outlives the call."""
    for f in p.all_funcs():
        R.count("C functions")
        stat = {}
        for n in f.body.walk():
            if n.k == "VarDecl" and n.ex == "static":
                stat[n.id] = n
        loc = {n.id for n in f.body.walk() if n.k == "VarDecl"} | {q[2] for q in f.params}
        for n in f.body.walk():
            tgt = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.op == "=" or n.k == "CompoundAssignOperator"):
                tgt = n.kids[0]
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                tgt = n.kids[0]
            elif n.k == "CallExpr":
                c = callee(n)
                if c in HIDDEN_C and p.resolve(c, f.file) is None:
                    R.report("hidden-input", f.file, "%s: %s()" % (f.name, c), "kernel reads the clock, the environment or random numbers", n.line)
                g = p.resolve(c, f.file) if c else None
                for i, a in enumerate(args(n)):
                    a0 = strip(a)
                    if a0 is not None and a0.k == "UnaryOperator" and a0.op == "&":
                        a0 = strip(a0.kids[0])
                    ty = g.params[i][1] if g is not None and i < len(g.params) else None
                    if a0 is not None and a0.k == "DeclRefExpr" and a0.refk == "VarDecl" and ("*" in a.t or "[" in a.t) and ty and \
                            ("*" in ty or "[" in ty) and "const" not in ty.split("*")[0] and (a0.ref in stat or a0.ref not in loc):
                        if writes(p, g, i):
                            R.report("static-state", f.file, "%s: '%s'" % (f.name, a0.name),
                                     "storage that outlives the call is filled by %s" % c, n.line)
                continue
            if tgt is None:
                continue
            t = strip(tgt)
            while t is not None and t.k in ("ArraySubscriptExpr", "MemberExpr", "ParenExpr", "ImplicitCastExpr") or \
                    t is not None and t.k == "UnaryOperator" and t.op == "*":
                if t.k == "MemberExpr" and t.ex:
                    q = strip(t.kids[0])
                    if q is None or q.k != "DeclRefExpr":
                        t = q
                        continue
                t = strip(t.kids[0])
            if t is not None and t.k == "DeclRefExpr" and t.refk == "VarDecl":
                R.count("C assignments")
                if t.ref in stat or t.ref not in loc:
                    R.report("static-state", f.file, "%s: '%s'" % (f.name, t.name),
                             "a variable that outlives the call is assigned: results can depend on earlier calls", n.line)


def writes(p, g, i, depth=0):
    if depth > 4:
        return False
    pid = g.params[i][2]
    for n in g.body.walk():
        tgt = None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.op == "=" or n.k == "CompoundAssignOperator") or \
                n.k == "UnaryOperator" and n.op in ("++", "--"):
            tgt = strip(n.kids[0])
            ind = False
            while tgt is not None and (tgt.k in ("ArraySubscriptExpr", "MemberExpr", "ParenExpr", "ImplicitCastExpr") or tgt.k == "UnaryOperator" and tgt.op == "*"):
                ind = ind or tgt.k != "ImplicitCastExpr"
                tgt = strip(tgt.kids[0])
            if ind and tgt is not None and tgt.k == "DeclRefExpr" and tgt.ref == pid:
                return True
        elif n.k == "CallExpr":
            h = p.resolve(callee(n), g.file) if callee(n) else None
            if h is None:
                continue
            for j, a in enumerate(args(n)):
                a0 = strip(a)
                while a0 is not None and a0.k in ("ArraySubscriptExpr",):
                    a0 = strip(a0.kids[0])
                if a0 is not None and a0.k == "DeclRefExpr" and a0.ref == pid and j < len(h.params) and \
                        "const" not in h.params[j][1].split("*")[0] and writes(p, h, j, depth + 1):
                    return True
    return False


def kernels(R):
    p = cfront.load("default")
    statics(R, p)
    names = ["%s:%s" % (f.file, f.name) for f in p02.roots(p) if not f.name.startswith(("step", "niggli_get"))]
    big = [n for n in names if "snf" in n or "pp_collision" in n or "get_interaction" in n]
    names = big + [n for n in names if n not in big]
    need = {}
    with ProcessPoolExecutor(8) as pool:
        for name, err, rep, cnt, nd, und in pool.map(one, names):
            if err:
                raise Broken("%s: %s" % (name, err))
            R.count("kernel entry points")
            for r in rep:
                R.report(*r)
            for k, v in cnt.items():
                R.count(k, v)
            for a, why in nd.items():
                need[(name.split(":")[1], a)] = why
            R.undecided += und
    R.require("kernel entry points", 60)
    R.require("reads of scratch memory", 1000)
    if R.counts["reads proved initialised"] < 0.45 * R.counts["reads of scratch memory"]:
        raise Broken("only %d of %d reads could be decided" % (R.counts["reads proved initialised"], R.counts["reads of scratch memory"]))
    return need


def actuals(k, protos):
    """{formal of the wrapper: [(C function, parameter name)]}"""
    loc, out = {}, {}
    for n in k.fn.body.walk():
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "VarDecl" and n.kids:
            if n.k == "VarDecl":
                lhs, rhs = n.name, n.kids[-1]
            else:
                l = strip(n.kids[0])
                lhs, rhs = (l.name if l is not None and l.k == "DeclRefExpr" else None), n.kids[1]
            src = [x.name for x in rhs.walk() if x.k == "DeclRefExpr" and x.name in k.formals]
            if lhs and len(set(src)) == 1:
                loc[lhs] = src[0]
    for n in k.fn.body.walk():
        if n.k == "CallExpr":
            g = protos.get(callee(n))
            if g is None:
                continue
            for pr, a in zip(g.params, args(n)):
                a = strip(a)
                nm = a.name if a is not None and a.k == "DeclRefExpr" else None
                if nm in loc:
                    out.setdefault(loc[nm], []).append((g.name, pr[0]))
    return out


# ---------------------------------------------------------------- Python
EMPTY = {"numpy.empty", "numpy.empty_like", "numpy.ndarray"}
CLOCK = ("time.", "datetime.", "os.getpid", "os.environ", "os.getenv", "os.urandom", "uuid.", "getpass.", "platform.", "socket.",
         "secrets.", "os.times", "os.cpu_count", "multiprocessing.cpu_count", "tempfile.", "psutil.", "resource.")
UNORDERED_EXT = {"os.listdir", "os.scandir", "glob.glob", "glob.iglob"}
UNORDERED_M = {"glob", "rglob", "iterdir"}
SETOPS = {"|", "&", "-", "^"}
SETM = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SAFE = {"sorted", "len", "set", "frozenset", "min", "max", "sum", "any", "all", "bool", "print"}


def is_empty(t):
    return t[0] == "call" and t[1][0] == "ext" and t[1][1] in EMPTY


def unordered(t, st=None):
    """The order of iteration of t is not determined by the inputs."""
    k = t[0]
    if k == "set":
        return len(t[1]) > 1
    if k == "comp" and t[1] == "set":
        return True
    if k == "call":
        c = t[1]
        if c[0] == "builtin" and c[1] in ("set", "frozenset") and t[2]:
            return True
        if c[0] == "ext" and c[1] in UNORDERED_EXT:
            return True
        if c[0] == "attr" and c[2] in SETM and unordered(c[1]):
            return True
        if c[0] == "attr" and c[2] in UNORDERED_M and pathlike(c[1]):
            return True
    if k == "op" and len(t) >= 4 and t[1] in SETOPS and unordered(t[2]):
        return True
    if k in ("phi", "ite"):
        return any(unordered(x) for x in pyx.alts(t) if x is not t)
    return False


def pathlike(t):
    return any(x[0] == "ext" and x[1].startswith("pathlib") for x in pyx.subterms(t))


def ordered_from(t):
    """t puts the members of an unordered collection into some order."""
    if t[0] == "call":
        c = t[1]
        if c[0] == "builtin" and c[1] in ("list", "tuple", "enumerate", "zip", "next", "iter", "map", "filter", "dict") and any(unordered(a) for a in t[2]):
            return True
        if c[0] == "attr" and c[2] == "join" and t[2] and unordered(t[2][0]):
            return True
        if c[0] == "attr" and c[2] == "pop" and not t[2] and unordered(c[1]) and c[1][0] != "phi":
            return True
        if c[0] == "ext" and c[1] in ("numpy.fromiter",) and t[2] and unordered(t[2][0]):
            return True
    if t[0] == "comp" and t[1] in ("list", "gen", "generator", "dict") and any(unordered(x[0] if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x) for x in t[3]):
        return t[1] != "dict"
    return False


def exposed(t):
    """Order-dependent subterms of t that no order-insensitive function encloses."""
    if not isinstance(t, tuple) or not t:
        return
    if t and isinstance(t[0], str):
        if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in SAFE:
            return
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("numpy.sort", "numpy.unique", "numpy.max", "numpy.min"):
            return
        if t[0] == "op" and t[1] in ("in", "not in", "not", "is", "is not"):
            return
        if ordered_from(t):
            yield t
            return
    for x in t:
        if isinstance(x, tuple):
            yield from exposed(x)


def printing(e):
    c = e.t[1]
    return c == ("builtin", "print") or c[0] == "attr" and c[2] in ("write", "flush", "info", "debug", "warning") and \
        any(x[0] == "ext" and x[1].startswith(("sys.std", "logging")) for x in pyx.subterms(c)) or \
        c[0] == "ext" and (c[1].startswith(("sys.std", "warnings.", "logging.")))


def clock(t):
    for x in pyx.subterms(t):
        if x[0] == "ext" and (x[1] + ".").startswith(CLOCK) and x[1] not in ("time", "datetime", "tempfile", "platform"):
            return x[1]
        if x[0] == "call" and x[1][0] == "builtin" and x[1][1] in ("id", "hash") and x[2]:
            return x[1][1] + "()"
    return None


def rand(t):
    """Unseeded random generator inside t."""
    for x in pyx.subterms(t):
        if x[0] == "call" and x[1][0] == "ext" and (x[1][1].startswith("numpy.random.") or x[1][1].startswith("random.") or x[1][1].startswith("scipy.stats.")):
            n = x[1][1]
            last = n.split(".")[-1]
            if last in ("default_rng", "RandomState", "seed", "Random", "SeedSequence", "Generator", "PCG64"):
                a = list(x[2]) + [v for k, v in x[3]]
                if a and a[0] != ("c", None):
                    continue
            if n.startswith("scipy.stats.") and any(k == "random_state" for k, v in x[3]):
                continue
            if n.startswith("scipy.stats.") and last not in ("rvs",):
                continue
            return n
    return None


SINKS = ("return", "store_attr", "store_sub", "yield", "aug_attr", "aug_sub", "if", "aug_name")


def hidden(R, p):
    for f in p.own_funcs():
        R.count("Python functions")
        where = "%s:%s" % (f.file, f.short)
        for e in p.events(f):
            if e.kind == "call":
                if printing(e):
                    R.count("printing calls")
                    continue
                c = e.t[1]
                a = list(e.t[2]) + [v for k, v in e.t[3]]
                n = rand(e.t)
                if n:
                    R.report("random", where, n, "random numbers that no seed given by the user determines", e.line)
                for x in a:
                    k = clock(x)
                    if k and not (c[0] == "attr" and c[2] in ("append",) and False):
                        if c[0] == "builtin" and c[1] in ("float", "str", "round", "int", "format", "repr", "abs") or c[0] == "attr" and c[2] == "format":
                            continue
                        R.report("hidden-input", where, k, "a value taken from the clock or the environment of the process enters %s" % pyx.show(c)[:50], e.line)
                if c[0] == "attr" and c[2] not in ("format",):
                    k = clock(c[1])
                    if k and k.startswith("os.environ"):
                        R.report("hidden-input", where, k, "the environment of the process is read or changed", e.line)
                if not (c[0] == "builtin" and c[1] in SAFE | {"list", "tuple", "enumerate", "zip", "iter", "next", "map", "filter", "isinstance"}):
                    for x in a:
                        for y in exposed(x):
                            if not sorted_later(p, f, y):
                                R.report("unordered", where, pyx.show(y)[:60], "the order of an unordered collection enters %s" % pyx.show(c)[:50], e.line)
            elif e.kind in SINKS:
                ts = [x for x in (e.t if isinstance(e.t, tuple) else (e.t,)) if isinstance(x, tuple)]
                if e.kind == "if":
                    ts = ts[:1] if ts else []
                for x in ts:
                    if not x or not isinstance(x[0], str):
                        continue
                    k = clock(x)
                    if k:
                        R.report("hidden-input", where, k, "a value taken from the clock or the environment of the process decides a result", e.line)
                    for y in exposed(x):
                        if not sorted_later(p, f, y):
                            R.report("unordered", where, pyx.show(y)[:60], "the order of an unordered collection decides a result", e.line)
            if e.kind == "load_sub" and e.extra and clock(e.extra[0]):
                R.report("hidden-input", where, clock(e.extra[0]), "the environment of the process is read", e.line)
            # members taken one by one, in whatever order
            src = [it for it, _ in e.loops if loop_unordered(it)]
            if src and effect(e, src):
                R.report("unordered", where, pyx.show(src[0])[:60], "members of an unordered collection are processed in order (%s)" % e.kind, e.line)


def loop_unordered(it):
    if unordered(it) or ordered_from(it):
        return True
    return it[0] == "sub" and loop_unordered(it[1])


def effect(e, src):
    def dep(t):
        return any(x[0] in ("elem", "idx") and x[1] in src for x in pyx.subterms(t))
    if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2] in ("append", "extend", "insert", "write", "writelines", "create_dataset"):
        return not printing(e) and any(dep(x) for x in list(e.t[2]) + [v for k, v in e.t[3]])
    if e.kind in ("return", "yield"):
        return isinstance(e.t, tuple) and dep(e.t)
    if e.kind == "store_attr":
        return dep(e.t[2])
    if e.kind == "store_sub":
        return dep(e.t[2]) and not dep(e.t[1])
    if e.kind in ("aug_name", "aug_attr", "aug_sub"):
        return any(x[0] in ("list", "fstr") for x in pyx.subterms(e.t[-1])) and dep(e.t[-1])
    return False


def sorted_later(p, f, y):
    return any(e.kind == "call" and e.t[1] == ("attr", y, "sort") for e in p.events(f))


# ---- state shared between calls
def gbase(t):
    """Module-level or class-level object t is a part of."""
    while t and t[0] in ("sub", "attr", "item", "elem", "val"):
        if t[0] == "attr" and t[1][0] in ("class", "func", "mod"):
            return t
        t = t[2] if t[0] == "item" else t[1]
    return t if t and t[0] in ("gvar", "func", "class") else None


def shared(R, p, summ):
    own = set(p._ownset)
    for f in p.own_funcs():
        where = "%s:%s" % (f.file, f.short)
        for n in pyx.walk_scope(f.node):
            if isinstance(n, ast.Global):
                R.report("global-state", where, ", ".join(n.names), "a module-level variable is assigned by a function", n.lineno)
        for how, t, e in mutate.mutations(p, f, summ):
            R.count("in-place operations")
            for r in {gbase(t)} | {gbase(x) for x in pyx.alts(t)}:
                if r is not None and (r[0] != "gvar" or r[1] in own) and r[0] != "func" or r is not None and r[0] == "attr":
                    R.report("global-state", where, pyx.show(r)[:60], "an object shared by all calls is changed in place (%s)" % how, e.line)
        for e in p.events(f):
            if e.kind == "store_attr":
                b = e.t[0]
                if b[0] in ("class", "func", "mod") or b == ("param", "cls") or b[0] == "call" and b[1] == ("builtin", "type") or \
                        b[0] == "attr" and b[2] == "__class__":
                    R.report("global-state", where, "%s.%s" % (pyx.show(b)[:40], e.t[1]), "an attribute shared by all instances is assigned", e.line)
            if e.kind == "call" and e.t[1] == ("builtin", "setattr") and e.t[2] and e.t[2][0][0] in ("class", "func", "mod"):
                R.report("global-state", where, pyx.show(e.t[2][0])[:40], "an attribute shared by all calls is assigned", e.line)
        # default values that live as long as the function
        for par, d in f.defaults.items():
            if not mutable(d):
                continue
            R.count("mutable defaults")
            if par in summ.get(f.qual, {}):
                R.report("global-state", where, "default of '%s'" % par, "the default value is changed in place and kept between calls", f.node.lineno)
            for e in p.events(f):
                if e.kind == "store_attr" and ("param", par) in pyx.alts(e.t[2]) or e.kind == "return" and isinstance(e.t, tuple) and ("param", par) in pyx.alts(e.t):
                    R.report("global-state", where, "default of '%s'" % par, "the default value is handed out and shared between calls", e.line)
        for d in getattr(f.node, "decorator_list", []):
            s = ast.unparse(d)
            if ("lru_cache" in s or s.endswith("cache") or "cache(" in s) and "cached_property" not in s:
                if f.cls is not None and "staticmethod" not in [ast.unparse(x) for x in f.node.decorator_list]:
                    R.report("global-state", where, "@" + s[:30], "results of a method are kept although the state of the object changes", f.node.lineno)
                elif hands_out(p, f):
                    R.report("global-state", where, "@" + s[:30], "a mutable result is kept and handed out again", f.node.lineno)
    for q, c in sorted(p.classes.items()):
        if c.module.name not in own:
            continue
        st = p.attr_stores(c)
        for n in c.node.body:
            tg = [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else n.targets if isinstance(n, ast.Assign) else []
            for x in tg:
                if isinstance(x, ast.Name) and mutable(n.value):
                    R.count("mutable class attributes")
                    if any(e.fn.name == "__init__" for e in st.get(x.id, []) if e.kind == "store_attr"):
                        continue
                    for f in p.class_funcs(c):
                        for how, t, e in mutate.mutations(p, f, summ):
                            if any(r == ("attr", ("self",), x.id) for r, l in mutate.alias(t)) or t[0] == "sub" and t[1] == ("attr", ("self",), x.id):
                                R.report("global-state", q, x.id, "a class attribute shared by all instances is changed in place", e.line)


def mutable(d):
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "zeros", "empty", "ones", "array", "deque", "OrderedDict")


def hands_out(p, f):
    for e in p.returns(f):
        for t in pyx.alts(e.t) if isinstance(e.t, tuple) else ():
            if t[0] in ("list", "dict", "set") or t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("numpy.") or t[0] == "comp":
                return True
    return False


# ---- seed
def seeds(R, p):
    for f in p.own_funcs():
        where = "%s:%s" % (f.file, f.short)
        has = "random_seed" in f.params + f.kwonly
        for e in p.events(f):
            if e.kind != "call":
                continue
            tg = [(g, ctor) for g, ctor in p.targets(e.t[1], f)[0] if "random_seed" in g.params + g.kwonly and g is not f]
            for g, ctor in tg:
                d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                R.count("calls that take a seed")
                v = d.get("random_seed")
                if v is None and "number_of_snapshots" in g.params and d.get("number_of_snapshots") in (None, ("c", None)):
                    continue          # systematic displacements
                src = seed_source(p, f)
                if v is None:
                    if src is not None and exact:
                        R.report("seed", where, g.short, "random_seed is not passed on", e.line)
                    continue
                check_seed(R, p, f, e, g, v, has, where)
        if has:
            R.count("functions with a seed")
            u = [e for e in p.events(f) for t in [e.t] if isinstance(t, tuple) and ("param", "random_seed") in set(pyx.subterms(t))] \
                if not f.abstract else [1]
            if not u:
                R.report("seed", where, "random_seed", "the parameter is ignored", f.node.lineno)
        for e in p.events(f):
            if e.kind == "aug_name" and e.t[0] == "random_seed" or e.kind == "store_name" and e.t[0] == "random_seed" and has and \
                    ("param", "random_seed") not in set(pyx.subterms(e.t[1])):
                R.report("seed", where, "random_seed", "the seed given by the caller is replaced", e.line)


def seed_source(p, f):
    if "random_seed" in f.params + f.kwonly:
        return ("param", "random_seed")
    for e in p.events(f):
        if e.kind == "load_attr" and e.t[2] == "random_seed":
            return e.t
    if "settings" in f.params:
        return ("attr", ("param", "settings"), "random_seed")
    return None


def check_seed(R, p, f, e, g, v, has, where):
    al = list(pyx.alts(v))
    from_user = [t for t in al if any(x == ("param", "random_seed") or x[0] == "attr" and x[2] == "random_seed" for x in pyx.subterms(t))]
    src = seed_source(p, f)
    if src is None:
        return
    if not from_user:
        R.report("seed", where, g.short, "random_seed is given %s instead of the seed of the user" % pyx.show(v)[:40], e.line)
        return
    for t in from_user:
        if t[0] == "op" and t[1] in ("or", "and"):
            R.report("seed", where, g.short, "a seed of zero counts as no seed ('%s')" % pyx.show(t)[:50], e.line)
        elif t[0] not in ("param", "attr") and not (t[0] == "call" and t[1] == ("builtin", "int")) and not any(
                x[0] == "call" for x in pyx.subterms(t)):
            if t[0] == "op" and t[1] in ("%", "//", "&", "<<", ">>"):
                R.report("seed", where, g.short, "the seed is altered on the way ('%s')" % pyx.show(t)[:50], e.line)
    if not has:
        return
    # the value None reaches the generator although a seed was given
    u = p15.formula(("op", "is not", ("param", "random_seed"), ("c", None)), True)
    vals = [x for x in p.events(f) if x.kind == "store_name" and x.t[1] == ("c", None) and ("c", None) in al and mentions(p, f, x.t[0], e)]
    for x in vals:
        R.count("ways to no seed")
        fm = [u] + [cond(t, b) for t, b in x.conds]
        over = any(y.kind == "store_name" and y.t[0] == x.t[0] and y.order > x.order and not y.conds for y in p.events(f))
        later = [y for y in p.events(f) if y.kind == "store_name" and y.t[0] == x.t[0] and y.order > x.order and ("param", "random_seed") in set(pyx.subterms(y.t[1]))]
        if over:
            continue
        if later:
            # default None, replaced under a condition: the seed is lost where the condition fails
            if not any(replaced_whenever_given(y, x) for y in later):
                R.report("seed", where, g.short, "a seed given by the user is dropped under a condition on its value", x.line)
            continue
        if not p15.refuted(fm, {}):
            R.report("seed", where, g.short, "a seed given by the user is dropped under a condition on its value", x.line)
    for t in pyx.subterms(v):
        if t[0] == "ite" and ("c", None) in (t[2], t[3]):
            R.count("ways to no seed")
            b = t[2] != ("c", None)
            if not p15.refuted([u, cond(t[1], not b)], {}):
                R.report("seed", where, g.short, "a seed given by the user is dropped under a condition on its value", e.line)


def cond(t, b):
    return p15.formula(t, b)


def replaced_whenever_given(y, x):
    u = p15.formula(("op", "is not", ("param", "random_seed"), ("c", None)), True)
    extra = [c for c in y.conds if c not in x.conds]
    neg = ("or",) + tuple(("not", cond(t, b)) for t, b in extra)
    return not extra or p15.refuted([u, neg], {})


def mentions(p, f, name, e):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e.node))


# ---- arrays allocated without a value
class Fill:
    def __init__(self, p, need, maps):
        self.p, self.need, self.maps = p, need, maps
        self.memo = {}

    def kernel_fills(self, e, pos):
        """True: fills, text: why not, None: not an output."""
        k = kern.kernel_of(e.t[1])
        if k is None or pos >= len(k.formals):
            return None
        fm = k.formals[pos]
        if fm not in self.maps[(k.mod, k.name)][1]:
            return None
        for g, par in self.maps[(k.mod, k.name)][0].get(fm, ()):
            w = self.need.get((g, par))
            if w:
                return "kernel %s %s" % (k.name, w)
        return True

    def fills(self, f, is_it, after, conds, depth=0, owner=None, attr=None):
        """Evidence that f fills the array recognised by is_it: True, a text (evidence against), or None."""
        p = self.p
        bad = None
        ev = p.events(f)
        for e in ev:
            if e.order <= after:
                continue
            extra = [c for c in e.conds if c not in conds]
            if e.kind == "store_sub" and is_it(e.t[0]):
                if marks(e):
                    bad = bad or "stored to only at listed positions"
                    continue
                if masked(e) and not any(q is not e and q.kind == "store_sub" and is_it(q.t[0]) for q in ev):
                    bad = bad or "stored to only where a mask says so"
                    continue
                if not extra or balanced(ev, e, extra, is_it):
                    return True
                bad = bad or "stored to only under a condition (%s)" % pyx.show(extra[-1][0])[:50]
            elif e.kind == "call":
                a = list(e.t[2])
                c = e.t[1]
                if c[0] == "attr" and c[2] == "fill" and is_it(c[1]):
                    return True
                if any(k == "out" and is_it(v) for k, v in e.t[3]):
                    return True
                if c[0] == "ext" and c[1] in ("numpy.copyto", "numpy.matmul", "numpy.dot") and a and (is_it(a[0]) or is_it(a[-1])):
                    return True
                for i, x in enumerate(a):
                    if not any(is_it(y) for y in pyx.alts(x)):
                        continue
                    r = self.kernel_fills(e, i)
                    if r is True:
                        return True
                    if isinstance(r, str):
                        return r
                if depth < 5:
                    for g, ctor in p.targets(c, f)[0]:
                        if owner is not None and c[0] == "attr" and c[1] == owner and g.cls is not None:
                            k = (g.qual, owner, attr)
                            if k not in self.memo:
                                self.memo[k] = None
                                self.memo[k] = self.fills(g, is_it, -1, (), depth + 1, owner, attr)
                            r = self.memo[k]
                            if r is True and not extra or isinstance(r, str) and r.startswith("kernel"):
                                return r
                        d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(c, f, g))
                        for par, v in d.items():
                            if isinstance(v, tuple) and any(is_it(y) for y in pyx.alts(v)):
                                k = (g.qual, par)
                                if k not in self.memo:
                                    self.memo[k] = None
                                    self.memo[k] = self.fills(g, lambda t, par=par: t == ("param", par) or view_of(t, ("param", par)), -1, (), depth + 1)
                                r = self.memo[k]
                                if r is True:
                                    return True
                                bad = bad or r
        return bad


def masked(e):
    i = e.t[1]
    return any(x[0] == "op" and x[1] in ("==", "!=", "<", ">", "<=", ">=", "~") for x in (i[1] if i[0] == "tuple" else (i,)))


def marks(e):
    """A constant stored at positions taken from another table."""
    v, i = e.t[2], e.t[1]
    return isinstance(v, tuple) and v[0] == "c" and any(x[0] == "sub" for x in (i[1] if i[0] == "tuple" else (i,)))


def view_of(t, b):
    while t[0] in ("sub", "call", "attr"):
        if t[0] == "sub":
            t = t[1]
        elif t[0] == "attr" and t[2] == "T":
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("reshape", "ravel", "view", "transpose"):
            t = t[1][1]
        else:
            return False
        if t == b:
            return True
    return False


def balanced(ev, e, extra, is_it):
    """The other branch of the condition fills the array, too."""
    last = extra[-1]
    for q in ev:
        if q.kind == "store_sub" and is_it(q.t[0]) and any(c[0] == last[0] and c[1] != last[1] for c in q.conds):
            return True
    return False


def arrays(R, p, need):
    ks = kern.kernels()
    protos = {f.name: f for f in cfront.load("lapacke").funcs.values()}
    for t in cfront.load_wrappers(lapacke=True).values():
        protos.update({n: f for n, f in t.funcs.items()})
    maps = {}
    for key, k in ks.items():
        o = p05.outputs(k, protos)
        maps[(k.mod, k.name)] = (actuals(k, protos), o)
    got = {fm for a, o in maps.values() for fm in o}
    if len(got) < 15:
        raise Broken("outputs of kernels not recognised")
    F = Fill(p, need, maps)
    for f in p.own_funcs():
        where = "%s:%s" % (f.file, f.short)
        for e in p.events(f):
            if e.kind not in ("store_name", "store_attr"):
                continue
            v = e.t[1] if e.kind == "store_name" else e.t[2]
            if not isinstance(v, tuple) or not any(is_empty(t) for t in pyx.alts(v)):
                continue
            if e.kind == "store_name" and not is_empty(v):
                continue
            R.count("arrays allocated without a value")
            if e.kind == "store_name":
                at = v

                def is_it(t, at=at):
                    return t == at or view_of(t, at)
                r = F.fills(f, is_it, e.order, e.conds)
                # kept in an attribute: filled by the methods of the class
                if r is None:
                    for q in p.events(f):
                        if q.kind == "store_attr" and q.t[2] == at and f.cls is not None:
                            r = attr_fill(F, p, f, q)
                if r is None and any(q.kind == "return" and isinstance(q.t, tuple) and at in set(pyx.subterms(q.t)) for q in p.events(f)):
                    r = None
            else:
                r = attr_fill(F, p, f, e)
            nm = e.t[0] if e.kind == "store_name" else e.t[1]
            if r is not True:
                R.report("uninitialised-array", where, nm, "allocated without a value, and %s" % (r or "not filled before it is used"), e.line)


def attr_fill(F, p, f, e):
    base, attr = e.t[0], e.t[1]
    at = ("attr", base, attr)

    def is_it(t):
        return t == at or view_of(t, at) or t == e.t[2] or view_of(t, e.t[2])
    r = F.fills(f, is_it, e.order, e.conds, 0, base, attr)
    if r is True or f.cls is None or isinstance(r, str) and r.startswith("kernel"):
        return r
    bad = r
    for g in p.class_funcs(f.cls):
        if g is f:
            continue
        r = F.fills(g, is_it, -1, ())
        if r is True:
            return True
        bad = bad or r
    return bad


def run(R):
    R.explanation = ("Kernels: for each read of scratch memory the stores that can precede it are enumerated in small instances of the "
                     "index arithmetic (callees inlined); a read of an element no store reaches, or whose stores all depend on a "
                     "condition the read does not, is reported; so are writes to static storage and calls of clock, environment and "
                     "random functions. Python: clock, environment, object identity and unseeded random numbers may only be printed; "
                     "the order of sets and directory listings must not reach results; module-level, class-level and default objects "
                     "must not be changed; arrays allocated by numpy.empty must be filled on all paths or by a kernel that fills every "
                     "element; the seed must be passed on, unchanged, whenever it is given.")
    R.assumptions = ["an element store in an unconditional loop fills the array", "phonopy generates displacements from the seed alone",
                     "status returns of C functions are errors (stores skipped by them are not counted)"]
    p = pyx.project()
    summ = mutate.summaries(p, list(p.own_funcs()))
    hidden(R, p)
    shared(R, p, summ)
    seeds(R, p)
    need = kernels(R)
    arrays(R, p, need)
    R.require("Python functions", 900)
    R.require("printing calls", 300)
    R.require("C assignments", 800)
    R.require("calls that take a seed", 6)
    R.require("functions with a seed", 3)
    R.require("arrays allocated without a value", 4)
