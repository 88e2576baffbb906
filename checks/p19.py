"""P19: internal naming and call errors (definite assignment over correlated branches, attribute resolution in the class model, call-signature and format checking over the call graph).

Definite assignment takes loops to run at least once, module imports to succeed and chains of tests that tell the values of one subject (or its presence) apart to be complete; attributes are checked where the receiver's class is known and closed; calls where all targets are known."""
import ast
import fmt
import pyx, defs


LITS, TESTED = {}, {}


def literals(p):
    """How often each string is written at all, and how often only to be tested for / looked up."""
    LITS.clear()
    TESTED.clear()
    for m in p.own():
        tr = ast.parse(m.src)
        for n in ast.walk(tr):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                LITS[n.value] = LITS.get(n.value, 0) + 1
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Constant):
                TESTED[n.left.value] = TESTED.get(n.left.value, 0) + 1
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant):
                TESTED[n.slice.value] = TESTED.get(n.slice.value, 0) + 1


def run(R):
    p = pyx.project()
    literals(p)
    R.explanation = ("(1) every read of a local name is checked for paths that leave it unbound, tracking correlated branch tests; "
                     "(2) every attribute read is looked up in the class model of its receiver (bases, properties, stores in any "
                     "method, subclasses); (3) every call with known targets is bound to the target's signature; (4) every "
                     "imported name must exist in the imported module; (5) attributes assigned through a property need a setter.")
    R.assumptions = ["for loops run at least once", "modules import successfully", "annotations are truthful"]
    mk = defs.exits(p)
    for f in p.own_funcs():
        d = defs.Defs(f.node, pyx.is_exit, mk(f))
        d.run()
        R.count("functions")
        for x, a, allp in d.found.values():
            R.report("unbound-local", f.qual, x.id, "may be unbound here when " + (" and ".join(("" if v else "not ") + k for k, v in a[:5]) or "reached") , x.lineno)
        for e in p.events(f):
            if e.kind in ("undef_global",):
                R.report("undefined-name", f.qual, str(e.t), "name is not defined in the module", e.line)
            if e.kind == "call":
                call(R, p, f, e)
                attr(R, p, f, e, e.t[1])
            elif e.kind == "load_attr":
                attr(R, p, f, e, e.t)
            elif e.kind == "store_attr":
                store(R, p, f, e)
        for n, bad in fmt.mistakes(f.node):
            R.count("formattings")
            if bad:
                R.report("format", f.qual, ast.unparse(n)[:60], bad, n.lineno)
    initialised(R, p)
    imports(R, p)
    R.require("functions", 700)
    R.require("attribute reads resolved", 2000)
    R.require("calls bound", 1000)
    R.require("imports", 300)
    R.require("formattings", 100)


def fam_has(p, c, name):
    for k in p.family(c):
        if p.member(k, name) or name in p.attr_stores(k):
            return True
        if "__getattr__" in k.methods and name in virtual(p, k):
            return True
    return hasattr(object, name) or any(is_tuplelike(k) for k in p.mro(c))


def virtual(p, c):
    """Names a class with __getattr__ serves: keys of the dictionaries in its class body."""
    out = set()
    for k in p.subclasses(c):
        for b in p.mro(k):
            for ann, v in [x for l in b.attrs.values() for x in l]:
                if isinstance(v, ast.Dict):
                    out |= {q.value for q in v.keys if isinstance(q, ast.Constant)}
    return out


def is_tuplelike(k):
    return any(ast.unparse(b).split(".")[-1] in ("NamedTuple", "Enum", "TypedDict", "Exception", "Protocol") for b in k.base_exprs)


def guarded(e, name):
    for c, v in e.conds:
        if v and c[0] == "op" and c[1] == "in" and c[2][0] == "c" and isinstance(c[2][1], str) and LITS.get(c[2][1], 0) == TESTED.get(c[2][1], -1):
            return True       # a key nothing ever stores
    return any("hasattr" in repr(c) or "getattr" in repr(c) for c, _ in e.conds) or \
        any(t for t in e.trys)


def attr(R, p, f, e, t):
    if t[0] != "attr":
        return
    ts = p.narrow(t[1], f, e.conds) - {("none",)}
    if not ts:
        return
    if ("?",) in ts or any(x[0] != "inst" for x in ts):
        mods = [x for x in ts if x[0] == "mod"]
        if len(ts) == 1 and mods:
            if p.from_import(mods[0][1], t[2]) is None:
                R.report("missing-module-member", f.qual, t[2], "module %s has no such name" % mods[0][1], e.line)
        return
    cs = [p.classes[x[1]] for x in ts]
    if any(p.is_open(c) for c in cs):
        return
    R.count("attribute reads resolved")
    if all(not fam_has(p, c, t[2]) for c in cs) and not guarded(e, t[2]):
        R.report("missing-attribute", f.qual, t[2], "%s has no attribute of this name" % ", ".join(sorted(c.name for c in cs)), e.line)


def closure(p, c, f, seen):
    """Methods that run when c is constructed."""
    if f.qual in seen:
        return
    seen[f.qual] = f
    for e in p.events(f):
        if e.kind == "call":
            for g, ctor in p.targets(e.t[1], f)[0]:
                if g.cls is not None and g.cls in p.mro(c) and e.t[1][0] == "attr":
                    m = p.member(c, g.name)
                    closure(p, c, m[1] if m and m[0] == "method" and e.t[1][1] == ("self",) else g, seen)
            t = e.t[1]
            if t[0] == "attr" and t[1][0] == "call" and t[1][1] == ("builtin", "super") and f.cls in p.mro(c):
                for k in p.mro(c)[p.mro(c).index(f.cls) + 1:]:
                    if t[2] in k.methods:
                        closure(p, c, k.methods[t[2]], seen)
                        break
        elif e.kind == "store_attr" and e.t[0] == ("self",):
            s = p.setter(c, e.t[1])
            if s:
                closure(p, c, s, seen)


def initialised(R, p):
    """Attributes a public getter returns, or an optional setting, exist once the object is constructed."""
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.module.name not in p._ownset or p.is_open(c) or len(p.subclasses(c)) > 1:
            continue
        ini = p.member(c, "__init__")
        if not ini or ini[0] != "method":
            continue
        if any(k.module.name not in p._ownset for k in p.mro(c)):
            continue
        seen = {}
        closure(p, c, ini[1], seen)
        have = {e.t[1] for f in seen.values() for e in p.events(f) if e.kind == "store_attr" and e.t[0] == ("self",)}
        R.count("classes with constructor")
        for f in p.class_funcs(c):
            for e in p.events(f):
                if e.kind != "load_attr" or e.t[1] != ("self",) or e.t[2] in have:
                    continue
                a = e.t[2]
                m = p.member(c, a)
                if (m and (m[0] != "attr" or any(v is not None for _, v in m[1]))) or hasattr(object, a):
                    continue
                st = p.attr_stores(c).get(a, [])
                if any(x.fn.qual == f.qual and x.order < e.order for x in st) or guarded(e, a):
                    continue
                if not st:
                    if not f.name.startswith("_") or p.call_sites().get(f.qual):
                        R.report("never-assigned", c.qual, a, "read in %s, but no method assigns it" % f.name, e.line)
                elif f.is_property:
                    R.report("uninitialised-getter", c.qual, a, "returned by property %s, but not assigned on construction" % f.name, e.line)
                elif any(optional(x) for x in st):
                    R.report("uninitialised-setting", c.qual, a, "read in %s, but assigned only by the optional argument of %s" % (f.name, st[0].fn.name), e.line)


def optional(x):
    """The stored value comes from an optional argument of the storing method."""
    return any(y[0] == "param" and y[1] in x.fn.defaults for y in pyx.subterms(x.t[2]))


def store(R, p, f, e):
    base, name, val = e.t
    ts = p.typeof(base, f) - {("none",)}
    if not ts or ("?",) in ts or any(x[0] != "inst" for x in ts):
        return
    cs = [p.classes[x[1]] for x in ts]
    R.count("attribute stores resolved")
    bad = []
    for c in cs:
        m = p.member(c, name)
        if m and m[0] == "property" and not p.setter(c, name):
            bad.append(c.name)
    if len(bad) == len(cs):
        R.report("no-setter", f.qual, name, "assigned, but %s defines it as a property without setter" % ", ".join(bad), e.line)


def call(R, p, f, e):
    tg, complete = p.targets(e.t[1], f)
    if any(not g.abstract for g, _ in tg):
        tg = [x for x in tg if not x[0].abstract]
    if not tg or not complete:
        return
    R.count("calls bound")
    bad = []
    for g, ctor in tg:
        d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
        if errs:
            bad.append((g, errs))
    if len(bad) == len(tg):
        R.report("call-signature", f.qual, bad[0][0].short, "; ".join(str(x) for x in bad[0][1]), e.line)


def imports(R, p):
    for m in p.own():
        for n in ast.walk(ast.parse(m.src)):
            if isinstance(n, ast.ImportFrom) and not n.level:
                mod = n.module
                if not mod.split(".")[0] in ("phono3py", "phonopy"):
                    continue
                for a in n.names:
                    R.count("imports")
                    if mod.split(".")[-1].startswith("_") and mod.startswith("phono3py"):
                        continue
                    if a.name != "*" and p.from_import(mod, a.name) is None:
                        R.report("missing-import", m.rel, mod + "." + a.name, "no such name in the module", n.lineno)
