"""P16: in-place effects on the caller's data (alias and mutation summaries over the call graph).

Every in-place operation (subscript stores, augmented assignments of arrays, mutating methods, numpy out= and kernel outputs) is propagated through calls to the parameters and user settings it can reach without a copy in between. Reported are public functions, methods and setters that change a parameter, methods that change a stored user setting in place, and in-place changes of arrays another object's accessor returned; functions whose documented purpose is the change are listed with the parameters concerned."""
import ast, re
import pyx, kern, mutate, p05, cfront

# functions whose purpose is to fill or change the named arguments
PURPOSE = {
    "cutoff_fc3_by_zero": {"fc3"}, "parse_FORCES_FC2": {"disp_dataset"}, "parse_FORCES_FC3": {"disp_dataset"},
    "diagonalize_collision_matrix": {"collision_matrices"},
    "run_phonon_solver_c": {"frequencies", "eigenvectors", "phonon_done"},
    "run_phonon_solver_py": {"frequencies", "eigenvectors", "phonon_done"},
    "distribute_fc3": {"fc3"}, "set_permutation_symmetry_fc3": {"fc3"}, "set_permutation_symmetry_compact_fc3": {"fc3"},
    "set_translational_invariance_fc3": {"fc3"}, "set_translational_invariance_compact_fc3": {"fc3"},
    "run_ise_at_frequency_points_batch": {"gamma", "detailed_gamma_at_gp"},
}
PROC = re.compile(r"^(set|distribute|run|fill|cutoff|symmetrize|update|transpose|rotate|average)_")


def doc_says(f, par):
    d = ast.get_docstring(f.node) or ""
    m = re.search(r"^\s*%s\s*:(.*?)(?=^\s*\w+\s*:|\Z)" % re.escape(par), d, re.M | re.S)
    pat = r"overwrit|in[- ]place|modified|is (updated|filled|changed)|stored? in"
    return bool(m and re.search(pat, m.group(1), re.I)) or bool(re.search(r"\b%s\b[^.]{0,40}(%s)" % (re.escape(par), pat), d, re.I)) or \
        bool(re.search(r"(%s)[^.]{0,30}\b%s\b" % (pat, re.escape(par)), d, re.I))


def public(f):
    n = f.name
    if f.outer is not None:
        return False
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    return not n.startswith("_") or n in ("__init__", "__call__")


def scripts(f):
    return "/cui/" in "/" + f.file and not f.file.endswith("load.py")


def run(R):
    p = pyx.project()
    fs = p.own_funcs()
    R.explanation = ("Alias terms (parameter, attribute, view, member of a shallow copy) of the target of every in-place "
                     "operation, closed over calls; the roots reached at level 0 are the caller's own data.")
    R.assumptions = ["advanced indexing, arithmetic, numpy.array and copy methods give fresh storage; views listed in lib/mutate.py",
                     "functions named in checks/p16.py PURPOSE, or documented as overwriting an argument, may change it"]
    ks = kern.kernels()
    protos = {f.name: f for f in cfront.load("lapacke").funcs.values()}
    for t in cfront.load_wrappers(lapacke=True).values():
        protos.update({n: f for n, f in t.funcs.items()})
    mutate.KOUT = {k: {x.formals.index(o) for o in p05.outputs(x, protos)} for k, x in ks.items()}
    s = mutate.summaries(p, fs)
    for f in fs:
        R.count("functions")
        R.count("in-place operations", sum(1 for _ in mutate.mutations(p, f, s)))
        if not public(f) or scripts(f):
            continue
        R.count("public functions")
        for par, (how, e) in sorted(s[f.qual].items()):
            R.count("parameters changed")
            if par in ("self", "cls") or par in PURPOSE.get(f.name, ()) or doc_says(f, par):
                continue
            # a public function that only passes its argument on to one that documents the change
            if how.startswith("call ") and f.cls is not None and how.split()[-1] in PURPOSE and par in PURPOSE[how.split()[-1]]:
                continue
            if restored(p, f, s, par):
                R.count("restored in place")
                continue
            R.report("parameter", "%s:%s" % (f.file, f.short), par, "argument of the caller is changed in place (%s)" % how, e.line)
    settings(R, p, s)
    foreign(R, p, fs, s)
    local_alias(R, p, s)
    shared(R, p, s)
    R.require("public functions", 500)
    R.require("in-place operations", 350)
    R.require("parameters changed", 12)
    R.require("user settings", 100)


INVOLUTION = {"transpose_compact_fc3"}    # applied twice to the same argument it restores it


def restored(p, f, s, par):
    """Every change of the parameter is an involution kernel applied an even number of times alike."""
    n = {}
    for how, t, e in mutate.mutations(p, f, s):
        if not any(r == ("param", par) and l == 0 for r, l in mutate.alias(t)):
            continue
        if how.replace("kernel ", "") not in INVOLUTION:
            return False
        k = (how, e.t[2], e.conds, e.loops)
        n[k] = n.get(k, 0) + 1
    return bool(n) and all(v % 2 == 0 for v in n.values())


def settings(R, p, s):
    for q, c in sorted(p.classes.items()):
        if c.module.name not in p._ownset:
            continue
        st = p.attr_stores(c)

        def user(a):
            l = [e for e in st.get(a, []) if e.t[2] != ("c", None) and e.t[2] != ("attr", ("self",), a)]
            if not l or a.endswith("_done"):
                return False
            for e in l:
                if not isinstance(e.fn.cls, type(c)) or (e.fn.name.startswith("_") and e.fn.name != "__init__") or e.kind != "store_attr":
                    return False
                for v in pyx.alts(e.t[2]):
                    if v == ("c", None):
                        continue
                    if not given(v, e.fn):
                        return False
            return True

        for a in st:
            if user(a):
                R.count("user settings")
        for f in p.class_funcs(c):
            for how, t, e in mutate.mutations(p, f, s):
                if how.startswith("call "):
                    continue
                if how in ("aug_name", "aug_attr"):
                    t = e.t[2] if how == "aug_name" else t
                    if not (mutate.arrayish(t, f, p) or isarr(t, st)):
                        continue
                for r, lv in mutate.alias(t):
                    if lv == 0 and r[0] == "attr" and r[1] == ("self",) and user(r[2]):
                        if (f.name in ("__init__",) or f in c.setters.values() or f.name.startswith("set_")) and \
                                any(x.fn is f and fresh_store(x.t[2]) for x in st[r[2]]):
                            continue   # the object's own copy is being prepared
                        if how in ("store_sub", "aug_sub") and p.setter(c, r[2].lstrip("_")) is f:
                            continue   # setter of an element of the stored object, checked as a parameter
                        if p.setter(c, f.name) is f:
                            continue
                        R.report("setting", "%s:%s.%s" % (f.file, c.name, f.name), r[2],
                                 "a value given by the user is changed in place (%s)" % how, e.line)


COPY = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.double", "numpy.intc", "numpy.reshape", "numpy.ravel"}


def given(v, f):
    """v is a parameter, or a conversion of one that keeps its contents."""
    for _ in range(6):
        if v[0] == "param":
            return True
        if v[0] == "call" and v[1][0] == "ext" and v[1][1] in COPY and v[2]:
            v = v[2][0]
        elif v[0] == "call" and v[1][0] == "builtin" and v[1][1] in ("list", "tuple", "dict", "sorted") and v[2]:
            v = v[2][0]
        elif v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("copy", "astype", "reshape", "ravel"):
            v = v[1][1]
        elif v[0] == "phi" or v[0] == "ite":
            l = [x for x in pyx.alts(v) if x != ("c", None)]
            return bool(l) and all(given(x, f) for x in l)
        else:
            return False
    return False


def fresh_store(v):
    return v[0] == "call" and v[1] in (("ext", "numpy.array"),) or v[0] == "call" and v[1][0] == "attr" and v[1][2] == "copy"


def isarr(t, st):
    return t[0] == "attr" and t[1] == ("self",) and any(
        v[0] == "call" and v[1][0] == "ext" and v[1][1].startswith("numpy.") for e in st.get(t[2], []) for v in pyx.alts(e.t[2]))


def foreign(R, p, fs, s):
    """In-place arithmetic on what an accessor of another object returned without a copy."""
    for f in fs:
        for how, t, e in mutate.mutations(p, f, s):
            if how.startswith("call ") or how == "delete" and False:
                continue
            if how in ("aug_name", "aug_attr"):
                t = e.t[2] if how == "aug_name" else t
            for r, lv in list(mutate.alias(t)):
                if lv or r[0] != "attr" or r[1] == ("self",) or how == "aug_attr":
                    continue
                if r[1][0] in ("ext", "module", "builtin", "param") and not p.typeof(r[1], f):
                    continue
                for ty in p.typeof(r[1], f):
                    c = p.classes.get(ty[1]) if ty[0] == "inst" else None
                    if c is None:
                        continue
                    m = p.member(c, r[2])
                    if m is None or not getattr(m, "is_property", False):
                        continue
                    if how in ("aug_name",) and not mutate.arrayish(t, f, p) and not any(
                            v[0] == "call" for q in p.returns(m) if q.t[0] == "attr" and q.t[1] == ("self",)
                            for x in p.attr_stores(c).get(q.t[2], []) for v in pyx.alts(x.t[2])):
                        continue
                    for q in p.returns(m):
                        if any(l == 0 and rr[0] == "attr" and rr[1] == ("self",) for rr, l in mutate.alias(q.t)):
                            R.count("foreign arrays changed")
                            R.report("handed-out", "%s:%s" % (f.file, f.short), "%s.%s" % (c.name, r[2]),
                                     "the array an accessor handed out is changed in place (%s)" % how, e.line)


WORK = {"collision_matrix", "dataset", "phonon_dataset"}    # updated in place on purpose


def depth(t):
    n = 0
    while t[0] in ("sub", "elem", "val", "item"):
        t, n = (t[2] if t[0] == "item" else t[1]), n + 1
    return n


def local_alias(R, p, s):
    """In-place changes through a local name of storage a public attribute hands out."""
    for q, c in sorted(p.classes.items()):
        if c.module.name not in p._ownset:
            continue
        pub = {}
        for k in p.mro(c):
            for n, g in k.methods.items():
                if g.is_property and not n.startswith("_"):
                    for e in p.returns(g):
                        for r, l in mutate.alias(e.t):
                            if l == 0 and r[0] == "attr" and r[1] == ("self",):
                                pub.setdefault(r[2], n)
        for f in p.class_funcs(c):
            for how, t, e in mutate.mutations(p, f, s):
                if how.startswith("call ") or how == "aug_attr":
                    continue
                if how == "aug_name":
                    t = e.t[2]
                b = base_name(how, e)
                if b is None:
                    continue
                for r, l in mutate.alias(t):
                    if l or r[0] != "attr" or r[1] != ("self",) or r[2] not in pub or pub[r[2]] in WORK:
                        continue
                    if how == "aug_name" and not (mutate.arrayish(t, f, p) or isarr(r, p.attr_stores(c))):
                        continue
                    R.count("local aliases changed")
                    R.report("local-alias", "%s:%s.%s" % (f.file, c.name, f.name), "%s via %s" % (r[2], b),
                             "the data of attribute %s are changed in place through a local name" % pub[r[2]], e.line)


def base_name(how, e):
    n = e.node
    if how == "aug_name":
        b = n.target if isinstance(n, ast.AugAssign) else n
    elif how in ("store_sub", "aug_sub"):
        b = n.target if isinstance(n, ast.AugAssign) else n.targets[0] if isinstance(n, ast.Assign) else n
        while isinstance(b, ast.Subscript):
            b = b.value
    elif how.startswith("method "):
        b = n.func.value
    else:
        return None
    return b.id if isinstance(b, ast.Name) else None


def shared(R, p, s):
    """A setter keeps the caller's container and the class writes into it later."""
    for q, c in sorted(p.classes.items()):
        if c.module.name not in p._ownset:
            continue
        written = {}
        for f in p.class_funcs(c):
            for how, t, e in mutate.mutations(p, f, s):
                if how not in ("store_sub", "aug_sub", "delete"):
                    continue
                key = e.t[1] if e.kind != "delete" else e.t[2]
                if not (key[0] == "c" and isinstance(key[1], str)):
                    continue
                for r, l in mutate.alias(t):
                    if l == 0 and r[0] == "attr" and r[1] == ("self",):
                        d = depth(t)
                        if d >= written.get(r[2], (-1,))[0]:
                            written[r[2]] = (d, f, e)
        for a, (d, f, e) in sorted(written.items()):
            R.count("containers written by their class")
            for st in p.attr_stores(c).get(a, []):
                g = st.fn
                if g.name.startswith("_") and g.name != "__init__":
                    continue
                for r, l in mutate.alias(st.t[2]):
                    if r[0] == "param" and r[1] in g.params + g.kwonly and l <= d:
                        R.report("shared", "%s:%s.%s" % (g.file, c.name, g.name), a,
                                 "the caller's container is kept and %s writes into it" % f.name, st.line)
