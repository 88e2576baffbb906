"""P09: option and tag flow (chain analysis argparse -> configuration keys -> parameters -> settings -> use).

Every add_argument call, every store into the configuration table, every parameter set from a configuration key and every settings method called from a parameter is collected as an edge, with tables and helper methods unrolled. Reported: options no later stage reads, keys no stage consumes, parameters dropped, tags that cannot match (the file reader lower-cases them), edges whose guard and value name different options, edges that cross to another option's name, wrong polarity or conversion, options that defaults make ineffective, and settings nobody reads. A stage that cannot be unrolled is open: nothing is reported as dropped there."""
import ast
import pyx
from common import Broken
from pyx import subterms

BOOL = {".true.": True, ".false.": False}
# long option -> destination, where the two differ by design in ways the comparison cannot see
OPEN_DEST = set()


def N(x):
    x = x.lower().replace("-", "_")
    for pre in ("is_", "set_is_", "set_"):
        if x.startswith(pre):
            x = x[len(pre):]
    return x


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r and r[0] == "item" and len(r) == 3 and isinstance(r[2], tuple) and r[2][0] in ("tuple", "list") and isinstance(r[1], int) and r[1] < len(r[2][1]):
        return r[2][1][r[1]]
    if r and r[0] == "sub" and len(r) == 3 and r[1][0] in ("tuple", "list") and r[2][0] == "c" and isinstance(r[2][1], int) and -len(r[1][1]) <= r[2][1] < len(r[1][1]):
        return r[1][1][r[2][1]]
    if r and r[0] == "call" and r[1] == ("builtin", "getattr") and len(r[2]) >= 2 and r[2][1][0] == "c":
        return ("attr", r[2][0], r[2][1][1])
    return r


def lit(node):
    """Term of a literal module constant."""
    if isinstance(node, ast.Constant):
        return ("c", node.value)
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        xs = [lit(x) for x in node.elts]
        return None if None in xs else ("tuple", tuple(xs))
    if isinstance(node, ast.Dict):
        xs = [(lit(k) if k else None, lit(v) or ("?",)) for k, v in zip(node.keys, node.values)]
        return None if any(k is None for k, _ in xs) else ("tuple", tuple(("tuple", x) for x in xs))
    if isinstance(node, ast.Name):
        return ("builtin", node.id)
    return None


def gval(p, t, f=None):
    """Literal value of a module or class level constant term."""
    def from_body(body, nm):
        v = None
        for st in body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == nm for x in st.targets):
                v = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == nm:
                v = st.value
        return lit(v) if v is not None else None
    if t[0] == "gvar":
        m = p.modules.get(t[1])
        return from_body(m.tree.body, t[2]) if m else None
    if t[0] == "attr" and t[1] == ("self",) and f is not None and f.cls:
        for c in p.mro(f.cls):
            v = from_body(c.node.body, t[2])
            if v is not None:
                return v
    return None


def choices(p, it, f):
    """Elements of a constant iterable."""
    if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
        b = it[1][1]
        d = gval(p, b, f)
        if d is None and b[0] == "dict" and b[1]:
            try:
                d = ("tuple", tuple(("tuple", (k, v)) for k, v in b[1]))
            except (TypeError, ValueError):
                return None
        if d is None or d[0] != "tuple":
            return None
        return {"items": lambda: list(d[1]), "keys": lambda: [x[1][0] for x in d[1]], "values": lambda: [x[1][1] for x in d[1]]}[it[1][2]]()
    if it[0] in ("gvar", "attr"):
        d = gval(p, it, f)
        if d is None:
            return None
        isd = d[1] and all(x[0] == "tuple" and len(x[1]) == 2 for x in d[1])
        it = d
    if it[0] in ("tuple", "list", "set"):
        return list(it[1])
    return None


def instances(p, e, f, depth=0):
    """The event with loop elements over constant tables, keys tested against constants and, in helpers, the arguments of each call written out."""
    work = [(e.conds, e.t)]
    out = []
    n = 0
    while work and n < 20000:
        n += 1
        conds, t = work.pop()
        done = True
        subs = set()
        for s in subterms(t):
            subs.add(s)
        for c, _ in conds:
            for s in subterms(c):
                subs.add(s)
        for s in sorted(subs, key=str):
            opts = None
            if s[0] == "elem":
                opts = choices(p, s[1], f)
            if s[0] in ("key", "elem") and opts is None:
                for c, b in conds:
                    if b and c[0] == "op" and c[2] == s:
                        if c[1] == "==" and c[3][0] == "c":
                            opts = [c[3]]
                        elif c[1] == "in":
                            opts = choices(p, c[3], f)
                    elif b and c[0] == "op" and c[1] == "==" and c[3] == s and c[2][0] == "c":
                        opts = [c[2]]
                    if opts:
                        break
            if opts:
                for o in opts:
                    m = {s: o}
                    cs = tuple((subst(c, m), b) for c, b in conds)
                    work.append((cs, subst(t, m)))
                done = False
                break
        if not done:
            continue
        if contradictory(p, conds, f):
            continue
        out.append((conds, t))
    res = []
    for conds, t in out:
        ps = {s[1] for s in subterms(t) if s[0] == "param"} & set(f.params) - {"self", "args", "parser"}
        sites = p.call_sites().get(f.qual, []) if ps and depth < 2 and f.name != "set_parameter" else []
        if not sites:
            res.append((conds, t))
            continue
        for ce, bound, exact in sites:
            for cconds, ct in instances(p, ce, ce.fn, depth + 1):
                b2, errs, ex = p.bind(f, ct[2], ct[3], p.is_unbound(ct[1], ce.fn, f))
                m = {("param", k): v for k, v in b2.items() if isinstance(v, tuple) and k != "self"}
                res.append((cconds + tuple((subst(c, m), b) for c, b in conds), subst(t, m)))
    return res


def contradictory(p, conds, f):
    for c, b in conds:
        if c[0] != "op":
            continue
        x, y = c[2], c[3] if len(c) > 3 else None
        if c[1] in ("==", "!=") and x[0] == "c" and y and y[0] == "c":
            if (x == y) != ((c[1] == "==") == b):
                return True
        if c[1] in ("in", "not in") and x[0] == "c" and y and y[0] in ("tuple", "list", "set", "gvar", "attr"):
            o = choices(p, y, f) if y[0] != "attr" or y[1] == ("self",) else None
            if o is not None and o and all(z[0] == "c" for z in o) and (x in o) != ((c[1] == "in") == b):
                return True
    return False


class Opt:
    def __init__(self, names, kw, f, line):
        self.names, self.f, self.line = names, f, line
        long = [x for x in names if x.startswith("--")]
        self.dest = kw["dest"][1] if "dest" in kw and kw["dest"][0] == "c" else (long or names)[0].lstrip("-").replace("-", "_")
        self.action = kw["action"][1] if "action" in kw and kw["action"][0] == "c" else None
        self.type = kw["type"][1] if "type" in kw and kw["type"][0] == "builtin" else None
        self.default = kw.get("default", ("c", False) if self.action == "store_true" else ("c", True) if self.action == "store_false" else ("c", None))
        self.nargs = kw.get("nargs", ("c", None))[1]
        self.const = kw.get("const", ("c", None))


def is_args(t):
    return t == ("attr", ("self",), "_args") or t == ("param", "args") or (t[0] == "call" and t[1] == ("builtin", "vars") and t[2] and is_args(t[2][0]))


def argattrs(t):
    out = set()
    for s in subterms(t):
        if s[0] == "attr" and is_args(s[1]):
            out.add(s[2])
        elif s[0] == "sub" and is_args(s[1]) and s[2][0] == "c":
            out.add(s[2][1])
        elif s[0] == "call" and s[1] == ("builtin", "getattr") and len(s[2]) > 1 and is_args(s[2][0]) and s[2][1][0] == "c":
            out.add(s[2][1][1])
    return out


def members(conds, test):
    """Constants tested for membership in a container satisfying `test`."""
    out = set()
    for c, b in conds:
        for s in subterms(c):
            if s[0] == "op" and s[1] in ("in", "not in") and s[2][0] == "c" and test(s[3]):
                out.add(s[2][1])
            if s[0] == "call" and s[1] == ("builtin", "hasattr") and len(s[2]) > 1 and s[2][1][0] == "c" and test(s[2][0]):
                out.add(s[2][1][1])
    return out


def is_confs(t):
    return t[0] == "attr" and t[2] == "_confs" or t == ("param", "confs")


def is_params(t):
    return t[0] == "attr" and t[2] == "_parameters" or t == ("param", "params")


def keysof(t, test):
    out = set()
    for s in subterms(t):
        if s[0] == "sub" and test(s[1]) and s[2][0] == "c":
            out.add(s[2][1])
        if s[0] == "call" and s[1][0] == "attr" and s[1][2] in ("get", "pop") and test(s[1][1]) and s[2] and s[2][0][0] == "c":
            out.add(s[2][0][1])
    return out


def run(R):
    p = pyx.project()
    R.explanation = "Options are followed from the command line and the configuration file to the settings and their use."
    R.assumptions = ["phonopy's ConfParser and Settings base classes behave as in the installed version, whose source is analysed as well",
                     "configuration keys reach the parser in lower case, as phonopy's read_file stores them"]
    opts(R, p)
    conf(R, p)
    R.require("options", 60)
    R.require("configuration keys", 40)
    R.require("settings methods called", 40)


def parsers(R, p):
    out = {}
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind != "call" or e.t[1][0] != "attr" or e.t[1][2] != "add_argument":
                continue
            for conds, t in instances(p, e, f):
                names = [x[1] for x in t[2] if x[0] == "c"]
                if not names or len(names) < len(t[2]):
                    R.undecided.append("option with computed name at %s:%s" % (f.qual, e.line))
                    out.setdefault(f.module.name, {"opts": [], "open": True})["open"] = True
                    continue
                R.count("options")
                out.setdefault(f.module.name, {"opts": [], "open": False})["opts"].append(Opt(names, dict(t[3]), f, e.line))
    return out


def users(p):
    """Attribute name -> functions reading it from a parsed-arguments object, per module."""
    out, whole = {}, set()
    for q, f in list(p.funcs.items()):
        if not (f in own(p) or f.module.name.startswith("phonopy.cui")):
            continue
        for e in p.events(f):
            xs = set()
            for t in [x for x in e.t if isinstance(x, tuple)] if e.kind != "call" else [e.t]:
                if t and isinstance(t[0], str):
                    xs |= argattrs(t) | {s[2] for s in subterms(t) if s[0] == "attr" and argsy(s[1], p)}
            if e.kind == "load_attr":
                b = e.t
                if b[0] == "attr" and argsy(b[1], p):
                    xs.add(b[2])
            for x in xs:
                out.setdefault(x, set()).add(f)
    return out


_argfn = {}


def argsy(t, p=None, depth=0):
    """Is the term a namespace of parsed options?"""
    if is_args(t):
        return True
    if t[0] == "param" and "arg" in t[1]:
        return True
    if t[0] == "call":
        if t[1][0] == "attr" and t[1][2] == "parse_args" or t[1][0] == "func" and ("get_options" in t[1][1] or "parse" in t[1][1].rsplit(".", 1)[-1]):
            return True
        return argfn(t[1], p, None, depth)
    if t[0] == "item" and t[2][0] == "call" and argfn(t[2][1], p, t[1], depth):
        return True
    if t[0] == "ite":
        return argsy(t[2], p, depth) or argsy(t[3], p, depth)
    if t[0] == "item" or t[0] == "phi":
        return any(argsy(x, p, depth) for x in flat(t))
    return False


def flat(t):
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            out += [x] if isinstance(x[0], str) else [y for y in x if isinstance(y, tuple) and y]
    return out


def argfn(c, p, i, depth):
    """Does the called function return parsed options (as its i-th value)?"""
    if c[0] != "func" or p is None or depth > 2 or c[1] not in p.funcs:
        return False
    key = (c[1], i)
    if key not in _argfn:
        _argfn[key] = False
        for e in p.returns(p.funcs[c[1]]):
            for t in pyx.alts(e.t):
                if i is not None:
                    if t[0] not in ("tuple", "list") or i >= len(t[1]):
                        continue
                    t = t[1][i]
                if argsy(t, p, depth + 1):
                    _argfn[key] = True
    return _argfn[key]


_own = {}


def own(p):
    if id(p) not in _own:
        _own[id(p)] = set(p.own_funcs())
    return _own[id(p)]


def opts(R, p):
    """Each option is stored under its own destination, and something reads it."""
    P = parsers(R, p)
    for mod, d in P.items():
        main = mod.endswith("phono3py_argparse")
        byd = {}
        for o in d["opts"]:
            byd.setdefault(o.dest, []).append(o)
        allnames = {N(n.lstrip("-")): o for o in d["opts"] for n in o.names if n.startswith("--")}
        for o in d["opts"]:
            where = o.f.module.file if hasattr(o.f.module, "file") else o.f.file
            own_ = {N(n.lstrip("-")) for n in o.names if n.startswith("--")}
            dn = N(o.dest)
            if dn not in own_ and dn in allnames and allnames[dn].dest != o.dest:
                R.report("option-destination", o.f.qual, o.names[-1], "the option stores under '%s', the name of %s" % (o.dest, "/".join(allnames[dn].names)), o.line)
            if dn not in own_:
                # an option that is named like another destination but stores elsewhere
                for n in sorted(own_):
                    other = [x for x in byd if N(x) == n and x != o.dest and not any(N(y.lstrip("-")) == n for z in byd[x] for y in z.names)]
                    if other:
                        R.report("option-destination", o.f.qual, o.names[-1], "the option stores under '%s' although '%s' exists" % (o.dest, other[0]), o.line)
        for o in d["opts"]:
            if o.action in ("store_true", "store_false") and o.default == ("c", o.action == "store_true") and len(byd[o.dest]) == 1:
                R.report("no-effect", o.f.qual, "/".join(o.names), "the switch sets '%s' to %s, which is its default" % (o.dest, o.default[1]), o.line)
        for dest, os in byd.items():
            sig = {(o.action, o.type, o.nargs, str(o.const)) for o in os}
            os = [o for o in os if any(n.startswith("-") for n in o.names)]
            if len(os) > 1:
                alike = {o.action for o in os} <= {"store_true", "store_false", "store_const"}
                longs = [{N(n.lstrip("-")) for n in o.names} for o in os]
                if not alike or len({(o.action, str(o.const)) for o in os}) < len(os):
                    R.report("shared-destination", os[1].f.qual, "/".join(os[1].names), "stores under '%s' like %s, so one of the two has no effect of its own" % (dest, "/".join(os[0].names)), os[1].line)
    R.P = P
    rd = users(p)
    for mod, d in P.items():
        for o in d["opts"]:
            fs = rd.get(o.dest, set())
            if mod.endswith("phono3py_argparse"):
                fs = [f for f in fs if f.module.name.startswith(("phono3py.cui", "phonopy.cui")) and "kaccum" not in f.module.name]
            else:
                fs = [f for f in fs if f.module.name == mod or not any(f.module.name == m for m in P)]
            R.count("option destinations")
            if not fs:
                R.report("option-dropped", o.f.qual, "/".join(o.names), "nothing reads its destination '%s'" % o.dest, o.line)


def conf(R, p):
    cp = [c for c in p.classes.values() if p.member(c, "set_parameter") and c.module.name in p._ownset and c.module.name.endswith("settings")]
    if not cp:
        raise Broken("no configuration parser class found")
    cls = cp[0]
    fam = [f for c in p.mro(cls) for f in p.class_funcs(c)]
    ownfam = [f for f in fam if f in own(p)]
    opts_ = {}
    for mod, d in R.P.items():
        if mod.endswith("phono3py_argparse"):
            for o in d["opts"]:
                opts_.setdefault(o.dest, []).append(o)
    A, B, C = [], [], []            # edges: dest->key, key->param, param->setting
    openA = openB = openC = False
    for f in fam:
        for e in p.events(f):
            if e.kind == "store_sub" and is_confs(e.t[0]) and f.name != "read_file":
                for conds, t in instances(p, e, f):
                    if t[1][0] != "c":
                        openA = True
                        R.undecided.append("configuration key computed at %s:%s" % (f.qual, e.line))
                        continue
                    R.count("configuration keys", 1)
                    A.append((f, e, conds, t[1][1], t[2]))
            elif e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2] == "set_parameter" and len(e.t[2]) + len(e.t[3]) >= 2:
                for conds, t in instances(p, e, f):
                    b, _, _ = p.bind(p.member(cls, "set_parameter")[1], t[2], t[3], False)
                    vs = list(t[2]) + [v for _, v in t[3]]
                    if vs[0][0] != "c":
                        openB = True
                        R.undecided.append("parameter name computed at %s:%s" % (f.qual, e.line))
                        continue
                    B.append((f, e, conds, vs[0][1], vs[1]))
            elif e.kind == "store_sub" and is_params(e.t[0]) and f.name != "set_parameter":
                for conds, t in instances(p, e, f):
                    if t[1][0] != "c":
                        openB = True
                        continue
                    B.append((f, e, conds, t[1][1], t[2]))
            elif e.kind == "call" and (e.t[1][0] == "attr" and e.t[1][1] == ("attr", ("self",), "_settings") or e.t[1][0] == "call" and e.t[1][1] == ("builtin", "getattr")):
                for conds, t in instances(p, e, f):
                    cal = t[1]
                    if cal[0] == "attr" and cal[2].startswith("set_"):
                        R.count("settings methods called")
                        C.append((f, e, conds, cal[2], (list(t[2]) + [v for _, v in t[3]] + [("c", None)])[0]))
                    elif cal[0] != "attr":
                        openC = True
    # ---- A: options to configuration keys
    conf_keys = {k for _, _, _, k, _ in A} | {k for _, _, conds, _, v in B for k in keysof(v, is_confs) | set(guards(conds))}
    text = {}                       # (key, option): the option stands for a fixed word
    for f, e, conds, k, v in A:
        if v[0] == "c" and isinstance(v[1], str) and v[1].lower() not in BOOL:
            for c, _ in conds:
                for x in argattrs(c):
                    text[(k, x)] = True
    srcs = {}
    for f, e, conds, k, v in A:
        for x in argattrs(v) | (set() if argattrs(v) else {y for c, _ in conds for y in argattrs(c)}):
            srcs.setdefault(k, set()).add(x)
    dests = set(opts_)
    by_src = {}
    for k, xs in srcs.items():
        for x in xs:
            by_src.setdefault(x, set()).add(k)
    for f, e, conds, k, v in A:
        if f not in own(p):
            continue
        vx = argattrs(v)
        cx = set()
        for c, _ in conds:
            cx |= argattrs(c)
        mem = members(conds, is_args)
        src = vx or cx
        R.count("option edges")
        if vx and cx - vx:
            R.report("foreign-guard", f.qual, k, "the value comes from option '%s' but is stored depending on '%s'" % ("', '".join(sorted(vx)), "', '".join(sorted(cx - vx))), e.line)
        if not vx and len(cx) > 1:
            R.report("foreign-guard", f.qual, k, "the stored value depends on several options: %s" % ", ".join(sorted(cx)), e.line)
        if mem and src and not mem <= src:
            R.report("foreign-guard", f.qual, k, "presence of option '%s' is tested, '%s' is used" % ("', '".join(sorted(mem - src)), "', '".join(sorted(src))), e.line)
        for x in src:
            cross(R, "crossed-option", f, e, x, k, dests, conf_keys, by_src, srcs)
            for o in opts_.get(x, []):
                polarity(R, f, e, conds, x, k, v, o)
                if o.type in ("int", "float") and v[0] != "c":
                    for c, b in conds:
                        if c == ("attr", ("attr", ("self",), "_args"), x) and b and o.default == ("c", None):
                            R.report("zero-dropped", f.qual, k, "the value 0 given to '%s' is treated as not given" % x, e.line)
                if v[0] != "c" and o.default[0] == "c" and o.default[1] not in (None, False) and o.action is None:
                    R.report("default-overrides", f.qual, k, "option '%s' has default %r, which overrides the tag even if the option is not given" % (x, o.default[1]), e.line)
    # several options into one key
    # ---- B: keys to parameters
    handled = {}
    B2 = []
    for f, e, conds, prm, v in B:
        ks = keysof(v, is_confs)
        g = guards(conds)
        gk = set(g)
        mk = members([(c, b) for c, b in conds], is_confs)
        src = ks or gk or mk
        B2.append((f, e, conds, prm, v, src))
        for k in src:
            handled.setdefault(k, set()).add(prm)
        if f not in own(p):
            continue
        R.count("tag edges")
        if ks and (gk | mk) and not ks <= (gk | mk):
            R.report("foreign-guard", f.qual, prm, "the tag '%s' is read when '%s' is given" % ("', '".join(sorted(ks)), "', '".join(sorted(gk | mk))), e.line)
        cv = set()
        for c, b in conds:
            cv |= keysof(c, is_confs)
        if (ks or gk | mk) and cv - (ks or gk | mk):
            R.report("foreign-guard", f.qual, prm, "the tag '%s' takes effect depending on the value of '%s'" % ("', '".join(sorted(ks or gk | mk)), "', '".join(sorted(cv - (ks or gk | mk)))), e.line)
    prms = {b[3] for b in B2}
    bsrc = {}
    for f, e, conds, prm, v, src in B2:
        for k in src:
            bsrc.setdefault(prm, set()).add(k)
    for f, e, conds, prm, v, src in B2:
        if f not in own(p):
            continue
        for k in src:
            if k != k.lower():
                R.report("tag-case", f.qual, k, "the file reader stores tags in lower case, so the tag %s in a file never matches '%s'" % (k.upper(), k), e.line)
            cross(R, "crossed-tag", f, e, k, prm, set(handled), prms, handled, bsrc)
            convert(R, f, e, conds, k, prm, v, srcs.get(k, set()), opts_, text)
    if not openB:
        for f, e, conds, k, v in A:
            if f in own(p) and k not in handled:
                R.report("key-dropped", f.qual, k, "the key '%s' set from an option is not parsed" % k, e.line)
    # ---- C: parameters to settings
    used = {}
    C2 = []
    for f, e, conds, m, v in C:
        ks = keysof(v, is_params)
        mk = members(conds, is_params)
        C2.append((f, e, conds, m, v, ks or mk))
        for k in ks or mk:
            used.setdefault(k, set()).add(m)
        if f not in own(p):
            continue
        if ks and mk and not ks <= mk:
            R.report("foreign-guard", f.qual, m, "parameter '%s' is used when '%s' is given" % ("', '".join(sorted(ks)), "', '".join(sorted(mk))), e.line)
        if mk and ks and mk - ks:
            R.report("foreign-guard", f.qual, m, "parameter '%s' takes effect only if '%s' is given" % ("', '".join(sorted(ks)), "', '".join(sorted(mk - ks))), e.line)
    setters = {m for _, _, _, m, _, _ in C2}
    csrc = {}
    for f, e, conds, m, v, src in C2:
        for k in src:
            csrc.setdefault(N(m), set()).add(N(k))
    usedN = {}
    for k, ms in used.items():
        usedN.setdefault(N(k), set()).update(N(m) for m in ms)
    for f, e, conds, m, v, src in C2:
        if f not in own(p):
            continue
        for k in src:
            cross(R, "crossed-setting", f, e, N(k), N(m), set(usedN), {N(x) for x in setters}, usedN, csrc)
    if not openC:
        direct = set()
        for f in fam:
            for e in p.events(f):
                if e.kind == "load_sub" or e.kind == "call":
                    for s in subterms(e.t if e.kind == "call" else ("sub",) + tuple(e.extra or ()) if e.extra else ("c", None)):
                        if s[0] == "sub" and len(s) == 3 and is_params(s[1]) and s[2][0] == "c":
                            direct.add(s[2][1])
        for f, e, conds, prm, v, src in B2:
            if f in own(p) and prm not in used and prm not in direct:
                R.report("parameter-dropped", f.qual, prm, "the parameter is parsed and then not used", e.line)
    settings(R, p, cls, {m for _, _, _, m, _, _ in C2}, C2, A, B2, opts_, srcs, bsrc, prms)
    order(R, p, cls, fam)


def cross(R, rule, f, e, x, y, xs, ys, fwd, back):
    """Edge x -> y where y (x) is the name of another source (target)."""
    if N(x) == N(y):
        return
    if any(N(z) == N(y) for z in xs if z != x) and not any(N(z) == N(y) for z in back.get(y, ())):
        R.report(rule, f.qual, y, "'%s' is stored as '%s', which has a source of that name" % (x, y), e.line)
    elif any(N(z) == N(y) for z in back.get(y, ())):
        # y has its own source as well; x may be an alternative only if x has no target of its own
        if any(N(z) == N(x) for z in ys):
            R.report(rule, f.qual, y, "'%s' is stored as '%s' although '%s' exists" % (x, y, x), e.line)
    elif any(N(z) == N(x) for z in ys):
        R.report(rule, f.qual, y, "'%s' is stored as '%s' although '%s' exists" % (x, y, x), e.line)


def truth(conds, x):
    """Polarity of option x in the conditions: True / False / None."""
    a = ("attr", ("attr", ("self",), "_args"), x)
    r = None
    for c, b in conds:
        if c == a:
            r = b
        elif c[0] == "not" and c[1] == a:
            r = not b
        elif c[0] == "op" and c[1] in ("is", "==") and c[2] == a and c[3] in (("c", True), ("c", False)):
            r = b == c[3][1]
    return r


def polarity(R, f, e, conds, x, k, v, o):
    if v[0] != "c" or not isinstance(v[1], str) or v[1].lower() not in BOOL:
        return
    val = BOOL[v[1].lower()]
    t = truth(conds, x)
    if t is None:
        return
    neg = N(x).startswith(("no_", "not_")) or N(x).startswith("no") and N(x)[2:].lstrip("_") == k
    if (val == t) == bool(neg) and (N(x) == N(k) or neg):
        R.report("polarity", f.qual, k, "option '%s' being %s sets '%s' to %s" % (x, t, k, v[1]), e.line)
    if o.default == ("c", t) and o.action in ("store_true", "store_false", None):
        R.report("default-overrides", f.qual, k, "the value is stored when option '%s' is not given, overriding the tag in a file" % x, e.line)
    elif o.action == "store_true" and t is False:
        R.report("polarity", f.qual, k, "the value is stored when the option '%s' is not given" % x, e.line)


def guards(conds):
    """Constant keys the loop key is compared with."""
    out = []
    for c, b in conds:
        if b and c[0] == "op" and c[1] == "==" and c[2][0] == "c" and c[3][0] == "c" and c[2] == c[3]:
            out.append(c[2][1])
        elif b and c[0] == "op" and c[1] == "in" and c[2][0] == "c" and c[3][0] in ("tuple", "list", "set"):
            out.append(c[2][1])
        elif b and c[0] == "op" and c[1] == "in" and c[2][0] == "c" and c[3][0] in ("gvar",):
            out.append(c[2][1])
    return out


def convert(R, f, e, conds, k, prm, v, xs, opts_, text):
    """Conversion of the tag's text agrees with the option's type and the value's polarity."""
    conv = None
    if v[0] == "call" and v[1] in (("builtin", "float"), ("builtin", "int"), ("builtin", "str")) and keysof(v[2][0] if v[2] else ("c", 0), is_confs):
        conv = v[1][1]
    if v[0] == "comp" or any(s[0] == "comp" for s in subterms(v)):
        for s in subterms(v):
            if s[0] == "call" and s[1] in (("builtin", "float"), ("builtin", "int")):
                conv = s[1][1]
    for x in xs:
        for o in opts_.get(x, []):
            if o.type == "float" and conv == "int":
                R.report("conversion", f.qual, k, "option '%s' is a float, the tag is converted to int" % x, e.line)
            if o.type in ("float", "int") and conv is None and keysof(v, is_confs) and v[0] == "sub":
                R.report("conversion", f.qual, k, "option '%s' is a number, the tag stays text" % x, e.line)
            if o.type == "int" and conv == "float":
                R.report("conversion", f.qual, k, "option '%s' is an int, the tag is converted to float" % x, e.line)
            if o.action in ("store_true", "store_false") and keysof(v, is_confs) and not text.get((k, x)):
                R.report("conversion", f.qual, k, "option '%s' is a switch, but the tag's value is used as it stands" % x, e.line)
    if v[0] == "c" and isinstance(v[1], bool):
        for c, b in conds:
            if c[0] == "op" and c[1] in ("==", "!=") and c[3][0] == "c" and isinstance(c[3][1], str) and c[3][1].lower() in BOOL and keysof(c[2], is_confs):
                folded = [s[1][2] for s in subterms(c[2]) if s[0] == "call" and s[1][0] == "attr" and s[1][2] in ("lower", "upper", "casefold")]
                if not folded or c[3][1] != (c[3][1].upper() if folded[0] == "upper" else c[3][1].lower()):
                    R.report("tag-value-case", f.qual, k, "%s is matched only in one spelling" % c[3][1], e.line)
        tests = [(c[3][1].lower(), b == (c[1] == "==")) for c, b in conds
                 if c[0] == "op" and c[1] in ("==", "!=") and c[3][0] == "c" and isinstance(c[3][1], str) and c[2][0] != "c"]
        for w, eq in tests:
            if w in BOOL and (eq and BOOL[w] != v[1] or not eq and BOOL[w] == v[1] and not any(q for _, q in tests)):
                R.report("polarity", f.qual, k, "%s%s sets the parameter to %s" % ("" if eq else "anything but ", w, v[1]), e.line)


def settings(R, p, cls, methods, C2, A, B2, opts_, srcs, bsrc, prms):
    """set_X stores under X, X has a default, and somebody reads it."""
    own_ = [m for m in methods]
    sc = [c for c in p.classes.values() if c.module.name in p._ownset and c is not cls and sum(m in c.methods for m in own_) > 5]
    if not sc:
        R.undecided.append("no settings class found")
        return
    sc = sc[0]
    defaults = {}
    for c in p.mro(sc):
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_default" for t in st.targets) and isinstance(st.value, ast.Dict):
                for a, b in zip(st.value.keys, st.value.values):
                    if isinstance(a, ast.Constant):
                        defaults.setdefault(a.value, b)
    names = {N(c) for c in defaults}
    stored = {}
    for c in p.mro(sc):
        for f in p.class_funcs(c):
            if not f.name.startswith("set_"):
                continue
            keys = set()
            for e in p.events(f):
                if e.kind == "store_sub" and e.t[0][0] == "attr" and e.t[0][2] == "_v" and e.t[1][0] == "c":
                    keys.add((e.t[1][1], e.t[2], e.line, e.conds))
                elif e.kind == "store_attr" and e.t[0] == ("self",):
                    keys.add((e.t[1], e.t[2], e.line, e.conds))
            stored.setdefault(f.name, (f, keys))
    reads = {}
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind == "load_attr" and e.t[0] == "attr":
                if not is_args(e.t[1]):
                    reads.setdefault(e.t[2], set()).add(f)
            elif e.kind == "call" and e.t[1] == ("builtin", "getattr") and len(e.t[2]) > 1 and e.t[2][1][0] == "c":
                reads.setdefault(e.t[2][1][1], set()).add(f)
    for m, (f, keys) in stored.items():
        if f not in own(p):
            continue
        own_name = m[4:]
        for k, v, line, conds in keys:
            R.count("settings stored")
            if k != own_name and (own_name in defaults or k in {x[4:] for x in stored if x != m}):
                R.report("setter-store", f.qual, m, "the method stores under '%s'" % k, line)
            if defaults and k not in defaults and f in own(p):
                R.report("setter-store", f.qual, m, "'%s' is not among the settings" % k, line)
        if f.params[1:] and not any(x == ("param", f.params[-1]) for k, v, _, _ in keys for x in subterms(v)):
            R.report("setter-store", f.qual, m, "the given value is not stored", f.node.lineno)
    called = {}
    for f, e, conds, m, v, src in C2:
        called.setdefault(m, []).append((f, e, src))
        if m not in stored and f in own(p) and set(src) <= prms:
            R.report("setter-missing", f.qual, m, "the settings have no method of this name", e.line)
    for m, (f, keys) in stored.items():
        if m not in called and f in own(p):
            R.report("setting-unreachable", f.qual, m, "no tag or option leads to this setting", f.node.lineno)
    for m, cs in called.items():
        f = stored.get(m, (None,))[0]
        if f is None or f not in own(p):
            continue
        for k, v, line, conds in stored[m][1]:
            fs = [g for g in reads.get(k, ()) if g.cls is not sc]
            R.count("settings read")
            if not fs:
                R.report("setting-unused", f.qual, k, "the setting is never read", line)
                continue
            d = defaults.get(k)
            if d is None or isinstance(d, ast.Constant) and isinstance(d.value, bool):
                continue
            ls = [(g, e) for g in fs for e in p.events(g) if e.kind == "load_attr" and e.t[0] == "attr" and e.t[2] == k and not is_args(e.t[1])]
            if ls and all(settingsy(p, sc, g, e.t[1]) for g, e in ls) and all(truth_test(g, e.node) for g, e in ls):
                R.report("setting-unused", f.qual, k, "only whether the setting is given is looked at, never its value", line)
    # a switch that can only give the default has no effect
    fixed = [("", e.t[1][2], list(e.t[2]) + [v for _, v in e.t[3]]) for f in p.own_funcs() for e in p.events(f) if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2] in called]
    for m, cs in called.items():
        if m not in stored:
            continue
        for k, v, line, conds in stored[m][1]:
            d = defaults.get(k)
            if not isinstance(d, ast.Constant) or not isinstance(d.value, bool):
                continue
            for f, e, src in cs:
                for prm in src:
                    for ck in bsrc.get(prm, {prm}):
                        vals = {}
                        for af, ae, aconds, key, av in A:
                            if key == ck and av[0] == "c" and isinstance(av[1], str) and av[1].lower() in BOOL:
                                vals.setdefault(BOOL[av[1].lower()], (af, ae))
                        given = {x[2][0][1] for x in fixed if x[1] == m and x[2] and x[2][0][0] == "c"}
                        if vals and set(vals) == {d.value} and given <= {d.value}:
                            af, ae = list(vals.values())[0]
                            if af in own(p):
                                R.report("no-effect", af.qual, ck, "the option can only set '%s' to %s, which is the default" % (k, d.value), ae.line)
                        if True in vals and False in vals and {o.action for x in srcs.get(ck, ()) for o in opts_.get(x, [])} and len(srcs.get(ck, ())) == 1:
                            af, ae = vals[d.value]
                            if af in own(p):
                                R.report("default-overrides", af.qual, ck, "the option sets '%s' even if it is not given, overriding the tag in a file" % ck, ae.line)


def settingsy(p, sc, g, base):
    ts = p.typeof(base, g)
    if any(t[0] == "inst" and p.classes.get(t[1]) is not None and sc in p.mro(p.classes[t[1]]) for t in ts):
        return True
    return base in (("param", "settings"), ("attr", ("self",), "_settings"))


_up = {}


def truth_test(g, node):
    """The node only decides a branch: by its truth or by being None."""
    if g.qual not in _up:
        _up[g.qual] = {c: n for n in ast.walk(g.node) for c in ast.iter_child_nodes(n)}
    up, x = _up[g.qual], node
    while x in up:
        q = up[x]
        if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not) or isinstance(q, ast.BoolOp):
            x = q
        elif isinstance(q, ast.Compare) and x is q.left and all(isinstance(o, (ast.Is, ast.IsNot)) for o in q.ops):
            x = q
        else:
            return isinstance(q, (ast.If, ast.IfExp, ast.While)) and q.test is x
    return False


def order(R, p, cls, fam):
    """Both inputs are parsed, and command-line options are applied after the file."""
    f = p.member(cls, "__init__")[1]
    seq = []

    def walk(g, conds, depth):
        for e in p.events(g):
            if e.kind != "call" or depth > 3:
                continue
            c = e.t[1]
            if c[0] == "attr" and c[1] == ("self",):
                seq.append((c[2], conds + e.conds, e.line, g))
                m = p.member(cls, c[2])
                if m and m[0] == "method" and m[1] in own(p) and c[2] not in ("_read_options", "_parse_conf", "_set_settings"):
                    walk(m[1], conds + e.conds, depth + 1)
    walk(f, (), 0)
    names = [x[0] for x in seq]

    def fam_of(short):
        return {"read_options": ("read_options", "_read_options"), "parse": ("parse_conf", "_parse_conf"), "set": ("set_settings", "_set_settings"), "file": ("read_file",)}[short]
    pos = {s: [i for i, n in enumerate(names) if n in fam_of(s)] for s in ("file", "read_options", "parse", "set")}
    R.count("construction steps", len(names))
    for s, what in (("file", "the configuration file"), ("read_options", "the options")):
        if not pos[s]:
            R.report("input-ignored", f.qual, s, "%s are not read" % what, f.node.lineno)
            return
    first, last = pos["file"][0], pos["read_options"][-1]
    if first > last:
        R.report("precedence", f.qual, "order", "the file is read after the options and overrides them", seq[first][2])
    for s in ("parse", "set"):
        if not any(i > last for i in pos[s]):
            R.report("input-ignored", f.qual, s, "the options are read but not %s afterwards" % ("parsed" if s == "parse" else "applied"), seq[last][2])
        if not any(i > first for i in pos[s]):
            R.report("input-ignored", f.qual, s, "the file is read but not %s afterwards" % ("parsed" if s == "parse" else "applied"), seq[first][2])
    for s, par in (("file", "filename"), ("read_options", "args")):
        for i in pos[s]:
            for c, b in seq[i][1]:
                ps = {x[1] for x in subterms(c) if x[0] == "param"}
                if ps and par not in ps:
                    R.report("input-ignored", f.qual, s, "this step depends on '%s'" % "', '".join(sorted(ps)), seq[i][2])
