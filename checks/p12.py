"""P12: abstract evaluation of every file name built (template over the parameters) and comparison of writers, readers, their call sites and their dataset keys.

The set of names each writer and reader can build is computed path by path through the functions involved. Reader and writer of a kind must build the same set; each parameter that tells results apart must enter the name on every path where it may be given, with a separator; two kinds never share a name; a writer called in a loop gets a name that varies with the loop; the call sites of one kind pass the same run-wide parameters, and readers only combinations some writer uses; a key read without a presence test, or looked up in a reader's result, is one the writer or reader provides."""
import re
import pyx, roles, strtmpl
from strtmpl import Str, text_of

TELLS = {"mesh", "grid_point", "band_index", "band_indices", "sigma", "sigma_cutoff", "filename", "epsilon", "scattering_event_class", "temperature"}
LOCAL = {"grid_point", "band_index", "band_indices", "temperature", "scattering_event_class"}
RUNWIDE = {"mesh", "sigma", "sigma_cutoff", "filename", "epsilon"}
IMPLIED_NONE = {"band_indices": {("all_band_exist", True)}, "sigma_cutoff": {("sigma is None", True)}}
ZERO = {"grid_point", "band_index", "temperature", "scattering_event_class"}   # zero is a value, not an absence
REAL = {"sigma", "sigma_cutoff", "temperature", "epsilon"}


def opened(e):
    """(name argument index 0, mode) of a call that opens a file."""
    if e.kind != "call" or not e.t[2] or e.t[1][0] not in ("ext", "builtin"):
        return None
    q = e.t[1][1]
    if not (q.endswith(".File") or q in ("open", "builtins.open", "io.open", "lzma.open", "gzip.open")):
        return None
    kw = dict(e.t[3])
    m = e.t[2][1] if len(e.t[2]) > 1 else kw.get("mode", ("c", "r"))
    return m[1] if m[0] == "c" else "?"


def isfile(t):
    return any(a[0] == "call" and a[1][0] == "ext" and a[1][1].endswith(".File") for a in pyx.alts(t))


class Opening:
    def __init__(self, f, e, mode, paths):
        self.f, self.e, self.mode, self.paths = f, e, mode, paths
        self.texts = {text_of(v.parts) for c, v in paths}
        self.leaves = {x for c, v in paths for x in v.leaves()}
        self.prefix = sorted({v.parts[0][1] for c, v in paths})[0]
        self.ext = sorted({v.parts[-1][1].rsplit(".", 1)[-1] for c, v in paths if v.parts[-1][0] == "lit" and "." in v.parts[-1][1]} or {""})[0]
        self.kind = (self.prefix.split("-")[0], self.ext)


def is_template(paths):
    return bool(paths) and all(isinstance(v, Str) and len(v.parts) > 1 and v.parts[0][0] == "lit" for c, v in paths)


def openings(R, p):
    w = strtmpl.Walker(p)
    out, todo = [], []
    for f in p.own_funcs():
        for e in p.events(f):
            m = opened(e)
            if m is not None:
                todo.append((f, e, m, e.node.args[0], 0))
    while todo:
        f, e, m, node, depth = todo.pop(0)
        R.count("openings")
        try:
            paths = w.at(f, node)
        except strtmpl.Unknown as x:
            R.undecided.append("%s: %s" % (f.qual, x))
            continue
        if is_template(paths):
            out.append(Opening(f, e, m, paths))
            continue
        if depth < 2 and len(paths) == 1 and not isinstance(paths[0][1], Str) and paths[0][1].text in f.params:
            par = paths[0][1].text
            for (e2, d2, ex2) in p.call_sites().get(f.qual, ()):
                g = e2.fn
                x = argnode(p, f, g, e2, par)
                if x is not None:
                    todo.append((g, e2, m, x, depth + 1))
    return out, w


def argnode(p, f, g, e, par):
    n = e.node
    if not hasattr(n, "args"):
        return None
    for k in n.keywords:
        if k.arg == par:
            return k.value
    ps = list(f.params)
    off = 1 if f.cls is not None and ps and ps[0] == "self" else 0
    i = ps.index(par) - off if par in ps else -1
    if 0 <= i < len(n.args) and not any(type(a).__name__ == "Starred" for a in n.args[:i + 1]):
        return n.args[i]
    return None


def run(R):
    p = pyx.project()
    R.explanation = "File-name templates of all writers and readers, compared with each other, with their call sites and with the dataset keys."
    R.assumptions = ["a parameter tells results apart if its name is one of: " + ", ".join(sorted(TELLS)) + " (temperature: in the text formats, one file per temperature)",
                     "the smearing cutoff has no meaning without a smearing width",
                     "numbers that agree to the digits kept in a name (six decimals) are the same parameter"]
    ops, w = openings(R, p)
    R.counts["templates"] = sum(len(o.texts) for o in ops)
    wr = [o for o in ops if o.mode[:1] in ("w", "a", "x")]
    rd = [o for o in ops if o.mode[:1] == "r"]
    R.count("writers", len(wr))
    R.count("readers", len(rd))
    readback = {}
    for o in rd:
        match = [x for x in wr if x.kind == o.kind]
        if not match:
            if not any(o.texts & x.texts for x in wr):
                R.report("name-agreement", o.f.file, o.f.short, "no writer builds the file name read here: %s" % sorted(o.texts)[:1], o.e.line)
            continue
        R.count("reader_writer_pairs", len(match))
        for x in match:
            readback.setdefault(o.kind, []).append((o, x))
            if x.texts != o.texts:
                a, b = sorted(o.texts - x.texts), sorted(x.texts - o.texts)
                R.report("name-agreement", o.f.file, "%s / %s" % (o.f.short, x.f.short), "the reader looks for %s, the writer makes %s" % (a[:1], b[:1]), o.e.line)
    exists_checks(R, p, w, ops)
    for o in wr + rd:
        enters(R, o)
    for i, a in enumerate(wr):
        for b in wr[i + 1:]:
            if a.f is not b.f and a.texts & b.texts:
                R.report("name-shared", a.f.file, "%s / %s" % tuple(sorted((a.f.short, b.f.short))), "both writers make the file %s" % sorted(a.texts & b.texts)[0], a.e.line)
    sites(R, p, wr, rd)
    datasets(R, p, wr, rd)
    result_keys(R, p)
    for n, k in (("openings", 30), ("writers", 12), ("readers", 4), ("reader_writer_pairs", 4), ("call_sites", 20), ("keys_read", 12), ("result_lookups", 8), ("parameters_in_names", 60)):
        R.require(n, k)


def exists_checks(R, p, w, ops):
    byf = {}
    for o in ops:
        byf.setdefault(o.f, []).append(o)
    for f, os_ in byf.items():
        for e in p.events(f):
            if e.kind == "call" and e.t[1][0] == "ext" and e.t[1][1] in ("os.path.exists", "os.path.isfile") and e.t[2]:
                try:
                    paths = w.at(f, e.node.args[0])
                except strtmpl.Unknown:
                    continue
                t = {text_of(v.parts) for c, v in paths if isinstance(v, Str)}
                R.count("existence_tests")
                for o in os_:
                    if o.mode[:1] == "r" and t and t != o.texts:
                        R.report("tested-file", f.file, f.short, "the presence of %s is tested, but %s is opened" % (sorted(t - o.texts)[:1], sorted(o.texts - t)[:1]), e.line)


def enters(R, o):
    f = o.f
    own = {strtmpl.CANON.get(x, x) for x in list(f.params) + list(f.kwonly)}
    want = {x for x in own & TELLS if x != "temperature" or o.ext == "dat"}
    for x in sorted(want):
        R.count("parameters_in_names")
        bad = None
        for c, v in o.paths:
            if x in v.leaves():
                continue
            about = {t for t, lv, b in c if x in lv or (t, b) in IMPLIED_NONE.get(x, ())}
            given = [1 for t, lv, b in c if t == "%s is None" % x and not b or x in ZERO and t == x and not b]
            if given or not about:
                bad = text_of(v.parts)
                break
        if bad is not None:
            R.report("not-in-name", f.file, "%s: %s" % (f.short, x), "results of different %s are written to one file: %s" % (x, bad), o.e.line)
    for x, sp in sorted({q for c, v in o.paths for q in rounded(v.parts)}):
        R.report("rounded-in-name", f.file, "%s: %s" % (f.short, x), "%s enters the file name as %%%s: different values give the same name" % (x, sp), o.e.line)
    for t in sorted({q for c, v in o.paths for q in adjacent(v.parts)}):
        R.report("no-separator", f.file, t, "the numbers %s stand in the file name without a separator: different values give the same name" % t, o.e.line)


def rounded(parts):
    for q in parts:
        if q[0] == "fmt" and len(q[3]) == 1 and set(q[3]) & REAL:
            m = re.match(r"[-+ #0]*\d*\.(\d+)([fge])$", q[1])
            if q[1].endswith("d") or m and int(m.group(1)) < (4 if m.group(2) == "f" else 3):
                yield q[2], q[1]
        elif q[0] == "star":
            yield from rounded(q[1])
        elif q[0] == "meth":
            yield from rounded(q[2])


def adjacent(parts):
    def variable(q):
        return q[0] in ("fmt", "meth")
    for a, b in zip(parts, parts[1:]):
        if variable(a) and variable(b):
            lv = sorted(strtmpl.leaves_of((a,)) | strtmpl.leaves_of((b,)))
            yield ",".join(lv)
    for q in parts:
        if q[0] == "star":
            body = q[1]
            if body and variable(body[0]) and variable(body[-1]):
                yield ",".join(sorted(strtmpl.leaves_of(body)))
            yield from adjacent(body)


def given(d, x):
    v = d.get(x)
    if v is None or v == ("c", None):
        return False
    # a whole list of grid points stands for no particular one
    last = v[-1] if v[0] in ("attr", "param") else None
    return not (isinstance(last, str) and not x.endswith("s") and roles.norm(last) != roles.norm(x) and last.rstrip("_").endswith(x + "s"))


def sites(R, p, wr, rd):
    kinds = {}
    for o in wr + rd:
        seen = set()
        for (e, d, exact) in p.call_sites().get(o.f.qual, ()):
            g = e.fn
            if id(e) in seen:
                continue
            seen.add(id(e))
            d = {strtmpl.CANON.get(k, k): v for k, v in d.items()}
            if not exact:
                R.undecided.append("%s -> %s: arguments" % (g.qual, o.f.qual))
                continue
            R.count("call_sites")
            kinds.setdefault(o.kind, []).append((o, g, e, d))
            for x in sorted(o.leaves & TELLS):
                v = d.get(x)
                if v is not None and x in LOCAL | RUNWIDE:
                    for t in pyx.alts(v):
                        if t[0] == "op" and len(t) > 2 and t[1] in ("+", "-", "*", "/", "//", "%", "Add", "Sub", "Mult", "FloorDiv", "Div"):
                            R.report("altered-parameter", g.file, "%s -> %s: %s" % (g.short, o.f.short, x), "the file name gets %s for %s" % (pyx.show(t), x), e.line)
            if o in wr:
                loops(R, p, o, g, e, d)
    for kind, ss in sorted(kinds.items()):
        for x in sorted(RUNWIDE):
            has = [s for s in ss if x in s[0].leaves]
            w_ = [s for s in has if given(s[3], x)]
            if w_ and len(w_) < len(has):
                for s in has:
                    if not given(s[3], x) and at_hand(p, s[1], x):
                        R.report("parameter-dropped", s[1].file, "%s -> %s: %s" % (s[1].short, s[0].f.short, x), "%s is left out of the file name here, but %s gives it" % (x, w_[0][1].short), s[2].line)
        combos = {frozenset(x for x in LOCAL & s[0].leaves if given(s[3], x)) for s in ss if s[0] in wr}
        for s in ss:
            if s[0] in rd and combos:
                c = frozenset(x for x in LOCAL & s[0].leaves if given(s[3], x))
                if c not in combos:
                    R.report("never-written", s[1].file, "%s -> %s: %s" % (s[1].short, s[0].f.short, ",".join(sorted(c))), "no writer of %s files gives just %s, so this file is never found" % (kind[0], sorted(c) or "no grid point"), s[2].line)


def at_hand(p, g, x):
    """The caller holds the quantity: as a parameter, a local name or an attribute it reads."""
    names = set(g.params) | set(g.kwonly)
    for e in p.events(g):
        if e.kind == "load_attr":
            names.add(e.t[2])
        elif e.kind == "store_name":
            names.add(e.t[0])
    return any(roles.norm(n).lstrip("_").startswith(x) for n in names)


def mentions_loop(t, its, changed):
    """Whether t varies with the loop over one of `its`: contains its element or counter; None if that cannot be told."""
    unk = False
    for x in pyx.subterms(t):
        if x[0] == "attr" and x[1] in changed:
            unk = True
        if x[0] in ("elem", "idx", "rng", "item") and any(y in its for y in x[1:]):
            return True
        if x[0] in ("phi", "comp", "?", "unknown"):
            unk = True
    return None if unk else False


def loops(R, p, o, g, e, d):
    for it, node in e.loops:
        R.count("loops_around_writers")
        changed = set()
        for x in p.events(g):
            if any(n is node for i, n in x.loops):
                if x.kind in ("store_attr", "aug_attr"):
                    changed.add(x.t[0])
                elif x.kind == "call" and x.t[1][0] == "attr":
                    changed.add(x.t[1][1])
        vals = [d[x] for x in sorted(o.leaves) if x in d]
        res = [mentions_loop(v, bases(it), changed) for v in vals]
        if any(r is True for r in res):
            continue
        if any(r is None for r in res) or it is None or it == ("c", True):
            R.undecided.append("%s -> %s: loop" % (g.qual, o.f.qual))
            continue
        R.report("overwritten-in-loop", g.file, "%s -> %s" % (g.short, o.f.short), "every pass of the loop over %s writes the same file" % pyx.show(it), e.line)


def bases(it):
    out = {it}
    if it[0] == "call" and it[1][0] == "builtin" and it[1][1] in ("enumerate", "zip", "reversed", "sorted", "range"):
        for x in it[2]:
            out |= bases(x) if x[0] == "call" else {x}
        out.add(it[2])
    for x in list(out):
        if isinstance(x, tuple) and x and x[0] in ("phi", "ite"):
            out |= set(pyx.alts(x))
    return out


# ------------------------------------------------------------------ datasets
def written_keys(p, f, depth=0, handle=None):
    """{key: set of condition texts (one frozenset per creation)} written through a file opened in f (or the handle parameter)."""
    out = {}
    for e in p.events(f):
        if e.kind != "call":
            if e.kind == "store_sub" and isfh(e.t[0], handle) and e.t[1][0] == "c":
                out.setdefault(e.t[1][1], []).append(conds(e))
            continue
        if e.t[1][0] == "attr" and e.t[1][2] in ("create_dataset", "require_dataset") and isfh(e.t[1][1], handle):
            kw = dict(e.t[3])
            k = e.t[2][0] if e.t[2] else kw.get("name", ("?",))
            for kk in consts(k, e):
                out.setdefault(kk, []).append(conds(e))
        elif depth < 3:
            tg, complete = p.targets(e.t[1], f)
            for g, ctor in tg:
                if ctor or g not in owns(p):
                    continue
                dd, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                for par, v in dd.items():
                    if isfh(v, handle):
                        for k, cs in written_keys(p, g, depth + 1, ("param", par)).items():
                            out.setdefault(k, []).extend(None for c in cs)
    return out


_own = {}


def owns(p):
    if "o" not in _own:
        _own["o"] = set(p.own_funcs())
    return _own["o"]


def isfh(t, handle):
    for a in pyx.alts(t):
        if isfile(a):
            return True
        if handle is not None and a[0] == "param" and handle[1] in a[1:]:
            return True
    return False


def conds(e):
    out = set()

    def add(c, b):
        if c[0] == "op" and c[1] == ("and" if b else "or"):
            for x in c[2:]:
                for y in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,)):
                    add(y, b)
        elif c[0] == "op" and c[1] == "not":
            add(c[2], not b)
        else:
            out.add((pyx.show(c), b))
    for c, b in e.conds:
        add(c, b)
    return frozenset(out)


def consts(k, e=None):
    if k[0] == "c":
        return [k[1]]
    if k[0] == "elem" and k[1][0] in ("tuple", "list", "set"):
        els = k[1][1]
        if all(x[0] == "c" for x in els):
            return [x[1] for x in els]
    return ["*"]


def guards(e):
    """Keys whose presence in the file is tested true around e."""
    out = set()
    for c, b in e.conds:
        for x in pyx.subterms(c):
            if x[0] == "op" and x[1] in ("in", "In") and b:
                out |= set(consts(x[2])) | {pyx.show(x[2])}
    return out


def read_keys(p, f, depth=0, handle=None):
    out = []
    for e in p.events(f):
        if e.kind == "load_sub" and e.extra is not None and isfh(e.extra[0], handle):
            ks = consts(e.extra[1])
            g = guards(e)
            out += [(k, k in g or pyx.show(e.extra[1]) in g, e, f) for k in ks if isinstance(k, str)]
        elif e.kind == "call" and depth < 3:
            tg, complete = p.targets(e.t[1], f)
            for g, ctor in tg:
                if ctor or g not in owns(p):
                    continue
                dd, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                for par, v in dd.items():
                    if isfh(v, handle):
                        out += read_keys(p, g, depth + 1, ("param", par))
    return out


def datasets(R, p, wr, rd):
    allk = {}
    wk = {}
    for f in p.own_funcs():
        if any(opened(e) and opened(e)[:1] in ("w", "a", "x") and e.t[1][1].endswith(".File") for e in p.events(f)):
            wk[f] = written_keys(p, f)
            for k in wk[f]:
                allk.setdefault(k, set()).add(f)
    fam = {}
    for o in wr:
        fam.setdefault(o.kind, set()).add(o.f)
    done = set()
    for o in rd:
        ws = fam.get(o.kind, ())
        if o.f in done or not ws:
            continue
        done.add(o.f)
        check_keys(R, p, o.f, [(x, wk.get(x, {})) for x in ws])
    # readers and writers that share a default file name
    dflt = {}
    for f in p.own_funcs():
        modes = {opened(e)[:1] for e in p.events(f) if opened(e)}
        fn = f.defaults.get("filename") if hasattr(f, "defaults") and isinstance(f.defaults, dict) else None
        if modes and fn is not None:
            dflt.setdefault(getattr(fn, "value", None), []).append((f, modes))
    for name, fs in dflt.items():
        if not isinstance(name, str):
            continue
        ws = [(f, wk.get(f, {})) for f, m in fs if "w" in m and f in wk]
        for f, m in fs:
            if "r" in m and ws and f not in done:
                done.add(f)
                check_keys(R, p, f, ws)
    # other readers of hdf5 files: any key of any file of the package
    for f in p.own_funcs():
        if f in done or not any(opened(e) and opened(e)[:1] == "r" and e.t[1][1].endswith(".File") for e in p.events(f)):
            continue
        for k, guarded, e, g in read_keys(p, f):
            R.count("keys_read")
            if k != "*" and k not in allk and not guarded:
                R.report("key-not-written", g.file, "%s: %s" % (g.short, k), "no writer of the package makes a dataset %r" % k, e.line)


def check_keys(R, p, f, ws):
    for k, guarded, e, g in read_keys(p, f):
        R.count("keys_read")
        if k == "*":
            continue
        for x, keys in ws:
            if "*" in keys:
                continue
            if k not in keys:
                R.report("key-not-written", g.file, "%s: %s" % (g.short, k), "%s reads %r, which %s does not write" % (f.short, k, x.short), e.line)
                continue
            # a key read in the branch selected by another key's presence is written wherever that one is
            for c, b in e.conds:
                if b and c[0] == "op" and c[1] in ("in", "In") and c[2][0] == "c" and c[2][1] in keys and not guarded:
                    sel = keys[c[2][1]]
                    if None in sel or None in keys[k]:
                        continue
                    if not any(cw <= s | conds(e) for s in sel for cw in keys[k]):
                        R.report("key-not-written", g.file, "%s: %s with %s" % (g.short, k, c[2][1]), "%r is read whenever %r is there, but written under further conditions" % (k, c[2][1]), e.line)


def result_keys(R, p):
    """Keys looked up in the dictionary a reader returns."""
    prov = {}
    for f in p.own_funcs():
        if not any(opened(e) and opened(e)[:1] == "r" and e.t[1][1].endswith(".File") for e in p.events(f)):
            continue
        ks, open_ = set(), False
        dicts = set()
        for e in p.events(f):
            if e.kind == "store_sub" and any(a[0] == "dict" for a in pyx.alts(e.t[0])):
                c = consts(e.t[1])
                open_ |= "*" in c
                ks |= {x for x in c if isinstance(x, str)}
                dicts.add(e.t[0])
        for r in p.returns(f):
            for a in pyx.alts(r.t):
                if a[0] == "tuple":
                    for j, x in enumerate(a[1]):
                        for y in pyx.alts(x):
                            if y[0] == "dict":
                                prov.setdefault(f.qual, {}).setdefault(j, set()).update(ks | {z[1] for kv in dict_items(y) for z in [kv] if z[0] == "c"})
                elif a[0] == "dict":
                    prov.setdefault(f.qual, {}).setdefault(None, set()).update(ks)
        if open_:
            prov.pop(f.qual, None)
    for g in p.own_funcs():
        for e in p.events(g):
            look = []
            if e.kind == "load_sub" and e.extra is not None and e.extra[1][0] == "c" and isinstance(e.extra[1][1], str):
                look.append((e.extra[0], e.extra[1][1]))
            elif e.kind == "if" or e.kind == "binop":
                for x in pyx.subterms(e.t):
                    if x[0] == "op" and x[1] in ("in", "In") and x[2][0] == "c" and isinstance(x[2][1], str):
                        look.append((x[3], x[2][1]))
            for b, k in look:
                for a in pyx.alts(b):
                    j, call = None, a
                    if a[0] == "item":
                        j, call = a[1], a[2]
                    if call[0] != "call":
                        continue
                    tg, complete = p.targets(call[1], g)
                    if not complete or not tg:
                        continue
                    for h, ctor in tg:
                        pv = prov.get(h.qual, {})
                        if j in pv:
                            R.count("result_lookups")
                            if k not in pv[j]:
                                R.report("result-key", g.file, "%s: %s" % (g.short, k), "%r is looked up in the result of %s, which provides %s" % (k, h.short, sorted(pv[j])), e.line)


def dict_items(y):
    try:
        return [kv[0] for kv in y[1]]
    except (TypeError, IndexError):
        return []
