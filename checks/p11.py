"""P11: dataset and field names (provenance of every value written to or read from a named HDF5, dictionary or text field).

Every create_dataset call, keyed store, writer call and reader result is resolved to the quantities its value comes from; a value that is known under another field's name is reported, as are presence tests on another quantity, writer parameters that reach no dataset, fields that one branch of a caller writes and its sibling drops, and results a class offers but the writer's class test leaves out. Values without a known name are undecided."""
import ast
import re
import named
import pyx, roles

# field name -> names of the quantity it holds
FIELD = {"ave_pp": {"averaged_pp_interaction"}, "sigma_cutoff_width": {"sigma_cutoff"}, "nonzero_pp": {"pp", "g_zero"}, "pp_shape": {"pp", "g_zero"}, "sigma_cutoff": {"sigma_cutoff_width"}, "cutoff_distance": {"cutoff_pair_distance"},
         "temperature_points": {"temperature"},
         "g_zero_bits": {"g_zero"}, "g_zero_bits_reminder": {"g_zero"}, "P_matrix": {"P"}, "Q_matrix": {"Q"},
         "gruneisen": {"gruneisen_parameter"}, "gruneisen_tensor": {"gruneisen_parameter"}, "weight": {"grid_weight", "triplet_weight", "ir_weight"},
         "grid_mapping_table": {"gp_map", "bz_map"}, "unitary_matrix": {"collision_matrix"},
         "triplet": {"triplets"}, "ir_grid_weights": {"ir_grid_weight", "weight"}, "ir_grid_points": {"ir_grid_point", "grid_point"},
         "frequency": {"frequency", "frequencies_all"}, "f_vector": {"f_vector"}, "heat_capacity": {"mode_heat_capacity", "mode_cv", "cv"},
         "temperature": {"temperature"}, "epsilon": {"epsilon", "sigma"}, "sigma": {"sigma", "epsilon"}, "averaged_pp_interaction": {"ave_pp"},
         "force_constants": {"fc2", "fc3", "force_constant"}, "deltas": {"delta", "real_self_energy"}, "delta": {"delta", "real_self_energy"},
         "mean_free_path": {"mfp"}, "kappa_unit_conversion": set(), "collision_eigenvalues": {"coleig"}, "bz_grid": {"grid"},
         "grid_point": {"gp", "igp"}, "band_index": {"bi"}, "pair_distance": {"distance"}, "distance": {"pair_distance"}, "ir_weights": {"ir_grid_weights"}, "mesh": {"mesh_number", "D_diag", "grid_matrix"}}
# fields that tell files apart rather than hold results
COORD = {"grid_point", "band_index", "sigma", "sigma_cutoff", "temperature", "mesh", "filename", "verbose", "compression", "i_sigma", "i_temp",
         "check_consistency", "log_level", "bz_grid", "frequency_points", "version"}
# results a per-grid-point or summary file leaves out by design
LEFT_OUT = {("write_gamma", "kappa"), ("write_gamma", "mode_kappa"), ("write_gamma", "kappa_TOT_RTA"), ("write_gamma", "kappa_P_RTA"),
            ("write_gamma", "kappa_C"), ("write_gamma", "mode_kappa_P_RTA"), ("write_gamma", "mode_kappa_C"), ("write_gamma", "qpoint"),
            ("write_gamma", "weight"), ("write_gamma", "boundary_mfp"), ("write_kappa", "velocity_operator"),
            ("write_gamma", "band_index"), ("write_gamma_detail", "triplet_map")}
NOT_WRITTEN = {("write_kappa_to_hdf5", "mean_free_path"): "withdrawn from the file format"}


def S(x):
    x = re.sub(r"(_at_(sigma|gp|band|grid_point|q)|_(gp|band|i|ik))$", "", roles.norm(x)) or x
    x = {"gamma_iso": "gamma_isotope", "colmat": "collision_matrix"}.get(x, x)
    if x.endswith("indices"):
        return x[:-4] + "ex"
    return roles.norm(roles.singular(x))


def names_of(k):
    return {S(k)} | {S(x) for x in FIELD.get(k, ())} | {S(x) for x in FIELD.get(S(k), ())}


def fits(lv, k):
    ns = names_of(k)
    return any(x in ns or x == "phonon_" + y for x in lv for y in ns)


def run(R):
    p = pyx.project()
    R.explanation = "Each value written to, or read from, a named field is traced to the quantities it is made of and compared with the field."
    R.assumptions = ["fields and quantities of different names are equal only as listed in checks/p11.py (FIELD)",
                     "a value whose origin has no name used for a field anywhere in the package is undecided"]
    writers, vocab, dkeys = {}, set(), set()
    for f in p.own_funcs():
        for e in p.events(f):
            if dataset(e):
                k = dataset(e)[0]
                writers.setdefault(f.qual, f)
                if k[0] == "c" and isinstance(k[1], str):
                    vocab |= {S(k[1])} | {S(x) for x in FIELD.get(k[1], ())}
            elif e.kind == "store_sub" and e.t[1][0] == "c" and isinstance(e.t[1][1], str):
                dkeys.add(S(e.t[1][1]))
    for f in writers.values():
        vocab |= {S(q) for q in f.params + f.kwonly if q not in ("self", "filename", "verbose", "compression")}
    for f in p.own_funcs():
        where = "%s:%s" % (f.file, f.short)
        if f.qual in writers:
            written(R, p, f, where, vocab)
        else:
            calls(R, p, f, where, writers, vocab)
        reads(R, p, f, where, vocab, dkeys)
        text(R, p, f, where)
        mixed(R, p, f, where, dkeys | vocab)
        asked(R, p, f, where, vocab)
    R.require("datasets", 100)
    R.require("writer calls", 15)
    R.require("fields given to writers", 180)
    R.require("keyed reads", 25)
    R.require("keyed stores", 60)
    R.require("class tests", 20)
    R.require("text fields", 20)


def dataset(e):
    if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2] == "create_dataset":
        a, kw = e.t[2], dict(e.t[3])
        k = a[0] if a else kw.get("name", ("c", None))
        return k, kw.get("data", a[1] if len(a) > 1 else ("c", None))
    return None


def main_leaves(t, p, f):
    """Names of the value itself (parameter, attribute, keyed entry or result, sampled or copied); none for computed values."""
    r = set()
    for a in pyx.alts(t):
        if a in (("c", None), ("undef",)):
            continue
        x = {S(y) for y in roles.roles(a, f, p)}
        if not x:
            while a[0] in ("sub", "elem"):
                a = a[1]
            x = {S(y) for y in roles.roles(a, f, p)} if a[0] not in ("phi", "ite") else main_leaves(a, p, f)
        if not x:
            return set()
        r |= x
    return r


def written(R, p, f, where, vocab):
    reach = set()
    formals = [q for q in f.params + f.kwonly if q not in ("self", "cls")]
    for e in p.events(f):
        d = dataset(e)
        for c, b in e.conds:
            if none_test(c) is None:
                reach |= {x[1] for x in pyx.subterms(c) if x[0] == "param"}
        if e.kind == "store_sub":
            reach |= {x[1] for x in pyx.subterms(e.t[2]) if x[0] == "param"}
        if not d:
            if e.kind == "call" and any(g.name.endswith("filename_suffix") for g, _ in p.targets(e.t[1], f)[0]) or \
                    e.kind == "call" and e.t[1][0] == "ext" and e.t[1][1].endswith("File"):
                for a in list(e.t[2]) + [v for _, v in e.t[3]]:
                    reach |= {x[1] for x in pyx.subterms(a) if x[0] == "param"}
            elif e.kind == "call":       # a helper that writes
                for a in list(e.t[2]) + [v for _, v in e.t[3]]:
                    if any(True for g, _ in p.targets(e.t[1], f)[0]):
                        reach |= {x[1] for x in pyx.subterms(a) if x[0] == "param"}
            continue
        k, v = d
        reach |= {x[1] for y in (k, v, e.t[1][1]) for x in pyx.subterms(y) if x[0] == "param"}
        if not (k[0] == "c" and isinstance(k[1], str)):
            continue
        R.count("datasets")
        ns = names_of(k[1])
        lv = main_leaves(v, p, f)
        if lv and not fits(lv, k[1]) and lv <= vocab:
            R.report("misfiled", where, k[1], "the dataset is given %s" % ", ".join(sorted(lv)), e.line)
        for c, b in e.conds:
            t = none_test(c)
            if t is None:
                continue
            x, pos = t
            pos = pos == b
            nx = {S(y) for y in ({x[1]} if x[0] == "param" else {x[2]} if x[0] == "attr" else set())}
            R.count("presence tests")
            if nx & ns and not pos:
                R.report("presence", where, k[1], "written only where %s is None" % pyx.show(x), e.line)
            elif x[0] == "param" and not nx & ns and not nx & lv and nx <= vocab and lv <= vocab and pos and \
                    S(x[1]) not in ("bz_grid", "g_zero", "pp"):
                R.report("presence", where, k[1], "written only where %s is given" % x[1], e.line)
    for q in formals:
        R.count("writer parameters")
        if q not in reach and q not in ("filename", "compression", "verbose", "check_consistency", "log_level") and (f.name, q) not in NOT_WRITTEN:
            R.report("dropped", where, q, "reaches neither a dataset nor the file name", f.node.lineno)


def none_test(c):
    """(term, True if the test is `term is not None`)"""
    if c[0] == "not":
        t = none_test(c[1])
        return t and (t[0], not t[1])
    if c[0] == "op" and c[1] in ("is", "is not") and len(c) == 4:
        a, b = c[2], c[3]
        if b == ("c", None):
            return a, c[1] == "is not"
        if a == ("c", None):
            return b, c[1] == "is not"
    return None


def calls(R, p, f, where, writers, vocab):
    groups = {}
    for e in p.events(f):
        if e.kind != "call":
            continue
        for g, ctor in p.targets(e.t[1], f)[0]:
            if g.qual not in writers:
                continue
            d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
            if errs or not exact:
                continue
            R.count("writer calls")
            groups.setdefault(g.qual, []).append((e, g, d))
            for q, v in d.items():
                if v == ("c", None):
                    continue
                R.count("fields given to writers")
                if q in ("filename", "verbose", "compression", "version", "self"):
                    continue
                lv = main_leaves(v, p, f)
                if lv and lv <= vocab and not fits(lv, q):
                    R.report("misdirected", where, "%s.%s" % (g.name, q), "is given %s" % ", ".join(sorted(lv)), e.line)
    for q, l in groups.items():
        sets = [set(k for k, v in d.items() if v != ("c", None)) - COORD for _, g, d in l]
        allq = set().union(*sets)
        for (e, g, d), s in zip(l, sets):
            for k in sorted(allq - s):
                R.report("sibling", where, "%s.%s" % (g.name, k), "passed by another call in this function, but not by the one for %s"
                         % (", ".join(sorted(set(d) & {"grid_point", "band_index"})) or "the rest"), e.line)
        offered(R, p, f, where, l)


def offered(R, p, f, where, l):
    """Results the object being written offers."""
    for x in f.params + f.kwonly:
        ts = p.typeof(("param", x), f)
        cs = [p.classes[t[1]] for t in ts if t[0] == "inst" and t[1] in p.classes and p.classes[t[1]].module.name in p._ownset]
        if not cs or len(cs) != len(ts):
            continue
        props = {n for c in cs for k in p.mro(c) for n, m in k.methods.items() if m.is_property and not n.startswith("_")}
        for e, g, d in l:
            for q in g.params + g.kwonly:
                if q in d or (f.name, q) in LEFT_OUT or q in COORD or (g.name, q) in NOT_WRITTEN:
                    continue
                R.count("optional fields")
                if q in props or any(S(y) in names_of(q) for y in props):
                    R.report("left-out", where, "%s.%s" % (g.name, q), "%s offers it, but it is not written" % x, e.line)
        # results read only for some of the classes
        for n in sorted(props):
            evs = [e for e in p.events(f) if e.kind == "load_attr" and e.t[1] == ("param", x) and e.t[2] == n]
            if not evs or (f.name, n) in LEFT_OUT:
                continue
            have = set()
            for e in evs:
                have |= {t[1] for t in p.narrow(("param", x), f, e.conds) if t[0] == "inst"}
                have |= {k.qual for c in list(have) for k in p.subclasses(p.classes[c])}
            for c in cs:
                R.count("class tests")
                if c.qual not in have and p.member(c, n) and p.member(c, n)[0] == "property":
                    R.report("left-out-for-class", where, "%s of %s" % (n, c.name), "the result exists, but the class test excludes it", evs[0].line)


def from_file(t):
    """Field names of an opened file that a term is read from."""
    out = set()
    for x in pyx.subterms(t):
        if x[0] == "sub" and x[2][0] == "c" and isinstance(x[2][1], str) and isfile(x[1]):
            out.add(x[2][1])
    return out


def isfile(t):
    return any(t[0] == "call" and t[1][0] == "ext" and t[1][1].endswith("File") for t in pyx.alts(t))


def whole(t):
    """Field the term is, apart from slicing."""
    while t[0] == "sub" and not (t[2][0] == "c" and isinstance(t[2][1], str)) or \
            t[0] == "call" and t[1][0] == "ext" and t[1][1] in roles.TRANSPARENT and t[2]:
        t = t[1] if t[0] == "sub" else t[2][0]
    if t[0] == "sub" and t[2][0] == "c" and isinstance(t[2][1], str):
        return t[2][1], t[1]
    return None


def reads(R, p, f, where, vocab, dkeys):
    for e in p.events(f):
        if e.kind in ("store_name", "store_attr"):
            n, v = (e.t[0], e.t[1]) if e.kind == "store_name" else (e.t[1], e.t[2])
            w = whole(v)
            if w and not isfile(w[1]) and S(n) in vocab | dkeys and S(w[0]) in vocab | dkeys:
                R.count("keyed reads")
                if not fits({S(n)}, w[0]) and not fits({S(w[0])}, n):
                    R.report("misread", where, n, "is read from entry %s" % w[0], e.line)
            if w and isfile(w[1]):
                R.count("keyed reads")
                if S(n) in vocab and S(n) not in names_of(w[0]):
                    R.report("misread", where, n, "is read from field %s" % w[0], e.line)
            elif v[0] == "item" and v[2][0] == "call":
                for g, ctor in p.targets(v[2][1], f)[0]:
                    if not any(x.kind == "call" and x.t[1][0] == "ext" and x.t[1][1].endswith("File") for x in p.events(g)):
                        continue
                    for r in p.returns(g):
                        if r.t[0] == "tuple" and v[1] < len(r.t[1]):
                            t = r.t[1][v[1]]
                            ks = from_file(t)
                            R.count("keyed reads")
                            if ks and S(n) in vocab and not any(S(n) in names_of(k) or S(n) in {S(k)} for k in ks):
                                R.report("misread", where, n, "is delivered from field %s by %s" % (", ".join(sorted(ks)), g.name), e.line)
        elif e.kind == "return" and e.t[0] == "tuple":
            R.count("keyed reads", len([1 for x in e.t[1] if from_file(x)]))
        elif e.kind == "store_sub" and not (e.t[1][0] == "c" and isinstance(e.t[1][1], str)):
            n = e.node.value
            while isinstance(n, ast.Subscript):
                n = n.value
            n = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ""
            w = whole(e.t[2])
            if w and S(n) in vocab | dkeys and S(w[0]) in vocab | dkeys:
                R.count("keyed reads")
                if not fits({S(n)}, w[0]) and not fits({S(w[0])}, n):
                    R.report("misread", where, n, "is read from entry %s" % w[0], e.line)
        elif e.kind == "store_sub" and e.t[1][0] == "c" and isinstance(e.t[1][1], str):
            R.count("keyed stores")
            k = e.t[1][1]
            lv = main_leaves(e.t[2], p, f)
            if lv and not fits(lv, k) and lv <= dkeys | vocab and not generic(k):
                R.report("misfiled-key", where, k, "the entry is given %s" % ", ".join(sorted(lv)), e.line)
        if e.kind in ("call", "store_name", "store_attr", "store_sub", "return"):
            for d in {x for y in (e.t if e.kind != "return" else (e.t,)) if isinstance(y, tuple) for x in displays(y)}:
                for k, v in d[1]:
                    if k[0] != "c" or not isinstance(k[1], str):
                        continue
                    R.count("keyed stores")
                    lv = main_leaves(v, p, f)
                    if lv and not fits(lv, k[1]) and lv <= dkeys | vocab and not generic(k[1]):
                        R.report("misfiled-key", where, k[1], "the entry is given %s" % ", ".join(sorted(lv)), e.line)


def keyed(v):
    """Entries a value is read from, through arithmetic and reshaping."""
    return {x[2][1]: x for x in pyx.subterms(v) if x[0] == "sub" and x[2][0] == "c" and isinstance(x[2][1], str)}


def asked(R, p, f, where, vocab):
    """What is read when a result is asked for by its name, and what is passed on as it."""
    for e in p.events(f):
        if e.kind == "call":
            for g, ctor in p.targets(e.t[1], f)[0]:
                if g.module.name not in p._ownset:
                    continue
                d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                for q, v in ([] if errs else d.items()):
                    w = whole(v) if isinstance(v, tuple) else None
                    if not w or S(w[0]) not in vocab or S(q) not in vocab:
                        continue
                    R.count("entries passed on")
                    if not fits({S(q)}, w[0]) and not fits({S(w[0])}, q):
                        R.report("misread", where, "%s(%s)" % (g.name, q), "is given entry %s" % w[0], e.line)
        if e.kind != "store_name" or not e.conds:
            continue
        c, pol = e.conds[-1]
        if not pol or c[0] != "attr" or c[1][0] not in ("param", "name") or S(c[2]) not in vocab:
            continue
        ks = keyed(e.t[1])
        if not ks:
            continue
        R.count("entries read on request")
        if all(S(k) in vocab and not fits({S(c[2])}, k) and not fits({S(k)}, c[2]) for k in ks):
            R.report("misread", where, "%s for %s" % (e.t[0], c[2]), "%s is asked for, and entry %s is read" % (c[2], ", ".join(sorted(ks))), e.line)


def mixed(R, p, f, where, known):
    for kind, k, w, n in named.mixed(p, f, known):
        if kind == "entry":
            if k is None:
                R.count("entries with a value of their name at hand")
            else:
                R.report("misfiled-key", where, k, "the entry is given %s although there is a value named %s" % (w, k), n.lineno)


def displays(t):
    if not isinstance(t, tuple):
        return
    if t and t[0] == "dict" and len(t) == 2:
        yield t
    for y in t:
        yield from displays(y)


def generic(k):
    return S(k) in {"id", "number", "data", "value"}


def text(R, p, f, where):
    """Lines `name: value` of text files: the value is not another named field of the same function."""
    fields = []
    for e in p.events(f):
        if e.kind != "call":
            continue
        for a in e.t[2]:
            for k, v in lines(a):
                fields.append((k, v, e))
    keys = {S(k.replace("-", "_")) for k, _, _ in fields}
    for k, v, e in fields:
        R.count("text fields")
        lv = main_leaves(v, p, f)
        kk = S(k.replace("-", "_"))
        if lv and kk not in lv and lv <= keys and not any(kk in names_of(x) or x in names_of(kk) for x in lv):
            R.report("mislabelled", where, k, "the field shows %s" % ", ".join(sorted(lv)), e.line)


def lines(a):
    out = []
    if a[0] == "fstr":
        prev = ""
        for x in a[1]:
            if x[0] == "c" and isinstance(x[1], str):
                prev = x[1]
            else:
                m = re.search(r"(?:^|[\s\-\n])([A-Za-z_][\w\-]*)\"?: *\[?\s*$", prev)
                if m:
                    out.append((m.group(1), x))
                prev = ""
    if a[0] == "op" and a[1] == "%" and a[2][0] == "c" and isinstance(a[2][1], str):
        vals = a[3][1] if a[3][0] == "tuple" else (a[3],)
        specs = list(re.finditer(r"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]", a[2][1]))
        if len(specs) == len(vals):
            for m, v in zip(specs, vals):
                h = re.search(r"(?:^|[\s\-\n])([A-Za-z_][\w\-]*)\"?: *\[?\s*$", a[2][1][:m.start()])
                if h:
                    out.append((h.group(1), v))
    return out
