"""P24: accessors and aliases (backing-field resolution of getters, setters, deprecated accessors and returned tuples in the class model).

Getters are folded to the term they return; a getter must not return the field of another public attribute of its class, a setter must store its value into the field its getter returns, an alias must fold to the same term as the attribute, and values unpacked from an accessor's tuple must not carry the name of another element. Getters that compute a value are undecided."""
import ast, re
import pyx, roles

# field names the code base uses for a public attribute
FIELD = {}
for grp in """gamma_iso gamma_isotope|sigma_cutoff sigma_cutoff_width|gv group_velocities|gv_sum2 gv_by_gv|cv mode_heat_capacities
 mfp mean_free_path|dm dynamical_matrix|D_diag mesh_numbers mesh|bz_grid grid|interaction phph_interaction|fc2 force_constants fmat ff
 iso isotope|jdos joint_dos|gv_operator velocity_operator|gv_operator_sum2 gv_by_gv_operator|g_zero zero_value_positions
 gammas half_linewidths gamma|deltas shifts|unit_conversion unit_conversion_factor|imag_self_energy imag_self_energies gamma
 frequency_factor_to_THz unit_conversion_factor|num_sampling_grid_points number_of_sampling_grid_points|averaged_pp_interaction ave_pp
 num_ignored_phonon_modes number_of_ignored_phonon_modes|gp_map bz_map|fc3_normal reciprocal_to_normal""".replace("\n", "|").split("|"):
    w = grp.split()
    for x in w:
        FIELD.setdefault(x, set()).update(w)


def same(a, b):
    a, b = a.lstrip("_"), b.lstrip("_")
    if a == b or b in FIELD.get(a, ()) or a in FIELD.get(b, ()):
        return True
    S = lambda x: roles.norm(roles.singular(x))
    return S(a) == S(b) or b in a.split("__") or re.sub(r"(num|number_of)_", "", a) == re.sub(r"(num|number_of)_", "", b)


def field(t):
    """The attribute a getter's term plainly reads: (owner term, name)."""
    return (t[1], t[2]) if t[0] == "attr" else None


def plain(p, f):
    """Set of terms a function returns, without None."""
    return {e.t for e in p.returns(f)} - {("c", None)}


def public_names(p, c):
    out = set()
    for k in p.mro(c):
        out |= {n for n, f in k.methods.items() if f.is_property and not n.startswith("_")}
    return out


def run(R):
    p = pyx.project()
    R.explanation = ("Each property getter is folded to the term it returns and compared with the other public attributes of its class; "
                     "each setter's stores (including those of the methods it calls) with the field of its getter; get_X/set_X "
                     "accessors with attribute X and with the attribute their deprecation message names; each unpacking of a "
                     "returned tuple with the names of the tuple's elements.")
    R.assumptions = ["names of fields denote the quantity (table of accepted abbreviations in checks/p24.py)"]
    for q, c in sorted(p.classes.items()):
        if c.module.name not in p._ownset:
            continue
        pub = public_names(p, c)
        for name, f in sorted(c.methods.items()):
            if f.is_property:
                getter(R, p, c, name, f, pub)
            if name.startswith("get_") and not f.is_property:
                alias(R, p, c, name[4:], f, pub)
        for name, f in sorted(c.setters.items()):
            setter(R, p, c, name, f)
        for name, f in sorted(c.methods.items()):
            if name.startswith("set_") and p.setter(c, name[4:]) and not f.is_property:
                set_alias(R, p, c, name, f)
    for f in p.own_funcs():
        unpack(R, p, f)
    R.require("getters", 150)
    R.require("setters", 25)
    R.require("aliases", 25)
    R.require("unpackings", 100)


def getter(R, p, c, name, f, pub):
    R.count("getters")
    for t in plain(p, f):
        fl = field(t)
        if fl is None:
            R.count("computed getters")
            continue
        owner, a = fl
        if same(a, name):
            continue
        if owner == ("self",):
            others = {x for x in pub if x != name and same(a, x)}
            own = [x for x in p.attr_stores(c) if x.lstrip("_") == name or (same(x, name) and x.lstrip("_") not in pub)]
            if others or own:
                R.report("getter-field", c.qual, name, "returns %s, which is the field of %s" % (a, ", ".join(sorted(others)) or "another attribute than %s" % own[0]), f.node.lineno)
        else:
            for bt in p.typeof(owner, f):
                if bt[0] == "inst" and p.member(p.classes[bt[1]], name) and p.member(p.classes[bt[1]], a):
                    R.report("getter-delegation", c.qual, name, "returns attribute %s of %s, which has an attribute %s" % (a, bt[1].split(".")[-1], name), f.node.lineno)


def stores(p, c, f, depth=0):
    """attribute -> [stored term with the formals of f] over f and the methods of self it calls."""
    out = {}
    for e in p.events(f):
        if e.kind == "store_attr" and e.t[0] == ("self",):
            out.setdefault(e.t[1], []).append(e.t[2])
        elif e.kind in ("store_sub", "aug_sub") and field(e.t[0]) and field(e.t[0])[0] == ("self",):
            out.setdefault(field(e.t[0])[1], []).append(e.t[2])
        elif e.kind == "store_attr" and field(e.t[0]) and field(e.t[0])[0] == ("self",):
            out.setdefault(field(e.t[0])[1], []).append(e.t[2])
        elif e.kind == "call":
            b = e.t[1]
            if b[0] == "attr" and b[1] != ("self",):
                for x in pyx.subterms(b[1]):
                    if x[0] == "attr" and x[1] == ("self",):
                        out.setdefault(x[2], []).append(("tuple", e.t[2] + tuple(v for _, v in e.t[3])))
            if depth < 3:
                for g, ctor in p.targets(e.t[1], f)[0]:
                    if g.cls is None or ctor or b[0] != "attr" or b[1] != ("self",):
                        continue
                    d, errs, exact = p.bind(g, e.t[2], e.t[3])
                    for a, l in stores(p, c, g, depth + 1).items():
                        for t in l:
                            out.setdefault(a, []).append(subst(t, d))
    return out


def reads(p, c, f, depth=0):
    """Fields a getter's value may come from, through own properties and methods."""
    out = set()
    for t in plain(p, f):
        for x in pyx.subterms(t):
            if x[0] == "attr" and x[1] == ("self",):
                m = p.member(c, x[2])
                if m and m[0] in ("property", "method"):
                    if depth < 3:
                        out |= reads(p, c, m[1], depth + 1)
                        if m[0] == "method" or not plain(p, m[1]):
                            out |= {e.t[2] for e in p.events(m[1]) if e.kind == "load_attr" and e.t[1] == ("self",)}
                else:
                    out.add(x[2])
    return out


def subst(t, d):
    if t[0] == "param" and t[1] in d:
        return d[t[1]]
    return tuple(subst(x, d) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(subst(y, d) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x
                 for x in t)


def derives(t, par):
    return any(x == ("param", par) for x in pyx.subterms(t))


def setter(R, p, c, name, f):
    R.count("setters")
    g = p.member(c, name)
    if not g or g[0] != "property" or len(f.params) != 2:
        return
    fields = reads(p, c, g[1])
    if not fields:
        return
    st = stores(p, c, f)
    par = f.params[1]
    into = {a for a, l in st.items() if any(derives(t, par) for t in l)}
    if not into and not any(derives(t, par) for l in st.values() for t in l):
        if not any(derives(y, par) for e in p.events(f) if e.kind == "call" for y in e.t[2] + tuple(v for _, v in e.t[3])):
            R.report("setter-ignores", c.qual, name, "the assigned value is not stored", f.node.lineno)
        return
    calls = [e for e in p.events(f) if e.kind == "call" and any(derives(y, par) for y in e.t[2] + tuple(v for _, v in e.t[3]))
             and not p.targets(e.t[1], f)[1]]
    computed = {a for a, l in st.items() if any(t[0] != "c" for t in l)}
    if not (computed & fields) and not calls:
        R.report("setter-field", c.qual, name, "stores into %s, but the getter reads %s" % (", ".join(sorted(into)), ", ".join(sorted(fields))), f.node.lineno)
    for a in into - fields:
        others = {x for x in public_names(p, c) if x != name and same(a, x)}
        if others and any(t == ("param", par) for t in st[a]) and not (into & fields):
            R.report("setter-field", c.qual, name, "stores its value into %s, the field of %s" % (a, ", ".join(sorted(others))), f.node.lineno)


def fold(p, c, t, d=0):
    """Replace own properties by the term they return."""
    if d < 4 and t[0] == "attr" and t[1] == ("self",):
        m = p.member(c, t[2])
        if m and m[0] == "property":
            r = plain(p, m[1])
            if len(r) == 1:
                return fold(p, c, next(iter(r)), d + 1)
    return t


def alias(R, p, c, x, f, pub):
    """get_X against attribute X and against the name in its deprecation message."""
    msg = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not ast.get_docstring]
    named = set()
    isdep = False
    for e in p.events(f):
        if e.kind == "call" and e.t[1][0] == "ext" and e.t[1][1].endswith("warnings.warn"):
            isdep = True
            for y in pyx.subterms(e.t[2][0] if e.t[2] else ("?",)):
                if y[0] == "c" and isinstance(y[1], str):
                    txt = re.sub(r"instead of .*", "", y[1])
                    named |= set(re.findall(r"[A-Za-z_]\w*", txt)) & pub
    want = None
    if x in pub:
        want = x
    elif isdep and len(named) == 1:
        want = next(iter(named))
    if want is None or len(f.params) > 1:
        return
    r = {fold(p, c, t) for t in plain(p, f)}
    m = p.member(c, want)
    w = {fold(p, c, t) for t in plain(p, m[1])}
    R.count("aliases")
    if r and not (r & w) and ("attr", ("self",), want) not in plain(p, f):
        def roots(s):
            return {y[2] for t in s for y in pyx.subterms(t) if y[0] == "attr" and y[1] == ("self",)}
        if all(t[0] == "attr" for t in r) or not (roots(r) & roots(w)):
            R.report("alias", c.qual, "get_" + x, "returns %s, attribute %s returns %s" % (pyx.show(next(iter(r))), want, pyx.show(next(iter(w)))), f.node.lineno)


def set_alias(R, p, c, name, f):
    s = p.setter(c, name[4:])
    if len(f.params) != 2:
        return
    R.count("set aliases")
    a, b = stores(p, c, f), stores(p, c, s)
    fa = {k for k, l in a.items() if any(derives(t, f.params[1]) for t in l)}
    if name[4:] in fa:
        return
    fb = {k for k, l in b.items() if any(derives(t, s.params[1]) for t in l)}
    if fa and fb and not (fa & fb):
        R.report("set-alias", c.qual, name, "stores into %s, the attribute setter into %s" % (sorted(fa), sorted(fb)), f.node.lineno)


def unpack(R, p, f):
    for e in p.events(f):
        if e.kind == "store_name":
            n, v = e.t
        elif e.kind == "store_attr":
            n, v = e.t[1], e.t[2]
        else:
            continue
        if v[0] == "sub" and v[2][0] == "c" and isinstance(v[2][1], int):
            v = ("item", v[2][1], v[1])
        if v[0] != "item":
            continue
        call = v[2]
        if call[0] == "sub" and call[2][0] == "slice" and call[2][1] in (None, ("c", None), ("c", 0)):
            call = call[1]
        if call[0] != "call":
            continue
        tr = roles.tuple_roles(call, f, p)
        if tr is None or not (-len(tr) <= v[1] < len(tr)):
            continue
        R.count("unpackings")
        S = lambda x: roles.norm(roles.singular(x))
        me = S(roles.norm(n))
        mine = {S(x) for x in tr[v[1]]}
        if me in mine or not mine:
            continue
        for j, r in enumerate(tr):
            if j != v[1] % len(tr) and me in {S(x) for x in r} and me not in mine:
                R.report("unpacked-name", f.qual, n, "takes element %d of the returned tuple, which is %s; element %d is %s" % (v[1], "/".join(sorted(mine)), j, me), e.line)
