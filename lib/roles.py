"""Names of quantities: what a term is called where it comes from."""
import re
import pyx

TRANSPARENT = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.atleast_1d",
               "numpy.ravel", "numpy.copy", "numpy.squeeze", "copy.copy", "copy.deepcopy"}
TMETH = {"copy", "ravel", "flatten", "reshape", "astype", "view", "tolist", "squeeze"}
TBUILT = {"float", "int", "bool", "list", "tuple", "str"}

# names the code base uses for one and the same quantity
ALIAS = {}
for grp in (("fc3_normal_squared", "interaction_strength", "pp_strength"),
            ("svecs", "shortest_vectors", "shortest_vectors_fc2"), ("multi", "multiplicity", "multiplicities", "multiplicity_fc2"),
            ("p2s", "p2s_map", "p2s_map_fc2"), ("s2p", "s2p_map", "s2p_map_fc2"), ("s2pp", "s2pp_map"),
            ("triplet_weights", "weights_at_q", "weights", "triplets_weights"), ("triplets", "triplets_at_q"),
            ("triplets_map", "triplets_map_at_q", "map_triplets"), ("map_q", "ir_map_at_q"),
            ("bz_grid_addresses", "addresses", "bz_grid_address", "grid_address"), ("bz_map", "gp_map"),
            ("bz_grid_type", "store_dense_gp_map"),
            ("unit_conversion_factor", "unit_conversion"), ("g_zero", "iw_zero"),
            ("lang", "language"), ("D_diag", "mesh_D_diag"),
            ("eigenvalues", "w", "eigvals"), ("type", "bz_grid_type"),
            ("fpoint", "frequency_point"), ("i_temp", "i_temperature"), ("is_NU", "is_N_U"), ("symmetrize_fc3_q", "symmetrize_fc3q"),
            ("gamma_N", "ise_N"), ("gamma_U", "ise_U"), ("gamma_detail", "detailed_imag_self_energy"),
            ("i_gp", "i_grid_point"), ("gp", "grid_point"), ("is_time_reversal", "is_time_reversal_symmetry"),
            ("fc3", "force_constants_third"), ("masses", "masses_fc2"), ("rot_grid_points", "rotated_grid_points"),
            ):
    for n in grp:
        ALIAS.setdefault(n, grp[0])


def norm(n):
    n = n.lstrip("_")
    if n.startswith("py_"):
        n = n[3:]
    if n.endswith("_py"):
        n = n[:-3]
    n = n.rstrip("_")
    return ALIAS.get(n, n)


def roles(t, f=None, p=None, depth=0):
    """Normalised names under which the value of term t is known."""
    if depth > 5:
        return set()
    R = lambda x, g=f: roles(x, g, p, depth + 1)
    k = t[0]
    if k == "sub" and t[2][0] == "c" and isinstance(t[2][1], int) and t[1][0] == "call" and t[2][1] >= 0:
        k, t = "item", ("item", t[2][1], t[1])
    if k == "param":
        return {norm(t[1])}
    if k == "attr":
        return {norm(t[2])}
    if k == "sub":
        i = t[2]
        if i[0] == "c" and isinstance(i[1], str):
            return {norm(i[1].replace("-", "_"))}
        return {singular(x) for x in R(t[1])} if not has_slice(i) else R(t[1])
    if k == "elem":
        return {singular(x) for x in R(t[1])}
    if k in ("phi", "ite"):
        s = None
        for x in pyx.alts(t):
            if x in (("c", None), ("undef",)):
                continue
            y = R(x)
            s = y if s is None else s | y
        return s or set()
    if k == "call":
        c = t[1]
        if c[0] == "ext" and c[1] in TRANSPARENT and t[2]:
            return R(t[2][0])
        if c[0] == "builtin" and c[1] in TBUILT and t[2]:
            return R(t[2][0])
        if c[0] == "attr" and c[2] in TMETH:
            return R(c[1])
        n = c[2] if c[0] == "attr" else c[1].split(".")[-1] if c[0] == "func" else ""
        s = set()
        m = re.match(r"_?(?:get|calculate|compute|load|read|build|create|make)_(\w+)$", n)
        if m:
            s.add(norm(m.group(1)))
        return s
    if k == "idx":
        return {norm("i_" + singular(x)) for x in R(t[1])}
    if k == "op" and t[1] == "*" and ("c", 1) in t[2:]:
        return R(t[2] if t[3] == ("c", 1) else t[3])
    if k == "item" and t[2][0] == "sub" and t[2][2][0] == "slice" and t[2][2][1] in (None, ("c", None), ("c", 0)):
        t = ("item", t[1], t[2][1])
    if k == "item" and p is not None and f is not None and t[2][0] == "call":
        tg, full = p.targets(t[2][1], f)
        s = set()
        for g, ctor in tg:
            if ctor:
                return set()
            for e in p.returns(g):
                if e.t[0] == "tuple" and t[1] < len(e.t[1]):
                    s |= roles(e.t[1][t[1]], g, p, depth + 1)
        return s
    return set()


def singular(x):
    if x.endswith("ies"):
        return x[:-3] + "y"
    if x.endswith("sses"):
        return norm(x[:-2])
    if x.endswith("s") and not x.endswith("ss"):
        return norm(x[:-1])
    return x


def has_slice(i):
    return any(x[0] == "slice" for x in pyx.subterms(i))


def tuple_roles(call, f, p):
    """Roles of each element of the tuple(s) a call returns, or None."""
    tg, full = p.targets(call[1], f)
    out = None
    for g, ctor in tg:
        if ctor or g.abstract:
            continue
        for e in p.returns(g):
            if e.t[0] != "tuple":
                if e.t == ("c", None):
                    continue
                return None
            r = [roles(x, g, p) for x in e.t[1]]
            if out is None:
                out = r
            elif len(out) != len(r):
                return None
            else:
                out = [a | b for a, b in zip(out, r)]
    return out if full else None
