"""P06: swapped or misdirected arguments (name roles of actuals against formals over the resolved call graph, Python, wrappers and C).

Reports a call in which a value known under the name of one formal is passed to another formal while the named one gets something else; values without a name are undecided."""
import ast
import re
import pyx, kern, roles, cfront
from common import Broken


# physically distinct quantities: a value known under one of these names is never valid where
# another one is asked for, whatever the callee's other parameters are
DISTINCT = set("""cutoff_frequency sigma sigma_cutoff temperature frequency_factor_to_THz unit_conversion_factor epsilon
 grid_point mesh band_index i_sigma i_temp supercell_matrix primitive_matrix mass_variance multi svec
 p2 s2 fc2 fc3 frequency eigenvector triplet triplet_weight symprec boundary_mfp pinv_cutoff
 pinv_solver pinv_method nac_param lattice bz_map D_diag Q PS is_mesh_symmetry cutoff_pair_distance
 displacement_distance number_of_snapshot random_seed gv_delta_q compression log_level is_compact_fc
 frequency_point num_frequency_point frequency_step nac_q_direction lapack_zheev_uplo is_N_U is_kappa_star
 average_pp_interaction symmetrize_fc3q is_isotope is_LBTE is_reducible_collision_matrix is_full_pp use_ave_pp
 constant_averaged_interaction conductivity_type write_kappa write_gamma write_collision write_pp read_gamma
 read_collision read_pp read_elph input_filename output_filename fc2_filename fc3_filename forces_fc2_filename
 forces_fc3_filename rotation reciprocal_lattice gamma kappa mode_kappa heat_capacity gv_by_gv group_velocity
 ave_pp number_estimation_factor make_r0_average store_dense_gp_map store_dense_svec is_time_reversal
 relative_grid_address fc_calculator random_displacement_temperature max_distance is_plusminus is_diagonal
 is_trigonal num_temp num_band num_band0 num_triplet num_grid_point num_rot num_patom num_satom num_ir_gp
 mass triplets_map map_q g_zero bz_grid_addresse is_NU charge_sum dielectric born q_direction
 dd_q0 G_list lambda nac_factor qpoint""".split())
# pairs the code base uses for one value on purpose
OK_PAIRS = {frozenset(x.split("/")) for x in
            "mesh/D_diag sigma/epsilon frequency/frequency_point fc3/fc2 qpoint/nac_q_direction triplet/bz_grid_addresse "
            "num_band/num_band0 q_direction/nac_q_direction grid_point/triplet is_NU/is_N_U rotation/reciprocal_lattice".split()}


def distinct(pairs):
    S = lambda x: roles.norm(roles.singular(x))
    out = []
    for f, r, t in pairs:
        n = S(roles.norm(f))
        r = {S(x) for x in r}
        if n in DISTINCT and r and n not in r and r <= DISTINCT and not any(frozenset((n, q)) in OK_PAIRS for q in r):
            out.append((f, sorted(r)[0], t))
    return out


def misfits(pairs):
    """pairs: list of (formal, roles set, text). -> misdirected (formal, role)."""
    by = {}
    S = lambda x: roles.norm(roles.singular(x))
    names = [roles.norm(f) for f, r, t in pairs]
    if len({S(n) for n in names}) == len(set(names)):    # number does not distinguish the formals
        pairs = [(S(roles.norm(f)), {S(x) for x in r}, t, f) for f, r, t in pairs]
    else:
        pairs = [(roles.norm(f), r, t, f) for f, r, t in pairs]
    for n, r, t, f in pairs:
        by[n] = (f, r, t)
    out = []
    for n, r, t, f in pairs:
        if n in r or not r:
            continue
        for q in sorted(r):
            if q in by and q != n:
                qf, qr, qt = by[q]
                if (n.endswith("_" + q) or q.endswith("_" + n)) and n not in qr:
                    continue    # a variant of the quantity: only a mutual exchange is definite
                if q in qr or (not qr and qt is None):
                    continue
                out.append((f, q, t, qf, qt))
    return out


def local_names(call):
    """positional index / keyword -> identifier written at the call."""
    d = {}
    for i, a in enumerate(call.args):
        d[i] = a.id if isinstance(a, ast.Name) else None
    for k in call.keywords:
        if k.arg:
            d[k.arg] = k.value.id if isinstance(k.value, ast.Name) else None
    return d


def run(R):
    R.explanation = ("For every resolved call (Python to Python, Python to compiled kernel, wrapper to C, C to C) each actual is "
                     "given the names its value is known under (parameter, attribute, dictionary key, getter, returned tuple "
                     "element), following local assignments; the rule reports a value that carries the name of one formal and "
                     "is passed to another while the formal of its name receives a different value.")
    R.assumptions = ["quantities of one name are one quantity within a call (alias table in lib/roles.py)"]
    p = pyx.project()
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind != "call":
                continue
            names = local_names(e.node)
            k = kern.kernel_of(e.t[1])
            if k is not None:
                d = dict(zip(k.formals, e.t[2]))
                d.update({n: v for n, v in e.t[3] if n})
                check(R, p, f, e, d, k.name, k.formals, names)
                R.count("kernel calls")
                continue
            tg, _ = p.targets(e.t[1], f)
            for g, ctor in tg:
                d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                if errs:
                    continue
                fm = list(g.params) if p.is_unbound(e.t[1], f, g) or not g.is_method else g.params[1:]
                check(R, p, f, e, d, g.short, fm, names)
                R.count("Python calls")
        counterpart(R, p, f)
        exchanged(R, p, f)
    cside(R)
    R.require("kernel calls", 30)
    R.require("Python calls", 700)
    R.require("C calls", 150)


def check(R, p, f, e, d, cname, formals, names):
    pairs = []
    pos = {n: i for i, n in enumerate(formals)}
    for fm, t in d.items():
        r = roles.roles(t, f, p)
        if not r or t[0] in ("call", "op", "comp", "phi", "ite"):
            ln = names.get(pos.get(fm)) or names.get(fm)
            if ln:
                r = r | {roles.norm(ln)}
        pairs.append((fm, r, pyx.show(t)))
        R.count("arguments")
    for fm, q, t, qf, qt in misfits(pairs):
        R.report("misdirected-argument", "%s:%s" % (f.file, f.short), "%s(%s=%s)" % (cname, fm, q),
                 "%s is passed to parameter %s of %s, whose parameter %s gets %s" % (t, fm, cname, qf, qt), e.line)
    for fm, q, t in distinct(pairs):
        R.report("wrong-quantity", "%s:%s" % (f.file, f.short), "%s(%s=%s)" % (cname, fm, q),
                 "%s is passed to parameter %s of %s" % (t, fm, cname), e.line)


OPPOSITE = (("fc2", "fc3"), ("s2p", "p2s"))


def tokens(s):
    return re.split(r"[^a-z0-9]+", s.lower())


def identifiers(a):
    out = set()
    for n in ast.walk(a):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return out


def side(names):
    """For each pair of opposites: which of the two, and only that one, the names carry."""
    ts = {t for n in names for t in tokens(n)}
    return [a if a in ts and b not in ts else b if b in ts and a not in ts else None for a, b in OPPOSITE]


def counterpart(R, p, f):
    """A value of one order (fc2/fc3, s2p/p2s) is given to a name of the other order, although its counterpart is at hand."""
    hand, seen = None, set()
    for e in p.events(f):
        ps = []
        if e.kind == "call" and isinstance(e.node, ast.Call):
            ps += [(k.arg, k.value) for k in e.node.keywords if k.arg]
            for g, ctor in p.targets(e.t[1], f)[0]:
                fm = list(g.params) if p.is_unbound(e.t[1], f, g) or not g.is_method else g.params[1:]
                ps += list(zip(fm, e.node.args))
        elif e.kind in ("store_name", "store_attr") and isinstance(e.node, ast.Assign) and len(e.node.targets) == 1:
            t = e.node.targets[0]
            if isinstance(t, (ast.Name, ast.Attribute)):
                ps.append((t.id if isinstance(t, ast.Name) else t.attr, e.node.value))
        for fm, a in ps:
            ids = identifiers(a)
            for x, y, pr in zip(side({fm}), side(ids), OPPOSITE):
                if x is not None:
                    R.count("values of one order")
                if x is None or y is None or x == y or (fm, id(a)) in seen:
                    continue
                seen.add((fm, id(a)))
                if hand is None:
                    hand = set(f.params) | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {
                        n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
                own = set(hand)
                for n in ast.walk(a):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and f.cls is not None:
                        own |= {m for c in p.mro(f.cls) for m in p.attr_stores(c)} | {g.name for c in p.mro(f.cls) for g in p.class_funcs(c)}
                twin = [i for i in ids if y in tokens(i) and re.sub(r"(?<![a-z0-9])%s(?![a-z0-9])" % y, x, i) in own]
                if twin:
                    R.report("counterpart", "%s:%s" % (f.file, f.short), "%s=%s" % (fm, ast.unparse(a)[:60]),
                             "%s is given %s although %s is at hand" % (
                                 fm, ast.unparse(a)[:60], re.sub(r"(?<![a-z0-9])%s(?![a-z0-9])" % y, x, twin[0])), e.line)


def stems(s):
    return {t.rstrip("s")[:4] for t in tokens(s) if t and t not in ("py", "is", "self")}


def alike(a, b):
    x, y = stems(a), stems(b)
    return len(x & y) / len(x | y) if x | y else 0


def plain(a):
    while isinstance(a, ast.Subscript):
        a = a.value
    return a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None


def exchanged(R, p, f):
    """Two arguments whose names each resemble the other one's parameter and not their own (abbreviated names)."""
    for e in p.events(f):
        if e.kind != "call" or not isinstance(e.node, ast.Call) or any(isinstance(a, ast.Starred) for a in e.node.args):
            continue
        for g, ctor in p.targets(e.t[1], f)[0]:
            fm = list(g.params) if p.is_unbound(e.t[1], f, g) or not g.is_method else g.params[1:]
            ps = [(a, b) for a, b in zip(fm, map(plain, e.node.args)) if b]
            ps += [(k.arg, plain(k.value)) for k in e.node.keywords if k.arg and plain(k.value)]
            for i, (fi, ai) in enumerate(ps):
                for fj, aj in ps[:i]:
                    cross, own = (alike(ai, fj), alike(aj, fi)), (alike(ai, fi), alike(aj, fj))
                    if min(cross) > max(own) and sum(cross) - sum(own) >= 0.5:
                        R.report("exchanged", "%s:%s" % (f.file, f.short), "%s(%s=%s, %s=%s)" % (g.short, fi, ai, fj, aj),
                                 "%s is passed to %s and %s to %s" % (ai, fi, aj, fj), e.line)


def cname_of(n, env):
    n = cfront.strip(n)
    while n is not None:
        if n.k == "DeclRefExpr":
            return n.name
        if n.k == "MemberExpr":
            if n.name in ("data", "dims") and n.kids:
                n = cfront.strip(n.kids[0])
                continue
            return n.name
        if n.k == "UnaryOperator" and n.op in ("&", "*"):
            n = cfront.strip(n.kids[0])
            continue
        if n.k == "ArraySubscriptExpr":
            n = cfront.strip(n.kids[0])
            continue
        if n.k == "BinaryOperator" and n.op == "+" and "*" in (n.t or ""):
            l, r = cfront.strip(n.kids[0]), cfront.strip(n.kids[1])
            n = l if l is not None and ("*" in (l.t or "") or "[" in (l.t or "")) else r
            continue
        return None
    return None


def cside(R):
    p = cfront.load("lapacke")
    ws = cfront.load_wrappers(lapacke=True)
    protos = {f.name: f for f in p.funcs.values()}
    jobs = [(f, lambda n, ff=f: p.resolve(n, ff.file)) for f in p.all_funcs()]
    for key, t in ws.items():
        jobs += [(f, lambda n, tt=t: tt.funcs.get(n) or protos.get(n)) for f in t.funcs.values()]
    for f, res in jobs:
        for n in f.body.walk():
            if n.k == "CallExpr":
                c = cfront.callee(n)
                g = res(c) if c else None
                if g is None or g.name == f.name:
                    continue
                a = cfront.args(n)
                pairs = []
                for pr, x in zip(g.params, a):
                    nm = cname_of(x, None)
                    pairs.append((pr[0], fit(pr[0], nm) if nm else set(), cfront.src(x)))
                    R.count("C arguments")
                R.count("C calls")
                for fm, q, t in distinct(pairs):
                    R.report("wrong-quantity", "%s:%s" % (rel(f.file), f.name), "%s(%s=%s)" % (g.name, fm, q),
                             "%s is passed to parameter %s of %s" % (t, fm, g.name), n.line)
                for fm, q, t, qf, qt in misfits(pairs):
                    R.report("misdirected-argument", "%s:%s" % (rel(f.file), f.name), "%s(%s=%s)" % (g.name, fm, q),
                             "%s is passed to parameter %s of %s, whose parameter %s gets %s" % (t, fm, g.name, qf, qt), n.line)
                numbered(R, f, g, a, n)
    # wrappers: a local named after one array argument must read that argument
    for key, t in ws.items():
        for f in t.funcs.values():
            pn = {roles.norm(x[0]): x[0] for x in f.params}
            for n in f.body.walk():
                if n.k == "BinaryOperator" and n.op == "=" or n.k == "VarDecl" and n.kids:
                    if n.k == "VarDecl":
                        lhs, rhs = n.name, n.kids[-1]
                    else:
                        l = cfront.strip(n.kids[0])
                        lhs, rhs = (l.name if l is not None and l.k == "DeclRefExpr" else None), n.kids[1]
                    src = {x.name for x in rhs.walk() if x.k == "DeclRefExpr" and x.name in pn.values()}
                    if lhs and len(src) == 1:
                        s = src.pop()
                        R.count("wrapper bindings")
                        q = roles.norm(lhs)
                        if q in pn and pn[q] != s and s not in (lhs,):
                            R.report("wrapper-binding", "%s:%s" % (rel(f.file), f.name), "%s=%s" % (lhs, s),
                                     "%s is read from argument %s although an argument %s exists" % (lhs, s, pn[q]), n.line)


def row_of(n):
    """Constant selecting the element an actual stands for: x[2], x[table[i][2]], x + table[i][2] * n, ..."""
    n = cfront.strip(n)
    if n is not None and n.k == "UnaryOperator" and n.op == "&":
        n = cfront.strip(n.kids[0])
    if n is None:
        return None
    if n.k == "ArraySubscriptExpr" or n.k == "BinaryOperator" and n.op == "+":
        i = cfront.strip(n.kids[1])
        if i is None:
            return None
        if n.k != "ArraySubscriptExpr":
            subs = [x for x in i.walk() if x.k == "ArraySubscriptExpr"]
            if not subs:
                return None
            i = subs[0]
        elif i.k == "IntegerLiteral":
            return int(i.val)
        if i.k == "ArraySubscriptExpr":
            j = cfront.strip(i.kids[1])
            if j is not None and j.k == "IntegerLiteral":
                return int(j.val)
    return None


def numbered(R, f, g, a, call):
    """Formals x0, x1, .. and y0, y1, .. of one call take elements chosen alike."""
    fam = {}
    for pr, x in zip(g.params, a):
        nm = pr[0] or ""
        if nm[-1:].isdigit() and len(nm) > 1 and not nm[-2].isdigit():
            fam.setdefault(nm[:-1], {})[nm[-1]] = (row_of(x), cfront.src(x))
    fams = [(s, d) for s, d in sorted(fam.items()) if len(d) > 1 and all(t[0] is not None for t in d.values())]
    for k, (s, d) in enumerate(fams):
        for s2, d2 in fams[k + 1:]:
            if set(d) != set(d2) or sorted(t[0] for t in d.values()) != sorted(t[0] for t in d2.values()):
                continue
            R.count("pairs of numbered argument families")
            bad = [q for q in sorted(d) if d[q][0] != d2[q][0]]
            if bad and len({t[0] for t in d.values()}) == len(d):
                q = bad[0]
                R.report("numbered", "%s:%s" % (rel(f.file), f.name), "%s(%s%s, %s%s)" % (g.name, s, q, s2, q),
                         "%s gets %s and %s gets %s: they belong to different members of the triplet"
                         % (s + q, d[q][1], s2 + q, d2[q][1]), call.line)


def fit(formal, nm):
    """Role of a C actual; a name equal to the formal's up to number is that formal."""
    if roles.singular(nm.lstrip("_")) == roles.singular(formal.lstrip("_")):
        return {roles.norm(formal)}
    return {roles.norm(nm)}


def rel(p):
    return "c/" + p.split("/c/")[-1] if "/c/" in p else p
