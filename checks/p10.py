"""P10: forwarding of user settings (same-name obligations at every resolved call, store and rebinding).

For each resolved call, an optional parameter of the callee whose name the caller received as parameter, holds as user attribute or reads from the run settings must be passed, and must not be passed a constant or another setting; a parameter must not be rebound to, or its attribute stored from, a value that does not depend on it; no parameter of a public function is ignored. Deliberate cases are listed per callee and parameter; calls of unresolved callees are undecided."""
import ast
import named
import pyx, roles

SKIP = {"log_level", "verbose", "lang", "self", "cls"}
# (callee, parameter) -> why a caller with a value of that name need not pass it
EXC = {
    ("*", "nac_q_direction", "JointDos"): "set per grid point through the attribute",
    ("run_phonon_solver", "grid_points"): "None means all grid points, a superset",
    ("SymfcFCSolver", "symmetry"): "only used for the number of displacements",
    ("generate_fc2_displacements", "number_of_snapshots"): "documented separate call for random fc2 displacements",
    ("generate_fc2_displacements", "random_seed"): "as above",
    ("generate_fc2_displacements", "max_distance"): "as above",
    ("generate_fc2_displacements", "is_diagonal"): "documented: fc2 displacements are generated non-diagonal",
    ("get_least_displacements", "is_diagonal"): "first displacements of a pair are along axes by design",
    ("Phono3pyYaml", "calculator"): "taken from the Phono3py object or the file read",
    ("Phono3py", "calculator"): "load() records units through the cell",
    ("PhonopyMLP", "mlp"): "a fresh potential is developed or loaded",
    ("get_supercell", "symprec"): "supercell construction uses its own tolerance",
    ("_get_filename_suffix", "temperature"): "file names are checked by P12",
    ("_get_filename_suffix", "band_indices"): "file names are checked by P12",
    ("_get_filename_suffix", "filename"): "file names are checked by P12",
    ("get_filename_suffix", "filename"): "file names are checked by P12",
    ("CollisionMatrix", "rotations_cartesian"): "not used for the reducible matrix",
    ("CollisionMatrix", "rot_grid_points"): "not used for the reducible matrix",
    ("CollisionMatrix", "is_reducible_collision_matrix", "when:is_reducible_collision_matrix"): "branch constant",
    ("diagonalize_collision_matrix", "i_sigma"): "a single matrix is given",
    ("diagonalize_collision_matrix", "i_temp"): "a single matrix is given",
    ("run_interaction", "is_full_pp", "when:const_ave_pp"): "constant averaged interaction needs no full matrix",
    ("set_sigma", "sigma_cutoff", "_set_gamma_at_sigmas_lowmem"): "low-memory mode passes the cutoff to the kernel",
    ("write_grid_address_to_hdf5", "bz_grid"): "grid written without matrix",
    ("TetrahedronMethod", "mesh"): "relative addresses only",
    ("_run_grg", "grid_matrix"): "computed from the length",
    ("_run_grg", "length"): "computed from the matrix",
    ("get_fc2", "is_compact_fc"): "fc3 needs the full fc2 of its own supercell",
    ("_get_gruneisen_tensor", "nac_q_direction"): "documented for the q-point only at Gamma",
    ("set_interaction_strength", "g_zero"): "already held by the collision object, compared just before", ("run", "g_zero"): "full interaction requested",
    ("Phono3py", "make_r0_average", "create_phono3py_supercells"): "displacements do not depend on it",
    ("Phono3py", "use_grg", "create_phono3py_supercells"): "displacements do not depend on the grid type",
    ("get_nac_params", "nac_params"): "read from file here",
    ("ConductivityBase", "gv_delta_q", "ConductivityLBTEBase.__init__"): "velocity initialised once more with it by the caller",
    ("ConfParser", "args", "__init__"): "file and arguments are parsed one after the other",
    ("ConfParser", "filename", "__init__"): "as above",
    ("Phono3py", "cutoff_frequency", "create_phono3py_supercells"): "displacements do not depend on phonons",
    ("Phono3py", "frequency_factor_to_THz", "create_phono3py_supercells"): "as above",
    ("Phono3py", "is_mesh_symmetry", "create_phono3py_supercells"): "as above",
}
# modules whose calls the exceptions above are about (others: everywhere)
WHERE = {
    ("JointDos", "nac_q_direction"): {"api_jointdos"},
    ("Phono3py", "calculator"): {"cui.load", "cui.phono3py_script", "cui.create_supercells"},
    ("Phono3pyYaml", "calculator"): {"api_phono3py", "cui.create_force_sets", "cui.load"},
    ("PhonopyMLP", "mlp"): {"api_phono3py"},
    ("SymfcFCSolver", "symmetry"): {"interface.fc_calculator"},
    ("TetrahedronMethod", "mesh"): {"other.isotope"},
    ("_get_filename_suffix", "band_indices"): {"file_IO"}, ("_get_filename_suffix", "filename"): {"file_IO"},
    ("_get_filename_suffix", "temperature"): {"file_IO"},
    ("_get_gruneisen_tensor", "nac_q_direction"): {"phonon3.gruneisen"},
    ("CollisionMatrix", "rotations_cartesian"): {"conductivity.direct_solution"}, ("CollisionMatrix", "rot_grid_points"): {"conductivity.direct_solution"},
    ("diagonalize_collision_matrix", "i_sigma"): {"conductivity.direct_solution"},
    ("diagonalize_collision_matrix", "i_temp"): {"conductivity.direct_solution"},
    ("generate_fc2_displacements", "is_diagonal"): {"api_phono3py", "cui.create_supercells"},
    ("generate_fc2_displacements", "max_distance"): {"api_phono3py"}, ("generate_fc2_displacements", "number_of_snapshots"): {"api_phono3py"},
    ("generate_fc2_displacements", "random_seed"): {"api_phono3py"},
    ("get_fc2", "is_compact_fc"): {"phonon3.fc3"}, ("get_least_displacements", "is_diagonal"): {"phonon3.displacement_fc3"},
    ("get_supercell", "symprec"): {"api_phono3py"}, ("run", "g_zero"): {"phonon3.imag_self_energy"},
    ("set_interaction_strength", "g_zero"): {"conductivity.rta", "conductivity.direct_solution"},
    ("write_grid_address_to_hdf5", "bz_grid"): {"cui.triplets_info"},
}
# names under which a setting goes by in its consumer
ALIAS = {
    "cutoff_distance": {"cutoff_fc3_distance"}, "compression": {"hdf5_compression"}, "calculator": {"interface_mode"}, "interface_mode": {"calculator"},
    "is_plusminus": {"is_plusminus_displacement", "is_plusminus_displacement_fc2"}, "is_diagonal": {"is_diagonal_displacement"},
    "number_of_snapshots": {"random_displacements", "random_displacements_fc2"}, "make_r0_average": {"is_fc3_r0_average"},
    "symmetrize_fc": {"fc_symmetry"}, "mesh": {"mesh_numbers"}, "constant_averaged_interaction": {"constant_averaged_pp_interaction"},
    "symmetrize_fc3q": {"is_symmetrize_fc3_q"}, "is_mesh_symmetry": {"is_mesh_symmetry"}, "distance": {"displacement_distance"},
    "frequency_factor_to_THz": {"frequency_conversion_factor"}, "nac_q_direction": {"nac_q_direction"},
    "unit_conversion_factor": {"pp_conversion_factor"}, "transport_type": {"conductivity_type"},
    "solve_collective_phonon": {"solve_collective_phonon"}, "num_frequency_points": {"num_frequency_points"},
    "filename": {"create_forces_fc3_file", "subtract_forces", "create_forces_fc2", "subtract_forces_fc2"},
    "force_filenames": {"create_forces_fc2", "create_forces_fc3"}, "frequency_step": {"fpitch"}, "sigmas": {"sigma"},
    "temperatures": {"temperature_points"}, "is_N_U": {"is_N_U"}, "is_reducible_collision_matrix": {"is_reducible_collision_matrix"},
}
UNUSED = {("write_kappa_to_hdf5", "mean_free_path"): "field withdrawn from the file format",
          ("SecondOrderFC.run", "T"): "", ("ThirdOrderFC.run", "T"): "signature shared with the analytic variant",
          ("_run_fc3_ave", "T"): "", ("_set_mean_free_path", "weights"): "historical signature", ("_set_mean_free_path", "Y"): ""}


def exc(g, q, f, e):
    n = g.cls.name if g.cls and g.name == "__init__" else g.name
    here = {f.name, f.short} | {x for k in f.module.funcs for x in (k, k.split(".")[-1])}
    at = f.module.name.split(".", 1)[-1] in WHERE.get((n, q), {f.module.name.split(".", 1)[-1]})
    if (n, q) in EXC and at or any(k[:2] == (n, q) and len(k) > 2 and k[2] in here for k in EXC) or fallback(f, e) or at and ("*", q, g.cls.name if g.cls else "") in EXC:
        return True
    for k in EXC:
        if k[:2] == (n, q) and len(k) > 2 and k[2].startswith("when:"):
            if any(k[2][5:] in pyx.show(c) for c, _ in e.conds):
                return True
    return False


def fallback(f, e):
    """A call in an except handler, of what was called in the try block: the announced retry."""
    n = e.node
    if not isinstance(n, ast.Call):
        return False
    name = ast.unparse(n.func)
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and any(n is x for h in t.handlers for x in ast.walk(h)):
            if any(isinstance(x, ast.Call) and ast.unparse(x.func) == name for b in t.body for x in ast.walk(b)):
                return True
    return False


def settings_attrs(p):
    out = set()
    for c in p.mro(p.classes["phono3py.cui.settings.Phono3pySettings"]):
        if c.name in ("Phono3pySettings", "Settings"):
            for n in ast.walk(c.node):
                if isinstance(n, ast.Dict):
                    out |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr.lstrip("_"))
    return out - {"default", "v"}


def is_settings(t, f, p):
    return t[0] in ("param", "attr", "call", "name", "item", "phi", "sub") and any(
        x[0] == "inst" and x[1].endswith("Settings") for x in p.typeof(t, f)) or t == ("param", "settings")


def reads_settings(f, p):
    for e in p.events(f):
        if e.kind == "load_attr" and is_settings(e.t[1], f, p):
            return True
    return any(x == "settings" for x in f.params + f.kwonly)


def user_attrs(p, c):
    """Attributes of a class holding the constructor or setter parameter of the same name."""
    out = {}
    for k in p.mro(c):
        for a, l in p.attr_stores(k).items():
            q = a.lstrip("_")
            for e in l:
                if q in e.fn.params + e.fn.kwonly and (e.fn.name == "__init__" or not e.fn.name.startswith("_")) and \
                        any(x == ("param", q) for x in pyx.subterms(e.t[2])):
                    out[q] = a
    return out


def run(R):
    p = pyx.project()
    S = settings_attrs(p)
    R.explanation = ("Every resolved call between functions of the package is bound to its callee's parameters; for each "
                     "parameter whose name the caller owns (parameter, user attribute, run setting) the value passed is examined.")
    R.assumptions = ["a parameter and a user value of the same name denote the same option, except the pairs listed with reasons in "
                     "checks/p10.py", "settings known to consumers under another name are listed in ALIAS"]
    ua = {}
    for f in p.own_funcs():
        mine = set(f.params + f.kwonly)
        g0 = f.outer
        while g0:
            mine |= set(g0.params + g0.kwonly)
            g0 = g0.outer
        mine -= SKIP
        c = f.cls
        if c is not None and c.qual not in ua:
            ua[c.qual] = user_attrs(p, c)
        attrs = ua.get(c.qual, {}) if c is not None else {}
        hs = reads_settings(f, p)
        for e in p.events(f):
            if e.kind == "call":
                calls(R, p, f, e, mine, attrs, S if hs else set())
            elif e.kind == "store_attr":
                store(R, p, f, e, mine)
                overwritten(R, p, f, e, attrs)
            elif e.kind == "store_name":
                rebind(R, p, f, e, mine)
        unused(R, p, f)
        nac_back(R, p, f)
        from_options(R, p, f)
        exchanged(R, p, f)
        sometimes(R, p, f, mine, attrs)
    R.require("calls examined", 800)
    R.require("same-name obligations", 900)
    R.require("settings passed", 70)
    R.require("parameters examined", 2000)


def consts(t):
    return all(a[0] == "c" for a in pyx.alts(t))


def calls(R, p, f, e, mine, attrs, S):
    c, args, kw = e.t[1], e.t[2], e.t[3]
    if any(a[0] == "star" for a in args) or any(k is None for k, v in kw):
        return
    tg, full = p.targets(c, f)
    where = "%s:%s" % (f.file, f.short)
    seen = set()
    for g, ctor in tg:
        d, errs, exact = p.bind(g, args, kw, p.is_unbound(c, f, g))
        if errs:
            continue
        R.count("calls examined")
        own = g.module.name in p._ownset
        for q in g.params + g.kwonly:
            if q in SKIP or (g.name, q) in seen:
                continue
            names = ALIAS.get(q, set()) | {q}
            v = d.get(q)
            src = "parameter" if q in mine else "attribute" if q in attrs and f.name != "__init__" else \
                "setting" if names & S and own else None
            if v is not None:
                for a in pyx.alts(v):
                    s = setting_of(a, f, p)
                    if s is not None:
                        R.count("settings passed")
                        if s not in names and not same(s, q) and (q in S or s in S) and any(x in S for x in names):
                            seen.add((g.name, q))
                            R.report("other-setting", where, "%s.%s" % (g.short, q), "is given setting %s" % s, e.line)
            if src is None and v is None and own and source(p, f, g, q, d):
                src = "object (%s)" % pyx.show(source(p, f, g, q, d))
            if src is None and v is None and own and q not in ("filename", "settings") and local(p, f, q, e):
                src = "variable"
            if src is None and v is None and own and e.t[1][0] == "attr" and e.t[1][1] == ("self",) and over(p, f, g, q, e):
                src = "loop over %s" % over(p, f, g, q, e)
            if src is None:
                continue
            R.count("same-name obligations")
            if v is not None and not (consts(v) and not depends(e, q, names)) or v is None and depends(e, q, names):
                continue
            if exc(g, q, f, e):
                continue
            if v is None:
                if src == "setting" and q == "filename":
                    continue
                seen.add((g.name, q))
                R.report("omitted", where, "%s.%s" % (g.short, q), "the caller's %s of this name is not passed on" % src, e.line)
            else:
                if src == "setting" and q == "filename":
                    continue
                seen.add((g.name, q))
                R.report("constant", where, "%s.%s" % (g.short, q), "%s is passed although the caller has a %s of this name" % (pyx.show(v), src), e.line)


GAMMA, NAC = "run_phonon_solver_at_gamma", "is_nac"


def nac_back(R, p, f):
    """Phonons at Gamma computed without NAC (to find a frequency range) are computed again as the user asked."""
    here = [e for e in p.events(f) if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2] == GAMMA and e.t[1][1] != ("self",)]
    on = [e for e in here if dict(e.t[3]).get(NAC, e.t[2][0] if e.t[2] else ("c", False)) != ("c", False)]
    for e in here:
        if e in on:
            continue
        R.count("phonons at Gamma without NAC")
        if any(x.order > e.order and x.conds == e.conds[:len(x.conds)] for x in on):
            continue
        R.count("restored by callers")
        sites = [s[0] for s in p.call_sites().get(f.qual, [])]
        if sites and all(any(x.kind == "call" and x.order > s.order and x.t[1][0] == "attr" and x.t[1][2] == GAMMA for x in p.events(s.fn)) for s in sites):
            continue
        R.report("left-off", "%s:%s" % (f.file, f.short), "%s.%s" % (pyx.show(e.t[1][1])[:40], GAMMA),
                 "phonons at Gamma are left without the NAC the user asked for", e.line)


def from_options(R, p, f):
    """Parameters of a callee named as a command-line option this function looks at elsewhere."""
    opts = {}
    for e in p.events(f):
        if e.kind == "load_attr" and e.t[1][0] == "param" and e.t[1][1] in ("args", "options"):
            opts.setdefault(e.t[2], e)
    if not opts:
        return
    for e in p.events(f):
        if e.kind != "call":
            continue
        for g, ctor in p.targets(e.t[1], f)[0]:
            if g.module.name not in p._ownset:
                continue
            d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
            for q in ([] if errs else g.params + g.kwonly):
                if q not in opts or q in SKIP:
                    continue
                R.count("parameters named as options")
                v = d.get(q)
                if v is None and not depends(e, q, {q}) or v is not None and consts(v) and not depends(e, q, {q}):
                    R.report("constant", "%s:%s" % (f.file, f.short), "%s.%s" % (g.short, q),
                             "%s although the option of this name is at hand" % ("nothing is passed" if v is None else "%s is passed" % pyx.show(v)), e.line)


def source(p, f, g, q, d):
    """The held object that gives several parameters of a call of their own names and also has q."""
    if q == "band_indices":    # all bands are computed, and the chosen ones taken afterwards
        return None
    n = {}
    for k, v in d.items():
        if v is not None and v[0] == "attr" and v[2] == k and v[1] != ("self",) and v[1][0] in ("attr", "param"):
            n[v[1]] = n.get(v[1], 0) + 1
    for x, c in n.items():
        ks = [p.classes[b[1]] for b in p.typeof(x, f) if b[0] == "inst" and b[1] in p.classes]
        if len(ks) == 1 and p.member(ks[0], q) and p.member(ks[0], q)[0] == "property":
            return x
    return None


def over(p, f, g, q, e):
    """The list of the object that the callee takes entry q of and this call is made in a loop over."""
    for x in p.events(g):
        if x.kind == "load_sub" and x.extra and x.extra[1] == ("param", q) and x.extra[0][0] == "attr" and x.extra[0][1] == ("self",):
            for it, _ in e.loops:
                if any(y == x.extra[0] for y in pyx.subterms(it)):
                    return x.extra[0][2]
    return None


def local(p, f, q, e):
    """A variable of this name holds a value where the call is made."""
    return any(x.kind == "store_name" and x.t[0] == q and x.order < e.order and x.conds == e.conds[:len(x.conds)] and x.loops == e.loops[:len(x.loops)]
               for x in p.events(f))


def same(a, b):
    return roles.norm(roles.singular(a)) == roles.norm(roles.singular(b))


def setting_of(a, f, p):
    if a[0] == "attr" and is_settings(a[1], f, p):
        return a[2]
    if a[0] == "sub" and a[2][0] == "c" and isinstance(a[2][1], str) and a[1][0] in ("param", "call", "name") and \
            "settings" in pyx.show(a[1]):
        return a[2][1]
    return None


def depends(e, q, names):
    """The call happens under a condition on the value itself."""
    for cnd, _ in e.conds:
        for x in pyx.subterms(cnd):
            if x == ("param", q) or x[0] == "attr" and (x[2].lstrip("_") == q or x[2] in names) or \
                    x[0] == "sub" and x[2][0] == "c" and x[2][1] in names:
                return True
    return False


def store(R, p, f, e, mine):
    b, a, v = e.t
    q = a.lstrip("_")
    if b != ("self",) or q not in mine:
        return
    R.count("parameter stores")
    dep = lambda x: any(y == ("param", q) for y in pyx.subterms(x.t[2])) or depends(x, q, {q})
    if dep(e):
        return
    for x in p.events(f):
        if x.kind == "store_attr" and x.t[0] == b and x.t[1] == a and x is not e and dep(x):
            return
        # handed to a method or base constructor under the same name
        if x.kind == "call" and any(y == ("param", q) for z in list(x.t[2]) + [w for _, w in x.t[3]] for y in pyx.subterms(z)):
            if e.t[2][0] == "c" or any(y == ("param", q) for y in x.t[2]) or any(k == q for k, _ in x.t[3]):
                return
        if v == ("c", None) and x.kind == "store_attr" and any(y == ("param", q) for y in pyx.subterms(x.t[2])):
            return   # initialised here, the parameter is kept or set through another attribute
    # a value computed from the parameter's object, e.g. through another stored attribute
    if v[0] not in ("c", "param") and not (v[0] == "attr" and v[1] == ("self",)):
        return
    R.report("replaced", "%s:%s" % (f.file, f.short), a, "parameter %s is not what is stored, but %s" % (q, pyx.show(v)[:60]), e.line)


def rebind(R, p, f, e, mine):
    q, v = e.t
    if q not in mine or q in SKIP or q not in f.params + f.kwonly:
        return
    R.count("parameter rebindings")
    if any(x == ("param", q) for x in pyx.subterms(v)) or depends(e, q, {q}):
        return
    # under a condition computed from the parameter by a test earlier in the function
    for cnd, _ in e.conds:
        if any(x == ("param", q) for x in pyx.subterms(cnd)):
            return
    R.report("rebound", "%s:%s" % (f.file, f.short), q, "the value given is replaced by %s" % pyx.show(v)[:60], e.line)


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def only_tested(f, q):
    """The value itself goes nowhere: the parameter is only compared with None."""
    loads = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == q and isinstance(n.ctx, ast.Load)]
    tests = [n.left for n in ast.walk(f.node) if isinstance(n, ast.Compare) and len(n.ops) == 1 and
             isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant)]
    return bool(loads) and all(any(n is t for t in tests) for n in loads)


def overwritten(R, p, f, e, attrs):
    """An attribute holding what the user set is given a constant outside of constructors and setters."""
    b, a, v = e.t
    if b != ("self",) or attrs.get(a.lstrip("_")) != a or f.is_setter or f.name == "__init__" or f.name.startswith(("set_", "delete_", "clear_", "reset_")):
        return
    if not consts(v):
        return
    R.count("user attributes overwritten")
    for x in p.events(f):
        if x.kind == "store_attr" and x.t[0] == b and x.t[1] == a and x.order > e.order and not consts(x.t[2]):
            return   # restored
    if depends(e, a.lstrip("_"), {a.lstrip("_")}):
        return
    R.report("overwritten", "%s:%s" % (f.file, f.short), a, "the user's value is replaced by %s and not restored" % pyx.show(v)[:60], e.line)


def sometimes(R, p, f, mine, attrs):
    """A value of the caller handed to a parameter under another name in one call and left out in another call."""
    got, left = {}, {}
    for e in p.events(f):
        if e.kind != "call":
            continue
        c, args, kw = e.t[1], e.t[2], e.t[3]
        if any(a[0] == "star" for a in args) or any(k is None for k, v in kw):
            continue
        for g, ctor in p.targets(c, f)[0]:
            if g.module.name not in p._ownset:
                continue
            d, errs, exact = p.bind(g, args, kw, p.is_unbound(c, f, g))
            if errs:
                continue
            for q in g.params + g.kwonly:
                if q in SKIP:
                    continue
                v = d.get(q)
                if v is None:
                    left.setdefault(q, []).append((e, g))
                elif v[0] == "param" and v[1] != q and v[1] in mine or \
                        v[0] == "attr" and v[1] == ("self",) and v[2] in attrs.values() and v[2].lstrip("_") != q:
                    got.setdefault(q, []).append((e, g, v))
    for q in got:
        for e, g in left.get(q, []):
            if any(g is h for x, h, v in got[q]):
                continue
            v = got[q][0][2]
            R.report("left-out", "%s:%s" % (f.file, f.short), "%s.%s" % (g.short, q), "%s is given to %s here but not in this call" % (pyx.show(v), got[q][0][1].short), e.line)


def exchanged(R, p, f):
    for kind, k, w, n in named.mixed(p, f):
        if kind == "keyword" and k is None:
            R.count("keywords with a value of their name at hand")
        elif kind == "keyword":
            R.report("exchanged", "%s:%s" % (f.file, f.short), k, "is given %s although there is a value named %s" % (w, k), n.lineno)


def unused(R, p, f):
    if f.abstract or stub(f) or f.name.startswith("__") and f.name != "__init__":
        return
    used = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    if "locals" in used:
        return
    for q in f.params + f.kwonly:
        if q in ("self", "cls") or q.startswith("_") or q == "log_level":
            continue
        R.count("parameters examined")
        if q in used and not only_tested(f, q):
            continue
        if f.cls is not None and any(k is not f.cls and f.name in k.methods for k in p.family(f.cls)):
            continue   # signature shared with other classes
        if any((n, q) in UNUSED for n in (f.short, f.name)):
            continue
        if f.name.startswith("_compare"):
            continue
        R.report("ignored", "%s:%s" % (f.file, f.short), q, "parameter has no effect", f.node.lineno)
