"""P14: stale derived state (class-level dependency analysis of stored attributes over inlined method traces: which stored result derives from which input, which mutators replace the input, which users read the result before it is made again)."""
import ast
import pyx, mutate
from pyx import subterms

SELF = ("self",)


class Cls:
    """Dependency facts of one class."""

    def __init__(self, p, c, world):
        self.p, self.c, self.world = p, c, world
        self.meths = {}
        for k in reversed(p.mro(c)):
            for f in p.class_funcs(k):
                if f.cls is k and not f.nested:
                    self.meths[(f.name, kind(p, f))] = f
        self.tr = {}

    def meth(self, name, what=("method", "getter")):
        for w in what:
            if (name, w) in self.meths:
                return self.meths[(name, w)]
        return None

    def trace(self, f, depth=0, stack=()):
        """Linear list of (kind, attr, conds, event, extra) with calls on self spliced in."""
        key = f.qual + kind(self.p, f)
        if key in self.tr:
            return self.tr[key]
        if key in stack or depth > 8:
            return []
        out = []
        for e in self.p.events(f):
            if e.kind == "load_attr" and e.t[1] == SELF:
                n = e.t[2]
                g = self.meth(n, ("getter",))
                if g is not None:
                    self.splice(out, g, e, depth, stack + (key,), {})
                else:
                    out.append(("read", n, e.conds, e, None))
            elif e.kind == "store_attr":
                b, n, v = e.t
                if b == SELF:
                    g = self.meth(n, ("setter",))
                    if g is not None:
                        pn = [x for x in g.params if x != "self"]
                        self.splice(out, g, e, depth, stack + (key,), {pn[-1]: v} if pn else {})
                    else:
                        out.append(("write", n, e.conds, e, v))
                elif b[0] == "attr" and b[1] == SELF:
                    out.append(("mut", b[2], e.conds, e, ("set", n, v)))
            elif e.kind == "aug_attr" and e.t[0] == SELF:
                out.append(("aug", e.t[1], e.conds, e, None))
            elif e.kind in ("store_sub", "aug_sub"):
                b = e.t[0]
                for r, l in mutate.alias(b):
                    if r[0] == "attr" and r[1] == SELF:
                        out.append(("sub", r[2], e.conds, e, e.t[2] if e.kind == "store_sub" else None))
            elif e.kind == "call":
                c = e.t[1]
                if c[0] == "attr" and c[1] == SELF:
                    g = self.meth(c[2], ("method",))
                    if g is not None:
                        d, errs, exact = self.p.bind(g, e.t[2], e.t[3], False)
                        self.splice(out, g, e, depth, stack + (key,), d)
                        continue
                if c[0] == "attr" and c[1][0] == "attr" and c[1][1] == SELF:
                    out.append(("mut", c[1][2], e.conds, e, ("call", c[2], e.t)))
                out.append(("call", None, e.conds, e, None))
        if depth == 0:
            self.tr[key] = out
        return out

    def splice(self, out, g, e, depth, stack, d):
        # an early return guards what follows it: the events carry that themselves
        sub = {("param", k): v for k, v in d.items()}
        for k, n, cs, ev, x in self.trace(g, depth + 1, stack):
            out.append((k, n, tuple(e.conds) + tuple(cs), ev, subst(x, sub) if isinstance(x, tuple) and k in ("write", "sub") else x))

    def reads_of(self, t, seen=()):
        """Chains self.A(.B) that the value of t is computed from."""
        out = set()
        for s in subterms(t):
            if s[0] == "attr" and s[1] == SELF:
                g = self.meth(s[2], ("getter",))
                if g is not None:
                    if s[2] not in seen:
                        for r in self.p.returns(g):
                            out |= self.reads_of(r.t, seen + (s[2],))
                else:
                    out.add((s[2], None))
            elif s[0] == "attr" and s[1][0] == "attr" and s[1][1] == SELF:
                out.add((s[1][2], s[2]))
            elif s[0] == "call" and s[1][0] == "attr" and s[1][1] == SELF:
                g = self.meth(s[1][2], ("method",))
                if g is not None and s[1][2] not in seen:
                    for r in self.p.returns(g):
                        out |= self.reads_of(r.t, seen + (s[1][2],))
        full = {a for a, b in out if b is not None}
        # (A, None) next to (A, B) comes from the prefix of the chain itself
        bare = set()
        for s in walk_bare(t):
            bare.add(s)
        return {(a, b) for a, b in out if b is not None or a not in full or a in bare}


def walk_bare(t):
    """Attributes of self used as whole objects in t."""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "attr" and t[1] == SELF:
        yield t[2]
        return
    if t[0] == "attr" and isinstance(t[1], tuple) and t[1][0] == "attr" and t[1][1] == SELF:
        return
    for x in t:
        if isinstance(x, tuple):
            yield from walk_bare(x)


def subst(t, d):
    if not isinstance(t, tuple) or not d:
        return t
    if t in d:
        return d[t]
    return tuple(subst(x, d) if isinstance(x, tuple) else x for x in t)


def kind(p, f):
    if f.is_property:
        return "getter"
    for d in f.node.decorator_list if hasattr(f.node, "decorator_list") else ():
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            return "setter"
    return "method"


def prefix(a, b):
    return tuple(b[:len(a)]) == tuple(a)


class Facts:
    def __init__(self, p, c):
        C = self.C = Cls(p, c, None)
        self.p = p
        self.deps = {}      # D -> {(A, B)}
        self.init = {}
        for f in C.meths.values():
            if f.name == "__init__":
                continue
            for k, n, cs, e, x in C.trace(f):
                if k in ("write", "sub") and x is not None:
                    d = {(a, b) for a, b in C.reads_of(x) if a != n and not a in {m[0] for m in C.meths}}
                    if d:
                        self.deps.setdefault(n, set()).update(d)
                elif k == "mut" and x[0] == "call":
                    # an object told about other attributes depends on them
                    for t in list(x[2][2]) + [v for _, v in x[2][3]]:
                        d = {(a, b) for a, b in C.reads_of(t) if a != n and not a in {m[0] for m in C.meths}}
                        if d and self.mutates(f, e):
                            self.deps.setdefault(n, set()).update(d)
                elif k == "call":
                    import kern
                    kk = kern.kernel_of(e.t[1])
                    if kk is None:
                        continue
                    outs = [i for i in mutate.KOUT.get((kk.mod, kk.name), ()) if i < len(e.t[2])]
                    src = set()
                    for i, a in enumerate(e.t[2]):
                        if i not in outs:
                            src |= C.reads_of(a)
                    for i in outs:
                        for r, l in mutate.alias(e.t[2][i]):
                            if r[0] == "attr" and r[1] == SELF:
                                self.deps.setdefault(r[2], set()).update({(a, b) for a, b in src if a != r[2]})

    def mutates(self, f, e):
        """Does the call on an attribute of self replace state of that object?"""
        ts, complete = self.p.targets(e.t[1], e.fn)
        for g, ctor in ts:
            if ctor or g.cls is None:
                continue
            G = world(self.p, g.cls)
            if G is not None and any(k == "write" for k, *_ in G.trace(g)):
                return True
        return False

    def users(self):
        """(method, D, event) where D is read before the method itself makes it."""
        C = self.C
        for (name, kd), f in sorted(C.meths.items(), key=lambda x: x[0]):
            if name.startswith("_") and name not in ("__next__", "__call__") or kd == "setter":
                continue
            tr = C.trace(f)
            if not any(k in ("write", "sub", "aug", "call", "mut") for k, *_ in tr):
                continue
            done = {}
            for k, n, cs, e, x in tr:
                if k == "write":
                    done.setdefault(n, []).append(cs)
                elif k == "read":
                    if any(prefix(w, cs) for w in done.get(n, ())):
                        continue
                    if tested_only(e, n):
                        continue
                    yield f, n, e


_W = {}


def world(p, c):
    if c not in _W:
        _W[c] = Cls(p, c, None)
    return _W[c]


def tested_only(e, n):
    """The read is only a test for presence."""
    nd = e.node
    par = parents(e.fn).get(nd)
    while isinstance(par, (ast.UnaryOp, ast.BoolOp)):
        nd, par = par, parents(e.fn).get(par)
    if isinstance(par, (ast.If, ast.IfExp, ast.While)) and par.test is nd:
        return True
    if isinstance(par, ast.Compare) and isinstance(par.ops[0], (ast.Is, ast.IsNot)):
        return True
    return False


_P = {}


def parents(f):
    if f.qual not in _P or _P[f.qual][0] is not f.node:
        d = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                d[y] = x
        _P[f.qual] = (f.node, d)
    return _P[f.qual][1]


# What a change of an input has to discard or make again, by class: (mutators, attributes that hold the input, stored result).
# The attributes are those the class keeps; one that no longer exists is not asked for.
OBL = [
    ("Phono3py", ("dataset", "displacements", "generate_displacements"), ("_dataset",), "_supercells_with_displacements"),
    ("Phono3py", ("phonon_dataset", "phonon_displacements", "generate_fc2_displacements"), ("_phonon_dataset",), "_phonon_supercells_with_displacements"),
    ("Phono3py", ("mesh_numbers",), ("_bz_grid",), "_interaction"),
    ("Phono3py", ("nac_params",), ("_nac_params",), "_interaction"),
    ("Phono3py", ("fc2", "produce_fc2"), ("_fc2",), "_interaction"),
    ("Phono3py", ("fc3", "produce_fc3"), ("_fc3",), "_interaction"),
    ("Phono3py", ("band_indices",), ("_band_indices", "_band_indices_flatten"), "_interaction"),
    ("Phono3py", ("band_indices",), ("_band_indices",), "_band_indices_flatten"),
    ("Phono3py", ("masses",), ("_primitive", "_phonon_primitive"), "_interaction"),
    ("Phono3pyJointDos", ("mesh_numbers", "initialize"), ("_bz_grid",), "_jdos"),
    ("Phono3pyJointDos", ("run",), ("_jdos",), "_joint_dos"),
    ("Phono3pyJointDos", ("run",), ("_jdos",), "_frequency_points"),
    ("ImagSelfEnergy", ("set_grid_point",), ("_grid_point",), "_pp_strength"),
    ("ImagSelfEnergy", ("set_grid_point",), ("_grid_point",), "_g"),
    ("ImagSelfEnergy", ("set_grid_point",), ("_grid_point",), "_triplets_at_q"),
    ("ImagSelfEnergy", ("set_grid_point",), ("_grid_point",), "_weights_at_q"),
    ("ImagSelfEnergy", ("set_sigma",), ("_sigma", "_sigma_cutoff"), "_g"),
    ("ImagSelfEnergy", ("set_sigma",), ("_sigma", "_sigma_cutoff"), "_g_zero"),
    ("ImagSelfEnergy", ("frequency_points",), ("_frequency_points",), "_g"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_pp_strength"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_g"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_triplets_at_q"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_weights_at_q"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_triplets_map_at_q"),
    ("CollisionMatrix", ("set_grid_point",), ("_grid_point",), "_ir_map_at_q"),
    ("RealSelfEnergy", ("grid_point",), ("_grid_point",), "_pp_strength"),
    ("RealSelfEnergy", ("grid_point",), ("_grid_point",), "_triplets_at_q"),
    ("RealSelfEnergy", ("grid_point",), ("_grid_point",), "_weights_at_q"),
    ("Interaction", ("set_grid_point",), (), "_triplets_at_q"),
    ("Interaction", ("set_grid_point",), (), "_weights_at_q"),
    ("Interaction", ("set_grid_point",), (), "_triplets_map_at_q"),
    ("Interaction", ("set_grid_point",), (), "_ir_map_at_q"),
    ("Interaction", ("init_dynamical_matrix",), ("_dm",), "_phonon_done"),
    ("Interaction", ("init_dynamical_matrix",), ("_dm",), "_frequencies"),
    ("Interaction", ("init_dynamical_matrix",), ("_dm",), "_eigenvectors"),
    ("Interaction", ("init_dynamical_matrix",), ("_dm",), "_frequencies_at_gamma"),
    ("Interaction", ("init_dynamical_matrix",), ("_dm",), "_eigenvectors_at_gamma"),
    ("Interaction", ("set_phonon_data",), (), "_phonon_done"),
    ("Interaction", ("set_phonon_data",), (), "_frequencies"),
    ("Interaction", ("set_phonon_data",), (), "_eigenvectors"),
    ("Interaction", ("set_phonon_data",), (), "_frequencies_at_gamma"),
    ("Interaction", ("set_phonon_data",), (), "_eigenvectors_at_gamma"),
    ("Interaction", ("set_interaction_strength",), ("_interaction_strength",), "_g_zero"),
    ("Interaction", ("run",), (), "_interaction_strength"),
    ("JointDos", ("set_grid_point",), ("_grid_point",), "_joint_dos"),
    ("JointDos", ("set_grid_point",), ("_grid_point",), "_triplets_at_q"),
    ("JointDos", ("set_grid_point",), ("_grid_point",), "_weights_at_q"),
    ("JointDos", ("run",), (), "_joint_dos"),
    ("JointDos", ("run",), (), "_g"),
    ("Isotope", ("init_dynamical_matrix",), ("_dm",), "_phonon_done"),
    ("Isotope", ("set_phonons",), ("_frequencies",), "_phonon_done"),
    ("Isotope", ("set_phonons",), ("_frequencies",), "_eigenvectors"),
    ("Isotope", ("set_grid_point",), ("_grid_point",), "_grid_points"),
    ("Isotope", ("run",), (), "_gamma"),
    ("ImagSelfEnergy", ("run",), (), "_imag_self_energy"),
    ("CollisionMatrix", ("run",), (), "_collision_matrix"),
    ("RealSelfEnergy", ("run",), (), "_real_self_energies"),
    ("ConductivityBase", ("temperatures",), ("_temperatures",), None),
]


def effects(F, f, tr, D, A):
    """Events in the trace of f that discard or renew D."""
    C = F.C
    out = []
    for i, (k, n, cs, e, x) in enumerate(tr):
        if n != D:
            continue
        if k == "write":
            out.append((i, k, cs, e, x))
        elif k == "mut" and x[0] == "call" and F.mutates(f, e):
            given = set()
            for t in list(x[2][2]) + [v for _, v in x[2][3]]:
                given |= {a for a, b in C.reads_of(t)}
            out.append((i, "refresh", cs, e, given))
        elif k == "sub":
            s = e.t[1]
            if s[0] == "slice" and all(y in (None, ("c", None)) for y in s[1:4]):
                out.append((i, k, cs, e, x))
    return out


def free(cs, D, C, dead):
    """Conditions that may keep the event from happening although there is an old D; earlier exits of the mutator do not count."""
    out = []
    for t, b in cs:
        if ("attr", SELF, D) in set(subterms(t)):
            continue
        if (t, b) in dead:
            continue
        out.append((t, b))
    return out


def covered(sets):
    """Do the condition sets cover every case (an unconditional one, or both ways of one test)?"""
    sets = [frozenset(s) for s in sets]
    work = set(sets)
    changed = True
    while changed:
        if frozenset() in work:
            return True
        changed = False
        for s in list(work):
            for t, b in s:
                rest = s - {(t, b)}
                for o in list(work):
                    if (t, not b) in o and o - {(t, not b)} <= rest and rest not in work:
                        work.add(rest)
                        changed = True
    return frozenset() in work


def exits(p, f):
    """Conditions under which the mutator has left before: nothing was changed then."""
    dead = set()
    for e in p.events(f):
        if e.kind in ("return", "raise") and e.conds:
            t, b = e.conds[-1]
            dead.add((t, not b))
    return dead


def run(R):
    p = pyx.project()
    setup(p)
    R.explanation = ("Methods are read as linear traces of reads and writes of the object's attributes, with calls on the object itself spliced in. "
                     "(1) a mutator of an input has to discard (store anew) or renew (call with the new value) each stored result of the table on every path that "
                     "stores the input, and to renew it only after the input is stored; (2) a result kept behind a test of its own presence (attribute, dictionary key, memo "
                     "decorator) has to be discarded by every public mutator of an attribute it was computed from; (3) a public method does not add to a stored result it does not start anew.")
    R.assumptions = ["a stored result is renewed by a call on it that is given the new input", "attributes are changed only through methods of the class"]
    by = {}
    for c in p.classes.values():
        if c.qual.startswith("phono3py.") and not c.qual.startswith("phono3py.cui.settings"):
            by.setdefault(c.name, []).append(c)
    facts = {}
    for cs in by.values():
        for c in cs:
            facts[c.qual] = Facts(p, c)
    for name, muts, A, D in OBL:
        if name not in by:
            R.undecided.append("class %s not found" % name)
            continue
        for c in by[name]:
            if D is None:
                temperatures(R, p, facts, c)
                continue
            obligations(R, p, facts[c.qual], c, muts, A, D)
    for cs in by.values():
        for c in cs:
            R.count("classes")
            lazy(R, p, facts[c.qual], c)
            adds(R, p, facts[c.qual], c)
    for f in p.own_funcs():
        memo(R, p, f, facts)
    for c in list(p.classes.values()):
        if c.qual.startswith("phono3py."):
            modes(R, p, c)
    R.require("obligations", 50)
    R.require("classes", 40)


def modes(R, p, c):
    """A note on how the stored phonons were computed changes only together with marking them as not computed."""
    st = p.attr_stores(c)
    if "_phonon_done" not in st:
        return
    for a in st:
        if not a.startswith("_done_"):
            continue
        for e in st[a]:
            if e.fn.name == "__init__" or e.fn.cls is not c:
                continue
            R.count("notes on stored phonons")
            mine = set(e.conds)
            for x in p.events(e.fn):
                if (x.kind == "store_sub" and x.t[0] == ("attr", ("self",), "_phonon_done") or
                        x.kind == "store_attr" and x.t[:2] == (("self",), "_phonon_done")) and \
                        all(q in mine or any(y == ("attr", ("self",), a) or y == e.t[2] for y in pyx.subterms(q[0])) for q in x.conds):
                    break
                if x.kind == "call" and x.t[1][0] == "attr" and x.t[1][1] == ("self",) and any(
                        y.kind in ("store_sub", "store_attr") and (y.t[0] == ("attr", ("self",), "_phonon_done") or y.t[:2] == (("self",), "_phonon_done"))
                        for g, _ in p.targets(x.t[1], e.fn)[0] for y in p.events(g)):
                    break
            else:
                R.report("kept", "%s.%s" % (c.qual, e.fn.name), a, "%s changes, and the phonons computed under the old value are not marked for computing anew" % a, e.line)


def setup(p):
    """Which arguments of the kernels are filled by them."""
    import cfront, kern, p05
    ks = kern.kernels()
    protos = {f.name: f for f in cfront.load("lapacke").funcs.values()}
    for t in cfront.load_wrappers(lapacke=True).values():
        protos.update({n: f for n, f in t.funcs.items()})
    mutate.KOUT = {k: {x.formals.index(o) for o in p05.outputs(x, protos)} for k, x in ks.items()}


def pick(C, name):
    for k in ("setter", "method"):
        if (name, k) in C.meths:
            return C.meths[(name, k)]
    return None


def stored(C, D):
    return any(k in ("write",) and n == D for f in C.meths.values() for k, n, *_ in C.trace(f))


def obligations(R, p, F, c, muts, A, D):
    C = F.C
    if not stored(C, D):
        R.undecided.append("%s: no attribute %s" % (c.qual, D))
        return
    for m in muts:
        f = pick(C, m)
        if f is None:
            R.undecided.append("%s: no mutator %s" % (c.qual, m))
            continue
        tr = C.trace(f)
        R.count("obligations")
        dead = exits(p, f)
        eff = effects(F, f, tr, D, A)
        ws = [(i, cs, e) for i, (k, n, cs, e, x) in enumerate(tr) if n in A and (k == "write" and x != ("c", None) or k == "sub" or k == "mut" and x[0] == "set")]
        if A and not ws:
            continue      # the mutator leaves the input alone
        if not eff:
            R.report("not-discarded", "%s.%s" % (c.qual, m), D, "%s is replaced here, and %s computed from the old value stays" % (", ".join(sorted({a for a in A if any(n == a for k, n, *_ in tr)})) or m, D), f.node.lineno)
            continue
        frees = [free(cs, D, C, dead) for i, k, cs, e, x in eff]
        need = [set()] if not A else [set(free(cs, D, C, dead)) for i, cs, e in ws]
        for nd in need:
            if not covered([[y for y in fr if y not in nd] for fr in frees if not any((t, not b) in nd for t, b in fr)]):
                R.report("not-always-discarded", "%s.%s" % (c.qual, m), D, "discarded or renewed only under %s" % "; ".join(sorted({("" if b else "not ") + pyx.show(t)[:80] for fr in frees for t, b in fr if (t, b) not in nd})[:3]), f.node.lineno)
                break
        else:
            last = {}
            for k_i, (k, n, cs, e, x) in enumerate(tr):
                if n in A and k == "write":
                    last[n] = k_i
            first = eff[0]
            if first[1] == "write":
                after = max([i for i, cs, e in ws if i < first[0]], default=None)
                if after is not None or not A:
                    for k, n, cs, e, x in tr[0 if after is None else after:first[0]]:
                        if k == "read" and n == D and not tested_only(e, D):
                            R.report("used-before-discarded", "%s.%s" % (c.qual, m), D, "the old %s is read here before it is discarded" % D, e.line)
                            break
            for i, k, cs, e, x in eff:
                if i != max(j for j, *_ in eff):
                    continue
                dep = x if k == "refresh" else ({a for a, b in C.reads_of(x)} if k == "write" and x is not None else set())
                late = [a for a in dep if a in last and last[a] > i and a != D]
                if late:
                    R.report("renewed-too-early", "%s.%s" % (c.qual, m), D, "made from %s before the new value is stored" % ", ".join(sorted(late)), e.line)


def temperatures(R, p, facts, base):
    """Arrays over temperatures are allocated anew, by every conductivity class, when the temperatures change."""
    for c in [base] + sorted(p.subclasses(base), key=lambda c: c.qual):
        F = facts.get(c.qual)
        if F is None:
            continue
        C = F.C
        f = pick(C, "temperatures")
        al = C.meth("_allocate_values", ("method",))
        if f is None or al is None or al.abstract:
            continue
        R.count("obligations")
        tr = C.trace(f)
        st = [i for i, (k, n, cs, e, x) in enumerate(tr) if k == "write" and n == "_temperatures"]
        mk = {n for k, n, *_ in C.trace(al) if k == "write"}
        own = {}
        for k, n, cs, e, x in C.trace(al):
            own.setdefault(id(e), set()).update(cs)
        dead = exits(p, f)
        done = {n for i, (k, n, cs, e, x) in enumerate(tr) if k == "write" and st and i > st[-1]
                and not [y for y in cs if y not in own.get(id(e), ()) and y not in tr[st[-1]][2] and y not in dead]}
        for n in sorted(mk - done):
            R.report("not-discarded", "%s.temperatures" % c.qual, n, "not allocated again after the temperatures are replaced", f.node.lineno)


def is_input(F, D):
    """D is itself given by the user: some public method stores one of its parameters in it."""
    C = F.C
    for (name, kd), f in C.meths.items():
        if name == "__init__" or name.startswith("_"):
            continue
        ps = {("param", q) for q in f.params if q != "self"}
        for k, n, cs, e, x in C.trace(f):
            if k == "write" and n == D and x is not None and any(pyx.alts(x)) and any(a in ps or a[0] == "call" and a[1] == ("ext", "copy.deepcopy") and a[2] and a[2][0] in ps for a in pyx.alts(x)):
                return True
            if k == "write" and n == D and x == ("dict", ()) and kd == "setter":
                return True
    return False


def present(cs, D):
    """Conditions among cs under which the stored result is absent."""
    me = ("attr", SELF, D)
    out = []
    for t, b in cs:
        while t[0] == "not" or t[0] == "op" and t[1] == "not":
            t, b = t[-1], not b
        if t == me and not b:
            out.append((t, b, None))
        elif t[0] == "op" and t[1] == "is" and t[2] == me and t[3] == ("c", None) and b:
            out.append((t, b, None))
        elif t[0] == "op" and t[1] == "is not" and t[2] == me and t[3] == ("c", None) and not b:
            out.append((t, b, None))
        elif t[0] == "op" and t[1] in ("in", "not in") and t[3] == me and b == (t[1] == "not in"):
            out.append((t, b, t[2]))
        elif t[0] == "call" and t[1] == ("builtin", "hasattr") and t[2] == (SELF, ("c", D)) and not b:
            out.append((t, b, None))
    return out


def lazy(R, p, F, c):
    C = F.C
    for (name, kd), f in sorted(C.meths.items()):
        if name == "__init__" or f.cls is not c:
            continue
        tr = C.trace(f)
        for i, (k, n, cs, e, x) in enumerate(tr):
            if k not in ("write", "sub") or x is None:
                continue
            pr = present(cs, n)
            if not pr or is_input(F, n):
                continue
            R.count("results kept behind a test of their presence")
            dep = {a for a, b in C.reads_of(x) if a != n}
            if k == "sub":
                dep -= {a for t, b, key in pr if key is not None for a, _ in C.reads_of(key)}
            # what a kernel or call fills it from
            dep |= {a for a, b in F.deps.get(n, ()) if a != n} if k == "write" else set()
            for (m, mk), g in sorted(C.meths.items()):
                if m.startswith("_") or g is f:
                    continue
                gt = C.trace(g)
                ch = sorted({y for kk, y, *_ in gt if kk == "write" and y in dep})
                if not ch:
                    continue
                if n in {y for kk, y, *_ in gt if kk == "write"} or any(kk == "mut" and y == n for kk, y, *_ in gt):
                    continue
                if all(settles(F, g, a) for a in ch):
                    continue
                R.report("kept-result", "%s.%s" % (c.qual, m), n, "%s is replaced here, and %s, computed from it once and kept, is not discarded" % (", ".join(ch), n), g.node.lineno)


def settles(F, g, a):
    """The store of a in g is itself a lazy one (the same value on first use) or a plain reset."""
    for k, n, cs, e, x in F.C.trace(g):
        if k == "write" and n == a and not present(cs, a):
            return False
    return True


def adds(R, p, F, c):
    C = F.C
    for (name, kd), f in sorted(C.meths.items()):
        if name.startswith("_") or kd != "method":
            continue
        tr = C.trace(f)
        made = set()
        for k, n, cs, e, x in tr:
            if k == "write":
                made.add(n)
            if k == "aug" or k == "sub" and e.kind == "aug_sub":
                if n in made or e.fn.cls is None or restarted(tr, n, e):
                    continue
                if not result(F, n):
                    continue
                R.report("added-to", "%s.%s" % (c.qual, name), n, "%s is added to without being started anew, so a second call goes on from the first" % n, e.line)


def restarted(tr, n, e):
    """The same entry is stored before in the trace (the one added to afterwards)."""
    if e.kind != "aug_sub":
        return False
    for k, m, cs, ev, x in tr:
        if ev is e:
            return False
        if k == "sub" and m == n and ev.kind == "store_sub" and ev.t[0] == e.t[0]:
            a, b = ev.t[1], e.t[1]
            if a == b or a[0] == "slice":
                return True
    return False


def result(F, n):
    """The attribute is made once, in the constructor only, and handed out."""
    C = F.C
    w = [f.name for f in C.meths.values() for k, m, cs, e, x in C.trace(f) if k == "write" and m == n]
    return bool(w) and set(w) == {"__init__"}


def memo(R, p, f, facts):
    for d in getattr(f.node, "decorator_list", ()):
        s = ast.unparse(d)
        if "lru_cache" in s or "cached_property" in s or s.split(".")[-1].split("(")[0] == "cache":
            R.count("memo decorators")
            F = facts.get(f.cls.qual) if f.cls is not None else None
            if F is None:
                continue
            rd = {n for k, n, *_ in F.C.trace(f) if k == "read"}
            for (m, mk), g in sorted(F.C.meths.items()):
                if m == "__init__" or g is f:
                    continue
                ch = sorted({n for k, n, *_ in F.C.trace(g) if k in ("write", "sub", "aug") and n in rd})
                if ch:
                    R.report("kept-result", f.qual, m, "the kept result is computed from %s, which %s replaces" % (", ".join(ch), m), f.node.lineno)
                    break
