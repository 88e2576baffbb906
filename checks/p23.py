"""P23: composition of scattering rates (abstract interpretation counting contributions in values, per class and requested options).

Every conductivity class is interpreted with isotope scattering, boundary scattering and the split into normal and umklapp parts requested or not. Values carry how often each contribution is in them; the rates used for conductivities and put on the diagonal of the collision matrix must hold every requested contribution equally often (exactly once on the diagonal) and no other. Attributes, arguments and file items named after a contribution must receive just that contribution, every class must fill its rates and velocities at each grid point, options are handed on unchanged from the API, and in C each triplet is added to exactly one of the two parts."""
import ast
import re
import contrib
import cfront
import pyx
import p05
import kern
from common import Broken
from contrib import Val, norm

NU = norm({"N": 1, "U": 1})
N, U, I, B = (("N", 1),), (("U", 1),), (("I", 1),), (("B", 1),)
KERNELS = {"detailed_imag_self_energy_with_g": {1: N, 2: U}, "imag_self_energy_with_g": {0: NU},
           "pp_collision": {0: "pair"}, "pp_collision_with_sigma": {0: "pair"},
           "thm_isotope_strength": {0: I}, "isotope_strength": {0: I}}
NAMED = {"gamma": NU, "gamma_N": N, "gamma_U": U, "gamma_isotope": I, "gamma_iso": I}
TEXT = {"N": "normal ph-ph", "U": "umklapp ph-ph", "I": "isotope", "B": "boundary", "?": "too many cases"}
HAND = ("is_isotope", "mass_variances", "boundary_mfp", "is_N_U")


def attr_of(t):
    """Attribute of self a returned term stands for."""
    for x in pyx.alts(t):
        if x[0] == "attr" and x[1] == ("self",):
            return x[2]
    return None


class P23:
    def __init__(self, R):
        self.R = R
        self.p = pyx.project()
        p = self.p
        by = {c.name: c for c in p.classes.values() if c.qual.startswith("phono3py.")}
        try:
            self.base, self.ise, self.iso = by["ConductivityBase"], by["ImagSelfEnergy"], by["Isotope"]
        except KeyError as x:
            raise Broken("class %s not found" % x)
        self.tab = {}
        self.tab[self.base.qual] = {self.getter(self.base, "gamma"): NU, self.getter(self.base, "gamma_isotope"): I,
                                    self.getter(self.base, "boundary_mfp"): B}
        rta = [c for c in p.subclasses(self.base) if "get_gamma_N_U" in c.methods]
        if not rta:
            raise Broken("get_gamma_N_U not found")
        for r in p.returns(rta[0].methods["get_gamma_N_U"]):
            if r.t and r.t[0] == "tuple" and len(r.t[1]) == 2:
                a, b = map(attr_of, r.t[1])
                self.tab[self.base.qual].update({a: N, b: U})
        self.tab[self.ise.qual] = {}
        for name, sig in (("imag_self_energy", (NU,)), ("get_imag_self_energy_N_and_U", (N, U))):
            m = p.member(self.ise, name)
            if m is None:
                raise Broken("ImagSelfEnergy.%s not found" % name)
            for r in p.returns(m[1]):
                ts = r.t[1] if r.t[0] == "tuple" else (r.t,)
                if len(ts) == len(sig):
                    for t, s in zip(ts, sig):
                        for x in [t] + [y for y in pyx.subterms(t)]:
                            if x[0] == "attr" and x[1] == ("self",) and p.member(self.ise, x[2]) is None and x[2] in p.attr_stores(self.ise):
                                if any(e.t[2] if e.kind == "store_attr" else None for e in p.attr_stores(self.ise)[x[2]]) and \
                                        re.search(r"self_energy|ise|gamma", x[2]):
                                    self.tab[self.ise.qual].setdefault(x[2], s)
        self.tab[self.iso.qual] = {self.getter(self.iso, "gamma"): I}
        self.flag = {}
        for prm in ("is_isotope", "is_N_U", "boundary_mfp"):
            for c in p.subclasses(self.base):
                for a, evs in p.attr_stores(c).items():
                    for e in evs:
                        if e.kind == "store_attr" and e.t[2] == ("param", prm):
                            self.flag[a] = prm
        for f in ("is_isotope", "is_N_U", "boundary_mfp"):
            if f not in self.flag.values():
                raise Broken("no attribute keeps the option %s" % f)
        self.read = {}
        for prop in ("gamma", "gamma_isotope"):
            s = p.setter(self.base, prop)
            for e in p.events(s) if s else ():
                if e.kind == "store_attr" and e.t[2] == ("c", True):
                    self.read[e.t[1]] = prop
        kk = kern.kernels()
        have = {k.name for k in (kk.values() if isinstance(kk, dict) else kk)}
        for k in KERNELS:
            if k not in have:
                raise Broken("kernel %s not found" % k)
        self.seen = set()
        self.sites = {}
        self._seed = {}

    def getter(self, c, name):
        m = self.p.member(c, name)
        if m is None or m[0] != "property":
            raise Broken("%s.%s is not a property" % (c.name, name))
        for r in self.p.returns(m[1]):
            a = attr_of(r.t)
            if a:
                return a
        raise Broken("%s.%s returns no attribute" % (c.name, name))

    def seeds(self, c, a):
        if c.qual not in self._seed:
            t = None
            for k in self.p.mro(c):
                if k.qual in self.tab:
                    t = self.tab[k.qual]
            if t is None and any(c.qual == b.qual for k in self.p.subclasses(self.base) for b in self.p.mro(k)):
                t = self.tab[self.base.qual]       # mix-ins
            self._seed[c.qual] = t
        t = self._seed[c.qual]
        return t if a is None else (t or {}).get(a)

    # ------------------------------------------------------------------
    def interp(self, iso, bnd, nu, read=False):
        p23 = self

        def flags(c, a):
            if c is None or p23.seeds(c, None) is None:
                return None
            if p23.seeds(c, None) is not p23.tab[p23.base.qual]:
                return None
            f = p23.flag.get(a)
            if f == "is_isotope":
                return iso
            if f == "is_N_U":
                return nu
            if f == "boundary_mfp":
                return bnd
            if a in p23.read:
                return read if p23.read[a] == "gamma" else False
            s = p23.seeds(c, a)
            if s == I and not iso:
                return False
            if s in (I, NU) or s in (N, U) and nu:
                return True
            return None

        want = {"N", "U"} | ({"I"} if iso else set()) | ({"B"} if bnd else set())
        ctx = "isotope scattering %s, boundary scattering %s" % ("requested" if iso else "not requested", "requested" if bnd else "not requested")

        def check_sum(where, what, v, node, exact=False):
            for a in v.alts:
                d = dict(a)
                if not d:
                    continue
                if "?" in d:
                    p23.R.undecided.append("%s: %s has too many cases" % (where, what))
                    continue
                lack = sorted(x for x in want if not d.get(x))
                extra = sorted(x for x in d if x not in want)
                k = {d[x] for x in want if d.get(x)}
                if lack:
                    p23.bad("contribution-missing", where, what, "%s lacks %s scattering (with %s)" % (what, " and ".join(TEXT[x] for x in lack), ctx), node)
                if extra:
                    p23.bad("contribution-not-requested", where, what, "%s contains %s scattering, which was not requested (with %s)" % (
                        what, " and ".join(TEXT[x] for x in extra), ctx), node)
                if not lack and (len(k) > 1 or exact and k != {1}):
                    p23.bad("contribution-repeated", where, what, "%s contains its contributions unequally often: %s (with %s)" % (
                        what, ", ".join("%s %d" % (TEXT[x], d[x]) for x in sorted(d)), ctx), node)

        def hook(kind, it, fr, st, node, data):
            where = "%s %s" % (fr.f.file, fr.f.short)
            if kind == "store":
                c, attr, v, aug = data
                st.must.add(attr)
                rates = p23.seeds(c, attr) is not None and p23.flag.get(attr) is None
                matrix = re.search("collision_matrix", attr) and not attr.startswith("_is")
                if aug in ("Add", "Sub") and rates:
                    st.must.add("+" + attr)
                whole = it.stack and it.stack[0].endswith(".set_kappa_at_sigmas")
                if matrix and aug in ("Add", "Sub") and v.alts != contrib.EMPTY:
                    st.must.add("#added")
                elif matrix and aug in ("Mult", "Div") and whole and "#added" not in st.must:
                    p23.bad("scaled-before-addition", where, "self." + attr, "self.%s is scaled before the rates are added to its diagonal" % attr, node)
                elif rates and whole and "#added" in st.must and not it.loops_second():
                    p23.bad("changed-after-addition", where, "self." + attr, "self.%s is changed after it was added to the collision matrix" % attr, node)
                p23.sites[fr.f.qual, attr] = p23.sites.get((fr.f.qual, attr), 0) + 1
                s = p23.seeds(c, attr)
                if s is not None and p23.flag.get(attr) is None:
                    for a in v.alts:
                        if a and a != s and "?" not in dict(a):
                            p23.bad("other-contribution", where, attr, "self.%s holds the %s rates but is given %s" % (
                                attr, p23.text(s), p23.text(a)), node)
                elif re.search("kappa", attr) and not attr.startswith("_is"):
                    check_sum(where, "self." + attr, v, node)
                elif re.search("collision_matrix", attr) and not attr.startswith("_is") and aug in ("Add", "Sub"):
                    check_sum(where, "self." + attr, v, node, exact=True)
            elif kind == "call":
                g, d = data
                for n, v in d.items():
                    s = NAMED.get(n)
                    if s is None or not isinstance(v, Val) or v.kind == "obj":
                        continue
                    for a in v.flat().alts:
                        if a and a != s and "?" not in dict(a):
                            p23.bad("other-contribution", where, "%s of %s" % (n, g.name), "%s of %s is given %s instead of %s" % (
                                n, g.name, p23.text(a), p23.text(s)), node)
                    p23.R.count("arguments named after a contribution")
        keyed = {k: v for k, v in NAMED.items()}
        it = contrib.Interp(self.p, self.seeds, flags, KERNELS, hook, keyed)
        it.opaque = lambda a: "collision_matrix" in a
        return it, check_sum

    def text(self, a):
        d = dict(a)
        if d.get("N") and d.get("N") == d.get("U"):
            k = d.pop("N"); d.pop("U"); d["ph-ph"] = k
        return " + ".join(("%d x " % v if v != 1 else "") + TEXT.get(k, k) for k, v in sorted(d.items())) or "nothing"

    def bad(self, rule, where, what, msg, node):
        key = (rule, where, what)
        if key in self.seen:
            return
        self.seen.add(key)
        self.R.report(rule, where, what, msg, getattr(node, "lineno", None))

    def concrete(self):
        p = self.p
        out = [c for c in p.subclasses(self.base) if all(x.qual == c.qual for x in p.subclasses(c))]
        if len(out) < 3:
            raise Broken("conductivity classes not found")
        return out

    # ------------------------------------------------------------------
    def run(self):
        p, R = self.p, self.R
        for c in self.concrete():
            R.count("conductivity classes")
            m = p.member(c, "set_kappa_at_sigmas")
            r = p.member(c, "_run_at_grid_point")
            if m is None:
                raise Broken("%s has no set_kappa_at_sigmas" % c.name)
            if r is None:
                raise Broken("%s has no _run_at_grid_point" % c.name)
            for iso in (True, False):
                for bnd in (True, False):
                    for nu in (True, False):
                        it, check = self.interp(iso, bnd, nu)
                        v, st, ok = it.run(m[1], c)
                        R.count("cases of options interpreted")
                        for (q, a), w in [(k, x) for k, x in st.attrs.items() if len(k) == 2]:
                            if re.search("collision_matrix$", a) and q == c.qual:
                                where = "%s %s.%s" % (m[1].file, c.name, m[1].name)
                                check(where, "self." + a, w.flat(), m[1].node, exact=True)
                                if () in w.flat().alts:
                                    self.bad("not-added", where, "self." + a, "on some path of %s no rates are added to the diagonal of self.%s" % (m[1].name, a), m[1].node)
                        kap = [a for (k, a) in self.sites if "kappa" in a]
                        for read in (False, True):
                            it, check = self.interp(iso, bnd, nu, read)
                            v, st, ok = it.run(r[1], c)
                            R.count("cases of options interpreted")
                            self.filled(c, r[1], st, iso, bnd, nu, read)
                        if iso == bnd:
                            self.methods(c, iso, bnd, nu)
        self.kappa_sites()
        self.modules()
        self.options()
        self.handed()
        self.parts_c()
        self.alike()

    def filled(self, c, f, st, iso, bnd, nu, read):
        t = {v: k for k, v in self.tab[self.base.qual].items()}
        where = "%s %s.%s" % (f.file, c.name, f.name)
        need = []
        if not read:
            need.append((t[NU], "ph-ph"))
            if nu and any("get_gamma_N_U" in k.methods for k in self.p.mro(c)):
                need += [(t[N], "normal"), (t[U], "umklapp")]
        if iso:
            need.append((t[I], "isotope"))
        for a, what in need:
            self.R.count("rates to be filled at a grid point")
            if a not in st.must:
                self.bad("not-filled", where, a, "%s does not store the %s rates (self.%s) at every grid point of a %s although requested" % (
                    f.name, what, a, c.name), f.node)
        if bnd:
            self.R.count("rates to be filled at a grid point")
            for a in self.velocity():
                if a not in st.must:
                    self.bad("not-filled", where, a, "self.%s, which boundary scattering is computed from, is not stored at every grid point of a %s" % (a, c.name), f.node)

    def velocity(self):
        """Attributes indexed by the grid point in functions that divide by the mean free path."""
        if not hasattr(self, "_vel"):
            b = self.getter(self.base, "boundary_mfp")
            out = set()
            for f in self.p.own_funcs():
                if f.cls is None or self.seeds(f.cls, None) is not self.tab[self.base.qual]:
                    continue
                for e in self.p.events(f):
                    if e.kind in ("store_sub", "return", "store_name", "aug_sub", "aug_name"):
                        for t in ([e.t] if e.kind == "return" else e.t[1:]):
                            if not isinstance(t, tuple) or not t:
                                continue
                            for x in [t] + list(pyx.subterms(t)):
                                if x[0] == "op" and len(x) >= 4 and x[1] == "/" and any(y == ("attr", ("self",), b) for y in pyx.subterms(x[3]) ) :
                                    for y in pyx.subterms(x):
                                        if y[0] == "sub" and y[1][0] == "attr" and y[1][1] == ("self",):
                                            out.add(y[1][2])
            self._vel = out
            if not out:
                self.R.undecided.append("velocities used for boundary scattering not recognised")
        return self._vel

    def methods(self, c, iso, bnd, nu):
        """Every other method on its own."""
        done = set()
        for k in self.p.mro(c):
            for f in k.methods.values():
                if f.name in done or f.abstract or f.name == "__init__":
                    continue
                done.add(f.name)
                it, check = self.interp(iso, bnd, nu)
                v, st, ok = it.run(f, c)
                t = {v: k for k, v in self.tab[self.base.qual].items()}
                if iso and "+" + t[NU] in st.must and "+" + t[I] not in st.must:
                    self.bad("not-expanded", "%s %s" % (f.file, f.short), t[I], "%s spreads self.%s over grid points but not self.%s" % (f.name, t[NU], t[I]), f.node)
                self.R.count("methods interpreted")

    def kappa_sites(self):
        n = len([1 for (q, a) in self.sites if "kappa" in a])
        self.R.count("stores of conductivities", n)

    def modules(self):
        """Self-energy and isotope classes, functions of the conductivity modules."""
        p = self.p
        for base in (self.ise, self.iso):
            for c in p.subclasses(base):
                for k in p.mro(c):
                    for f in k.methods.values():
                        if f.abstract or f.name == "__init__":
                            continue
                        for nu in (True, False):
                            it, check = self.interp(True, True, nu)
                            it.run(f, c)
                        self.R.count("methods interpreted")
        for f in p.own_funcs():
            top = f.module.name
            if f.outer is None and (f.cls is None or f.is_static or self.seeds(f.cls, None) is None) and (
                    ".conductivity." in top or top.endswith(("imag_self_energy", "file_IO"))):
                for nu in (True, False):
                    it, check = self.interp(True, True, nu)
                    args = {}
                    for n in f.params:
                        if NAMED.get(n) is not None:
                            args[n] = Val(frozenset([NAMED[n]]))
                        else:
                            ts = [x for x in p.typeof(("param", n), f) if x[0] == "inst" and x[1] in p.classes]
                            cs = [p.classes[x[1]] for x in ts if self.seeds(p.classes[x[1]], None) is not None]
                            if cs:
                                sub = [x for x in self.concrete() if any(k.qual == cs[0].qual for k in p.mro(x))]
                                args[n] = Val(kind="obj", items=sub[0] if sub else cs[0])
                    it.run(f, f.cls if f.cls is not None and not f.is_static else None, args)
                self.R.count("functions interpreted")

    # ------------------------------------------------------------------
    def options(self):
        """What the object keeps as request agrees with what it was given."""
        p = self.p
        f = p.member(self.base, "__init__")[1]
        for attr, prm in self.flag.items():
            evs = [e for c in [self.base] for e in p.attr_stores(c).get(attr, ()) if e.kind == "store_attr" and e.fn.name == "__init__"]
            if not evs or prm == "is_N_U":
                continue
            for iso in (True, False):
                for mv in (True, False):
                    val = None
                    env = {"is_isotope": iso, "mass_variances": mv, "boundary_mfp": iso}
                    known = True
                    for e in evs:
                        cs = [(self.holds(c, env), b) for c, b in e.conds]
                        if any(x is None for x, _ in cs):
                            known = False
                            break
                        if all(x == b for x, b in cs):
                            val = self.holds(e.t[2], env)
                    want = (iso or mv) if prm == "is_isotope" else iso
                    self.R.count("cases of kept requests")
                    if known and val is not None and val != want:
                        self.bad("request-lost", "%s %s" % (f.file, f.short), attr, "self.%s is %s when %s" % (
                            attr, "set" if val else "not set", ", ".join("%s is %sgiven" % (k, "" if v else "not ") for k, v in sorted(env.items())
                                                                        if k in ("is_isotope", "mass_variances") or k == prm)), evs[0].node)
                    elif not known or val is None:
                        self.R.undecided.append("request kept in %s" % attr)

    def holds(self, t, env):
        if t[0] == "param":
            return env.get(t[1])
        if t[0] == "c":
            return bool(t[1])
        if t[0] in ("not",) or t[0] == "op" and t[1] == "not":
            x = self.holds(t[-1], env)
            return None if x is None else not x
        if t[0] == "op" and t[1] in ("or", "and") and len(t) >= 4:
            vs = [self.holds(x, env) for x in t[2:]]
            if t[1] == "or":
                return True if True in vs else None if None in vs else False
            return False if False in vs else None if None in vs else True
        if t[0] == "op" and t[1] in ("is", "is not", "==", "!=") and t[3] == ("c", None):
            x = self.holds(t[2], env)
            return None if x is None else (x if t[1] in ("is not", "!=") else not x)
        if t[0] == "call" and t[1] == ("builtin", "bool") and t[2]:
            return self.holds(t[2][0], env)
        return None

    def handed(self):
        """Options go on unchanged from caller to callee wherever both have them."""
        p, R = self.p, self.R
        for f in p.own_funcs():
            mine = {n for n in f.params + f.kwonly if n in HAND}
            if not mine:
                continue
            for e in p.events(f):
                if e.kind != "call":
                    continue
                for g, ctor in p.targets(e.t[1], f)[0]:
                    if g.qual == f.qual or not g.module.name.startswith("phono3py"):
                        continue
                    common = mine & set(g.params + g.kwonly)
                    if not common:
                        continue
                    d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                    if not exact:
                        continue
                    for n in sorted(common):
                        R.count("requests handed on")
                        where = "%s %s" % (f.file, f.short)
                        v = d.get(n)
                        if not isinstance(v, tuple):
                            self.bad("request-not-handed-on", where, "%s to %s" % (n, g.short), "%s is not handed on to %s, which leaves it at its default" % (n, g.short), e.node)
                            continue
                        leaves = {x for x in pyx.subterms(v) if x[0] == "param"} | ({v} if v[0] == "param" else set())
                        if ("param", n) not in leaves:
                            self.bad("request-not-handed-on", where, "%s to %s" % (n, g.short), "%s of %s is given %s instead of %s" % (n, g.short, pyx.show(v)[:60], n), e.node)
                        elif n != "mass_variances" and any(x[1] in HAND and x[1] != n for x in leaves) and not (n == "is_isotope"):
                            self.bad("request-not-handed-on", where, "%s to %s" % (n, g.short), "%s of %s is given %s" % (n, g.short, pyx.show(v)[:60]), e.node)

    # ------------------------------------------------------------------ C
    def parts_c(self):
        R = self.R
        prog = cfront.load("default")
        calls = 0
        for f in prog.all_funcs():
            if f.body is None:
                continue
            marks = set()
            for n in f.body.walk():
                if n.k == "CallExpr" and cfront.callee(n) == "tpl_is_N":
                    calls += 1
            if not any(n.k == "CallExpr" and cfront.callee(n) == "tpl_is_N" for n in f.body.walk()):
                continue
            for n in f.body.walk():
                if n.k == "BinaryOperator" and n.op == "=" and any(x.k == "CallExpr" and cfront.callee(x) == "tpl_is_N" for x in n.kids[1].walk()):
                    marks.add(self.croot(n.kids[0]))
                if n.k == "VarDecl" and n.kids and any(x.k == "CallExpr" and cfront.callee(x) == "tpl_is_N" for x in n.walk()):
                    marks.add(n.name)
            used = 0
            for n in f.body.walk():
                if n.k != "IfStmt":
                    continue
                cond = n.kids[0]
                refs = {x.ref for x in cond.walk() if x.k == "DeclRefExpr"}
                if not (refs & marks) and not any(x.k == "CallExpr" and cfront.callee(x) == "tpl_is_N" for x in cond.walk()):
                    continue
                used += 1
                R.count("branches on normal or umklapp in C")
                a = self.adds(n.kids[1])
                b = self.adds(n.kids[2]) if len(n.kids) > 2 else []
                if len(n.kids) <= 2 and self.leaves(n.kids[1]):       # the rest of the block is the other branch
                    for c in f.body.walk():
                        if c.k == "CompoundStmt" and n in c.kids:
                            for x in c.kids[c.kids.index(n) + 1:]:
                                b = b + self.adds(x)
                elif len(n.kids) <= 2:                                  # or another test of the same mark beside it
                    for c in f.body.walk():
                        if c.k == "CompoundStmt" and n in c.kids:
                            for x in c.kids:
                                if x is not n and x.k == "IfStmt" and len(x.kids) <= 2 and {y.ref for y in x.kids[0].walk() if y.k == "DeclRefExpr"} & marks:
                                    b = b + self.adds(x.kids[1])
                if sorted(x for _, x in a) != sorted(x for _, x in b):
                    self.bad("part-lost", "%s %s" % (f.file, f.name), "branch on tpl_is_N", "the normal and umklapp branches add different amounts: %s against %s" % (
                        [x for _, x in a], [x for _, x in b]), n)
                elif {t for t, _ in a} & {t for t, _ in b}:
                    self.bad("part-lost", "%s %s" % (f.file, f.name), "branch on tpl_is_N", "normal and umklapp parts are added to the same element %s" % a[0][0], n)
        R.count("calls of tpl_is_N", calls)
        if not calls:
            raise Broken("tpl_is_N is not called")

    def alike(self):
        """In a function changing the two parts in place, both are changed in the same way."""
        for f in self.p.own_funcs():
            parts = {}
            for n in ast.walk(f.node):
                if not isinstance(n, ast.AugAssign):
                    continue
                t = n.target
                while isinstance(t, ast.Subscript):
                    t = t.value
                name = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ""
                m = re.search(r"_([NU])(?:$|_)", name)
                if m:
                    stem = name[:m.start(1)] + "*" + name[m.end(1):]
                    parts.setdefault(stem, {"N": [], "U": []})[m.group(1)].append(
                        (type(n.op).__name__ + " " + re.sub(r"_[NU]\b", "_*", ast.unparse(n.value)), n))
            for stem, d in parts.items():
                self.R.count("parts changed in place")
                a, b = (sorted(x for x, _ in d[k]) for k in "NU")
                if a != b:
                    n = (d["N"] or d["U"])[0][1]
                    self.bad("part-lost", "%s %s" % (f.file, f.short), stem.replace("*", "N/U"), "the normal and umklapp parts are changed differently: %s against %s" % (a, b), n)

    @staticmethod
    def leaves(n):
        while n.k == "CompoundStmt" and n.kids:
            n = n.kids[-1]
        return n.k in ("ContinueStmt", "ReturnStmt")

    @staticmethod
    def croot(n):
        for x in n.walk():
            if x.k == "DeclRefExpr":
                return x.ref
        return None

    def adds(self, n, when=""):
        """(target, amount) of the additions to floating-point values, with the conditions inside the branch."""
        out = []
        for x in [n]:
            if x.k == "CompoundAssignOperator" and x.op in ("+=", "-=") and "double" in (x.kids[0].t or ""):
                out.append((cfront.src(x.kids[0]), when + x.op + cfront.src(x.kids[1])))
            elif x.k == "BinaryOperator" and x.op == "=" and "double" in (x.kids[0].t or ""):
                l, r = cfront.src(x.kids[0]), cfront.src(x.kids[1])
                out.append((l, when + "=" + r.replace(l, "@")))
            elif x.k == "IfStmt":
                c = cfront.src(x.kids[0])
                for i, y in enumerate(x.kids[1:]):
                    out += self.adds(y, when + ("if " if i == 0 else "if not ") + c + ": ")
            else:
                for y in x.kids:
                    out += self.adds(y, when)
        return out


def run(R):
    c = P23(R)
    R.explanation = ("contributions in values counted by abstract interpretation of every conductivity class, of the self-energy and isotope "
                     "classes and of the functions that write and read rates, for each combination of requested options")
    R.assumptions = ["kernels return the rates they are named after (table of output positions)", "a value below the frequency cutoff may stay without rates"]
    c.run()
    R.require("conductivity classes", 3)
    R.require("stores of conductivities", 5)
    R.require("arguments named after a contribution", 5)
    R.require("branches on normal or umklapp in C", 2)
