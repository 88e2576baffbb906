"""P15: prerequisites are checked, on the object used, before work starts (nullness analysis of the API classes).

For every public operation of the API classes a linear sequence of events is built with the methods and properties of self spliced in and parameters replaced by arguments. Attributes that a constructor can leave None are prerequisites. Each use of one (attribute, item, length, membership, iteration, argument of a function that needs it) must be entailed non-None by the conditions it stands under, the guards that raised before it, or the values stored before it. Reported: uses that are not; uses and lookups under a condition that says the object is missing, or absent from the dictionary, anywhere in the package; guards that end without an error; guards after work; messages that name another prerequisite; guards of comparisons quantified over all elements instead of any."""
import ast
import re
import pyx
import p14
import kern
from common import Broken
from pyx import subterms, show

SELF = ("self",)
NONE = ("c", None)


# -- conditions as formulas over nullness atoms -------------------------------------------------

def formula(t, want):
    """Formula of a condition: ("none", term) atoms, and/or/not; None when it says nothing."""
    if not want:
        f = formula(t, True)
        return ("not", f)
    if t[0] == "not":
        return ("not", formula(t[1], True))
    if t[0] == "op":
        if t[1] == "not":
            return ("not", formula(t[2], True))
        if t[1] in ("and", "or"):
            return (t[1],) + tuple(formula(x, True) for x in t[2:] if isinstance(x, tuple))
        if t[1] in ("is", "==") and NONE in t[2:4]:
            return ("none", t[2] if t[3] == NONE else t[3])
        if t[1] in ("is not", "!=") and NONE in t[2:4]:
            return ("not", ("none", t[2] if t[3] == NONE else t[3]))
    return ("true", t)


def value(f, env):
    """Three-valued value of a formula."""
    if f[0] in ("none", "true"):
        v = env.get(f)
        if v is None and f[0] == "true":
            # a missing object is false
            if env.get(("none", f[1])) is True:
                return False
            # an existing one need not be true
        if v is None and f[0] == "none" and env.get(("true", f[1])) is True:
            return False
        return v
    if f[0] == "not":
        v = value(f[1], env)
        return None if v is None else not v
    vs = [value(x, env) for x in f[1:]]
    if f[0] == "and":
        return False if False in vs else None if None in vs else True
    return True if True in vs else None if None in vs else False


def force(f, want, env):
    """Unit consequences of f == want; False on contradiction."""
    v = value(f, env)
    if v is not None:
        return v == want
    if f[0] in ("none", "true"):
        env[f] = want
        return True
    if f[0] == "not":
        return force(f[1], not want, env)
    strict = (f[0] == "and") == want
    if strict:
        return all(force(x, want, env) for x in f[1:])
    open_ = [x for x in f[1:] if value(x, env) is None]
    if len(open_) == 1:
        return force(open_[0], want, env)
    return True


def refuted(fs, env):
    """Unit propagation finds that the formulas cannot hold together."""
    env = dict(env)
    for _ in range(4):
        n = len(env)
        for f in fs:
            if not force(f, True, env):
                return True
        if len(env) == n:
            return False
    return False


def atoms(f):
    if f[0] in ("none", "true"):
        yield f
    else:
        for x in f[1:]:
            yield from atoms(x)


# -- events with methods of self spliced in -----------------------------------------------------

class Step:
    __slots__ = ("e", "kind", "t", "extra", "conds", "fn", "top", "loops")

    def __init__(self, e, t, extra, conds, fn, top, loops):
        self.e, self.kind, self.t, self.extra, self.conds, self.fn, self.top, self.loops = e, e.kind, t, extra, conds, fn, top, loops


class Null:
    def __init__(self, p):
        self.p = p
        self.need = {}
        self.cls = {}

    def of(self, c):
        if c.qual not in self.cls:
            self.cls[c.qual] = p14.Cls(self.p, c, None)
        return self.cls[c.qual]

    def flat(self, C, f, sub=None, conds=(), stack=(), loops=0, lhs=()):
        """Steps of f with calls on self expanded."""
        key = f.qual + p14.kind(self.p, f)
        if key in stack or len(stack) > 7:
            return
        st = stack + (key,)
        S = lambda t: p14.subst(t, sub) if sub and isinstance(t, tuple) else t
        for e in self.p.events(f):
            cs = conds + tuple((S(t), b) for t, b in e.conds)
            t, x = S(e.t), S(e.extra)
            lp = loops + len(e.loops)
            top = not stack
            if e.kind == "load_attr" and e.t[1] == SELF:
                g = C.meth(e.t[2], ("getter",))
                if g is not None:
                    yield from self.flat(C, g, {}, cs, st, lp)
                    continue
            elif e.kind == "store_attr" and e.t[0] == SELF:
                g = C.meth(e.t[1], ("setter",))
                if g is not None:
                    pn = [q for q in g.params if q != "self"]
                    yield from self.flat(C, g, {("param", pn[-1]): t[2]} if pn else {}, cs, st, lp)
                    continue
            elif e.kind == "call" and e.t[1][0] == "attr" and e.t[1][1] == SELF:
                g = C.meth(e.t[1][2], ("method",))
                if g is not None:
                    d, errs, exact = self.p.bind(g, t[2], t[3], False)
                    d = dict(d)
                    for n in g.params + g.kwonly:
                        if n not in d and n != "self":
                            v = default(g, n)
                            if v is not None:
                                d[n] = v
                    yield Step(e, t, x, cs, f, top, lp)
                    yield from self.flat(C, g, {("param", k): v for k, v in d.items()}, cs, st, lp)
                    continue
            yield Step(e, t, x, cs, f, top, lp)

    # -- prerequisites --
    def prerequisites(self, C):
        """Attributes that the constructor can leave None."""
        init = C.meth("__init__", ("method",))
        if init is None:
            return set()
        none, sure = set(), {}
        for s in self.flat(C, init):
            if s.kind == "store_attr" and s.t[0] == SELF:
                n, v = s.t[1], s.t[2]
                if v == NONE and not [c for c in s.conds]:
                    none.add(n)
                    sure[n] = []
                elif v == NONE:
                    none.add(n)
                elif not self.maybe_none(v, init):
                    sure.setdefault(n, []).append(s.conds)
        return {n for n in none if not covers(sure.get(n, []))}

    def maybe_none(self, v, f):
        alts = set(pyx.alts(v))
        return NONE in alts or any(a[0] == "param" and none_default(f, a[1]) for a in alts)

    def implied(self, C, pre):
        """n -> attributes that are set whenever n is."""
        out = {n: set() for n in pre}
        seen = {}
        for (name, kd), f in C.meths.items():
            if kd == "getter":
                continue
            est, stored = [], set()
            for s in self.flat(C, f):
                if s.kind == "raise" and not s.loops:
                    est.append(negate(s.conds))
                if s.kind == "store_attr" and s.t[0] == SELF and s.t[1] in pre:
                    n = s.t[1]
                    if s.t[2] != NONE and s.top:
                        got = {m for m in pre if m != n and (m in stored or self.entails(C, pre, s.conds, est, {}, m))}
                        seen[n] = got if n not in seen else seen[n] & got
                    if s.t[2] == NONE:
                        stored.discard(n)
                    elif not s.conds and not s.loops and not self.maybe_none(s.t[2], f):
                        stored.add(n)
        for n, got in seen.items():
            # B may be taken away again: then A has to go with it
            for m in got:
                if all(self.takes_along(C, f, m, n) for (name, kd), f in C.meths.items() if name != "__init__"):
                    out[n].add(m)
        return out

    def takes_along(self, C, f, m, n):
        hit = [s for s in self.flat(C, f) if s.kind == "store_attr" and s.t[0] == SELF and s.t[1] == m and self.maybe_none(s.t[2], f)]
        if not hit:
            return True
        return any(s.kind == "store_attr" and s.t[0] == SELF and s.t[1] == n and s.t[2] == NONE for s in self.flat(C, f))

    def getter_facts(self, C, pre):
        """Property -> attributes that are set whenever it is not None."""
        out = {}
        for (name, kd), g in C.meths.items():
            if kd != "getter":
                continue
            sets = []
            for r in self.p.returns(g):
                if r.t == NONE:
                    continue
                vals = {a[2] for a in pyx.alts(r.t) if a[0] == "attr" and a[1] == SELF and a[2] in pre}
                al = [a for a in pyx.alts(r.t)]
                got = set(vals) if len(al) == len(vals) == 1 else set()
                for m in pre:
                    if refuted([formula(t, b) for t, b in r.conds], {("none", ("attr", SELF, m)): True}):
                        got.add(m)
                sets.append(got)
            out[name] = set.intersection(*sets) if sets else set()
        return out

    def expand(self, C, fs, props, impl):
        """Consequences of nullness facts: property set => attribute set, attribute set => others set."""
        more = []
        for f in fs:
            for a in atoms(f):
                t = a[1]
                if a[0] == "none" and t[0] == "attr" and t[1] == SELF:
                    for m in props.get(t[2], ()):
                        more.append(("or", a, ("not", ("none", ("attr", SELF, m)))))
                    for m in impl.get(t[2], ()):
                        more.append(("or", a, ("not", ("none", ("attr", SELF, m)))))
                if a[0] == "true":
                    r = self.answer(C, t)
                    if r is not None:
                        more.append(("or", ("not", a), formula(r, True)))
                        more.append(("or", a, formula(r, False)))
                    # f(X) true with f returning False for None; "k" in X; len(X)
                    for s in missing_false(self.p, t):
                        more.append(("or", ("not", a), ("not", ("none", s))))
                    for m in props.get(t[2], ()) if t[0] == "attr" and t[1] == SELF else ():
                        more.append(("or", ("not", a), ("not", ("none", ("attr", SELF, m)))))
        return more

    def answer(self, C, t):
        """Value of a test made by a method or property of self with one return."""
        d = {}
        if t[0] == "call" and t[1][0] == "attr" and t[1][1] == SELF:
            g = C.meth(t[1][2], ("method",))
            if g is not None:
                d = self.p.bind(g, t[2], t[3], False)[0]
        elif t[0] == "attr" and t[1] == SELF:
            g = C.meth(t[2], ("getter",))
        else:
            return None
        if g is None:
            return None
        rs = list(self.p.returns(g))
        if len(rs) != 1 or rs[0].conds or rs[0].t[0] not in ("op", "not"):
            return None
        return p14.subst(rs[0].t, {("param", k): v for k, v in d.items()})

    def checks(self, s):
        """What holds after a call of a function that raises under conditions on its arguments."""
        ts, complete = self.p.targets(s.t[1], s.fn)
        if len(ts) != 1 or ts[0][1]:
            return
        g = ts[0][0]
        if g not in self.p.own_funcs():
            return
        d = None
        for e in self.p.events(g):
            if e.kind == "raise" and e.conds and not e.loops:
                if d is None:
                    d = {("param", k): v for k, v in self.p.bind(g, s.t[2], s.t[3], self.p.is_unbound(s.t[1], s.fn, g))[0].items()}
                yield negate([(p14.subst(t, d), b) for t, b in e.conds])

    def entails(self, C, pre, conds, est, stored, n, alias=()):
        props, impl = getattr(C, "props", {}), getattr(C, "impl", {})
        fs = [formula(t, b) for t, b in conds] + list(est)
        fs += self.expand(C, fs, props, impl)
        goal = ("attr", SELF, n)
        env = {("none", goal): True}
        for a in alias:
            env[("none", a)] = True
        # reverse implication: n missing means that everything implying it is missing
        for k, ms in impl.items():
            if n in ms:
                fs.append(("none", ("attr", SELF, k)))
        return refuted(fs, env)

    # -- does a function need a parameter to be something --
    def needs(self, f, name, depth=0):
        key = (f.qual, name)
        if key in self.need:
            return self.need[key]
        self.need[key] = None
        if depth > 4:
            return None
        P = ("param", name)
        for e in self.p.events(f):
            if e.kind == "raise" and not e.loops and any(("none", P) in set(atoms(formula(t, b))) or P in set(subterms(t)) for t, b in e.conds):
                break  # it checks by itself
            w = use(e, P)
            if w is None and e.kind == "call":
                w = self.passed(f, e, e.t, P, depth)
            if w is None:
                continue
            if any(P in set(subterms(t)) for t, b in e.conds):
                continue
            self.need[key] = w
            break
        return self.need[key]

    def passed(self, f, e, t, X, depth=0):
        ts, complete = self.p.targets(e.t[1], f)
        for g, ctor in ts:
            if g.abstract:
                continue
            d, errs, exact = self.p.bind(g, t[2], t[3], self.p.is_unbound(e.t[1], f, g) if not ctor else False)
            for k, v in d.items():
                if v == X and isinstance(k, str):
                    if none_default(g, k):
                        continue
                    w = self.needs(g, k, depth + 1)
                    if w:
                        return w
        return None


    def demanded(self, f, t, X):
        """X is given for a parameter of a function of the package that has no use for None, or to a kernel."""
        if kern.kernel_of(t[1]) is not None and X in t[2]:
            return "kernel"
        ts, complete = self.p.targets(t[1], f)
        for g, ctor in ts:
            if g not in self.p.own_funcs() or g.abstract:
                continue
            d, errs, exact = self.p.bind(g, t[2], t[3], self.p.is_unbound(t[1], f, g) if not ctor else False)
            for k, v in d.items():
                if v == X and isinstance(k, str) and not none_default(g, k) and not self.tests_none(g, k):
                    return "%s(%s)" % (g.name, k)
        return None

    def tests_none(self, g, k):
        """The function, or one it hands the parameter to, is prepared for None."""
        key = ("prepared", g.qual, k)
        if key in self.need:
            return self.need[key]
        self.need[key] = False
        P = ("param", k)
        r = False
        for e in self.p.events(g):
            if any(P in set(subterms(t)) for t, b in e.conds) or e.kind == "if" and isinstance(e.t, tuple) and P in set(subterms(e.t)):
                r = True
            if e.kind == "call" and (P in e.t[2] or any(v == P for _, v in e.t[3])):
                for h, ctor in self.p.targets(e.t[1], g)[0]:
                    d, errs, exact = self.p.bind(h, e.t[2], e.t[3], self.p.is_unbound(e.t[1], g, h) if not ctor else False)
                    for k2, v in d.items():
                        if v == P and isinstance(k2, str) and (none_default(h, k2) or self.tests_none(h, k2)):
                            r = True
        self.need[key] = r
        return r


def default(g, n):
    d = g.defaults.get(n) if isinstance(g.defaults, dict) else None
    if d is None:
        return None
    if isinstance(d, ast.Constant):
        return ("c", d.value)
    if isinstance(d, tuple) and d and d[0] == "c":
        return d
    return None


def none_default(f, n):
    d = f.defaults.get(n) if isinstance(f.defaults, dict) else None
    if isinstance(d, ast.Constant) and d.value is None or d == NONE:
        return True
    a = f.ann.get(n) if isinstance(f.ann, dict) else None
    s = ast.unparse(a) if isinstance(a, ast.AST) else str(a) if a is not None else ""
    return "Optional" in s or "None" in s


def covers(condsets):
    """Unconditional, or both sides of one test."""
    if any(not c for c in condsets):
        return True
    one = [c[0] for c in condsets if len(c) == 1]
    return any((t, not b) in one for t, b in one)


def negate(conds):
    return ("not", ("and",) + tuple(formula(t, b) for t, b in conds)) if conds else ("true", NONE)


def missing_false(p, t):
    """Objects that must exist for the truth value t to be true."""
    if t[0] == "op" and t[1] in ("in",) and len(t) > 3:
        return [t[3]]
    if t[0] == "call" and t[1][0] in ("func",) and t[2] and t[1][1].rsplit(".", 1)[-1] in ("forces_in_dataset", "displacements_in_dataset"):
        return [t[2][0]]
    return []


def use(e, X, t=None, x=None):
    """How the event needs X to be an object, or None."""
    t = e.t if t is None else t
    x = e.extra if x is None else x
    k = e.kind
    if k == "load_attr" and same(t[1], X):
        return "." + t[2]
    if k == "load_sub" and isinstance(x, tuple) and same(x[0], X):
        return "[...]"
    if k in ("store_sub", "aug_sub") and same(t[0], X):
        return "[...] ="
    if k == "store_attr" and same(t[0], X):
        return "." + t[1] + " ="
    if k == "call":
        if t[1] == ("builtin", "len") and t[2] and same(t[2][0], X):
            return "len()"
        if t[1][0] == "attr" and same(t[1][1], X):
            return "." + t[1][2] + "()"
    if k == "compare" and same(t[3], X):
        return "in"
    return None


def same(t, X):
    return t == X


# further classes a user drives, and the attributes that have to be set by then
CONTRACT = [("Interaction", {"_fc3"})]

API = ("phono3py.api_phono3py", "phono3py.api_jointdos", "phono3py.api_isotope")

def operations(C):
    for (name, kd), f in sorted(C.meths.items()):
        if not name.startswith("_") or name in ("__next__", "__call__"):
            yield name, kd, f


def holders(s, n, picked):
    """Terms of step s that may be attribute n, with the conditions under which they are."""
    X = ("attr", SELF, n)
    out = [(X, ())]
    for y in (s.t,) + tuple(s.extra if isinstance(s.extra, tuple) else ()):
        if isinstance(y, tuple):
            for q in subterms(y):
                if q[0] == "phi" and q not in [a for a, _ in out] and X in pyx.alts(q):
                    for v in pyx.alts(q):
                        if v == X:
                            out.append((q, picked.get((s.fn.qual, X), ())))
    return out


def need_of(N, C, s, X):
    """How step s needs the object X to be set."""
    w = use(s.e, X, s.t, s.extra)
    if w is None and s.kind == "call":
        c = s.t[1]
        own = c[0] == "attr" and c[1] == SELF and C.meth(c[2], ("method",)) is not None
        if not own:
            w = N.passed(s.fn, s.e, s.t, X) or N.demanded(s.fn, s.t, X)
            if w:
                w = "argument, " + w
    return w


def related(N, C, n):
    """Public names of the class that have to do with attribute n."""
    out = {n, n.lstrip("_")}
    for (name, kd), f in C.meths.items():
        for s in N.flat(C, f):
            if kd == "getter" and s.kind == "return" and ("attr", SELF, n) in pyx.alts(s.t) or s.kind == "store_attr" and s.t[0] == SELF and s.t[1] == n:
                out |= {name, name.lstrip("_")}
    return out


def guards(R, N, c, only=None):
    p = N.p
    C = N.of(c)
    pre = N.prerequisites(C)
    if only is not None:
        if not only <= pre | {n for n in only if C.p.attr_stores(c).get(n)}:
            raise Broken("%s: prerequisites not found" % c.name)
        pre &= only
    C.props, C.impl = {}, {}
    C.props = N.getter_facts(C, pre)
    C.impl = N.implied(C, pre)
    R.count("prerequisites", len(pre))
    seen = set()
    names = {m.lstrip("_") for m, kd in C.meths} | {n.lstrip("_") for n in pre}
    rel = {n: related(N, C, n) for n in pre}
    for name, kd, f in operations(C):
        est, stored, picked = [], set(), {}
        work = None
        R.count("operations")
        for s in N.flat(C, f):
            what = "%s.%s%s" % (c.name, name, "" if kd == "method" else " (%s)" % kd)
            if s.kind == "raise" and not s.loops and s.conds:
                est.append(negate(s.conds))
            if s.kind == "call" and not s.loops and not s.conds:
                est.extend(N.checks(s))
            missing = []
            if s.kind in ("raise", "return") and s.conds:
                missing = [n for n in pre if n not in stored and is_missing(N, C, s.conds, est, n)]
            if s.kind == "raise" and missing:
                R.count("guards")
                txt = message(s)
                if txt:
                    said = {w for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]{2,}", txt) if w in names and "_" in w} | {w for w in re.findall(r"\w+\.(\w+)", txt) if w in names}
                    if said and not any(w in rel[n] for n in missing for w in said):
                        R.report("names-other", s.fn.file, "%s: %s" % (what, missing[0]), "the error for missing %s names %s instead" % (", ".join(sorted(missing)), ", ".join(sorted(said))), s.e.line)
                if work is not None and s.top and not any(done(work, n) for n in missing):
                    R.report("work-first", s.fn.file, "%s: %s" % (what, sorted(missing)[0]), "missing %s is found only after %s" % (", ".join(sorted(missing)), work[1]), s.e.line)
            if s.top and work is None and not s.conds or s.top and work is None and s.kind == "store_attr" and s.t[0] == SELF:
                work = is_work(N, C, s)
            if s.kind == "store_name" and isinstance(s.extra, tuple):
                pass
            if s.kind == "store_name":
                v = stored_value(s)
                if v is not None and v[0] == "attr" and v[1] == SELF:
                    picked[(s.fn.qual, v)] = tuple(s.conds)
            if s.kind == "store_attr" and s.t[0] == SELF and s.t[1] in pre and not s.loops:
                n = s.t[1]
                X = ("attr", SELF, n)
                if s.t[2] != NONE and not N.maybe_none(s.t[2], f) and not s.conds:
                    stored.add(n)
                elif s.t[2] == NONE:
                    stored.discard(n)
                else:
                    # stored under a condition: set afterwards where that holds
                    est.append(("or", ("not", ("and",) + tuple(formula(t, b) for t, b in s.conds)), ("not", ("none", X))))
            if not isinstance(s.t, tuple):
                continue
            for n in pre:
                if n in stored or not mentions(s, ("attr", SELF, n)):
                    continue
                for X, cs in holders(s, n, picked):
                    w = need_of(N, C, s, X)
                    if w is not None and (c.qual, name, kd, n) not in seen:
                        R.count("uses of prerequisites")
                        if not N.entails(C, pre, tuple(s.conds) + cs, est, {}, n, (X,)):
                            seen.add((c.qual, name, kd, n))
                            R.report("not-checked", s.fn.file, "%s: %s" % (what, n), "%s uses %s (%s, in %s) without having checked that it is set" % (name, n, w, s.fn.short), s.e.line)
                    if s.kind == "call" and X in s.t[2] + tuple(v for k, v in s.t[3]) and solver(s.t[1]) and (c.qual, name, "forces", n) not in seen:
                        R.count("datasets given to force constants solvers")
                        env = {("true", t): False for t in forces_tests(s, est, X)}
                        if not refuted([formula(t, b) for t, b in tuple(s.conds) + cs] + est, env) or not env:
                            seen.add((c.qual, name, "forces", n))
                            R.report("forces-not-checked", s.fn.file, "%s: %s" % (what, n), "%s is given to %s without a check that it has forces" % (n, show(s.t[1])[:60]), s.e.line)
        silent(R, N, C, c, pre, name, kd, f)


def stored_value(s):
    t = s.t
    if isinstance(t, tuple) and len(t) >= 2 and isinstance(t[-1], tuple) and t[0] not in ("attr", "call", "op"):
        return t[-1]
    return t if isinstance(t, tuple) and t and t[0] == "attr" else None


def solver(c):
    return c[0] in ("func", "class", "ext") and re.search(r"fc[23]?_?solver$|get_fc[23]$|FC[23]?Solver$", c[1].rsplit(".", 1)[-1], re.I) is not None


def forces_tests(s, est, X):
    """Tests on X that answer whether there are forces."""
    out = set()
    for f in [formula(t, b) for t, b in s.conds] + list(est):
        for a in atoms(f):
            t = a[1]
            if a[0] == "true" and (t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("forces_in_dataset") and t[2] and t[2][0] == X or t[0] == "op" and t[1] == "in" and t[2] == ("c", "forces") and t[3] == X):
                out.add(t)
    return out


def is_missing(N, C, conds, est, n):
    """The conditions can hold only where attribute n is None."""
    X = ("attr", SELF, n)
    own = [formula(t, b) for t, b in conds]
    if not any(X in set(subterms(a[1])) or a[1][0] == "attr" and n in C.props.get(a[1][2], ()) for f in own for a in atoms(f)):
        return False
    fs = own + N.expand(C, own, C.props, C.impl)
    env = {("none", X): False}
    # a property is missing exactly when its attribute is
    for f in own:
        for a in atoms(f):
            t = a[1]
            if a[0] == "none" and t[0] == "attr" and t[1] == SELF and n in C.props.get(t[2], ()):
                env[("none", t)] = False
            if a[0] == "true" and t == X:
                env[a] = True
            if a[0] == "true" and t[0] == "call" and t[2] and t[2][0] == X and missing_false(N.p, t):
                env[a] = True
    return refuted(fs, env)


def message(s):
    """Text of the exception raised."""
    t = s.t
    out = [x[1] for x in subterms(t) if x[0] == "c" and isinstance(x[1], str)] if isinstance(t, tuple) else []
    return " ".join(out)


def done(work, n):
    return work[0] == n


def is_work(N, C, s):
    """Step changes the object or computes something by functions of the package."""
    if s.kind == "store_attr" and s.t[0] == SELF:
        return (s.t[1], "%s is stored" % s.t[1])
    if s.kind == "call" and s.t[1][0] == "attr" and s.t[1][1] == SELF:
        g = C.meth(s.t[1][2], ("method",))
        if g is not None and any(q.kind == "store_attr" and q.t[0] == SELF for q in N.flat(C, g)):
            return (None, "%s() is called" % s.t[1][2])
    if s.kind == "call" and s.t[1][0] == "builtin" and s.t[1][1] == "print":
        return (None, "output is printed")
    if s.kind == "call" and s.t[1][0] == "attr" and s.t[1][1][0] == "attr" and s.t[1][1][1] == SELF and re.match(r"run|set_|init|generate|develop|evaluate", s.t[1][2]):
        return (None, "%s() is called" % s.t[1][2])
    return None


def silent(R, N, C, c, pre, name, kd, f):
    """An operation that does nothing where its prerequisite is missing."""
    if kd != "method":
        return
    steps = list(N.flat(C, f))
    for n in pre:
        uses = [s for s in steps if s.top and any(need_of(N, C, s, X) for X, cs in holders(s, n, {}) if mentions(s, ("attr", SELF, n)))]
        if not uses:
            continue
        X = ("attr", SELF, n)
        env = {("none", X): True}
        props = [("none", ("attr", SELF, g)) for g, ms in C.props.items() if n in ms]
        for a in props:
            env[a] = True
        live = [s for s in steps if s.top and not refuted([formula(t, b) for t, b in s.conds], env)]
        R.count("operations followed without their prerequisite")
        # the check itself reads the attribute
        acts = [s for s in live if s.kind in ("raise", "call", "store_attr", "store_sub", "aug_attr", "aug_sub") and not harmless(s)]
        if not acts and not any(s.kind == "return" and not nothing(s.t) for s in live):
            R.report("silently-skipped", f.file, "%s.%s: %s" % (c.name, name, n), "%s does nothing and raises no error when %s is not set" % (name, n), f.node.lineno)


def nothing(t):
    return t == NONE or isinstance(t, tuple) and t[0] in ("tuple", "list") and all(nothing(x) for x in (t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]))


def harmless(s):
    return s.kind == "call" and (s.t[1][0] == "builtin" and s.t[1][1] in ("print", "isinstance", "len", "str") or s.t[1][0] == "ext" and s.t[1][1] in ("warnings.warn",))


def mentions(s, X):
    if X in set(subterms(s.t)):
        return True
    return isinstance(s.extra, tuple) and any(isinstance(y, tuple) and X in set(subterms(y)) for y in s.extra)


def polarity(R, p):
    """Uses of an object under a condition that says it is missing."""
    for f in p.own_funcs():
        for e in p.events(f):
            if not isinstance(e.t, tuple) or not e.conds or e.kind not in ("load_attr", "load_sub", "store_sub", "aug_sub", "store_attr", "call", "compare"):
                continue
            # conditions known to hold: conjuncts
            for t, b in e.conds:
                for X, neg, key in facts(t, b):
                    R.count("conditions over uses")
                    if key is None:
                        w = use(e, X)
                        if w and not rebound(p, f, e, X, t):
                            R.report("used-where-missing", f.file, "%s: %s" % (f.short, show(X)[:60]), "%s of %s is used where the condition says it is None" % (w, show(X)[:60]), e.line)
                    elif e.kind == "load_sub" and isinstance(e.extra, tuple) and e.extra == (X, key) and not written(p, f, e, X, key):
                        R.report("used-where-missing", f.file, "%s: %s[%s]" % (f.short, show(X)[:60], show(key)), "%s[%s] is read where the condition says that it has no such entry" % (show(X)[:60], show(key)), e.line)


def facts(t, b):
    """(object, ., None): known to be None; (dict, ., key): known to lack key."""
    if t[0] == "not" or t[0] == "op" and t[1] == "not":
        yield from facts(t[1] if t[0] == "not" else t[2], not b)
    elif t[0] == "op" and (t[1] == "and" and b or t[1] == "or" and not b):
        for x in t[2:]:
            if isinstance(x, tuple):
                yield from facts(x, b)
    elif t[0] == "op" and len(t) == 4:
        if t[1] in ("is", "==") and b or t[1] in ("is not", "!=") and not b:
            if t[3] == NONE and t[2][0] in ("attr", "param", "name", "call", "item", "elem", "sub"):
                yield t[2], None, None
        if t[1] == "in" and not b or t[1] == "not in" and b:
            if t[2][0] == "c":
                yield t[3], None, t[2]


def rebound(p, f, e, X, t):
    """X is stored between the test and the use."""
    if X[0] == "attr":
        # a method called, or the attribute stored, in between may set it
        for q in p.events(f):
            if q.order >= e.order:
                break
            if q.kind == "store_attr" and ("attr", q.t[0], q.t[1]) == X:
                return True
            if q.kind == "call" and q.t[1][0] == "attr" and (q.t[1][1] == X[1] or X[1] in q.t[2]):
                return True
    return False


def written(p, f, e, X, key):
    for q in p.events(f):
        if q.order >= e.order:
            break
        if q.kind in ("store_sub", "aug_sub") and q.t[0] == X:
            return True
        if q.kind == "call" and (q.t[1][0] == "attr" and q.t[1][1] == X or X in q.t[2]):
            return True
    return False


def predicates(R, p):
    """X is None or not pred(Y): a test made safe by another object."""
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind != "call" or not e.t[2] or e.t[1][0] != "func" or not e.t[1][1].endswith("_in_dataset"):
                continue
            R.count("tests of datasets")
            Y = e.t[2][0]
            y = e.node.args[0] if e.node.args else None
            for x in missing_tests(f, e.node):
                if re.search(r"dataset$", x) and y is not None and x != ast.unparse(y) and not any(ast.unparse(z) == x for z in ast.walk(y) if isinstance(z, (ast.Name, ast.Attribute))):
                    R.report("tests-other", f.file, "%s: %s" % (f.short, ast.unparse(y)), "%s is tested after a check that %s is present" % (ast.unparse(y), x), e.line)


def missing_tests(f, node):
    """Objects whose presence the and/or around a call checks before it, with no other test of the argument."""
    par = p14.parents(f)
    n = node
    while True:
        m = par.get(n)
        if isinstance(m, ast.BoolOp):
            ys = {ast.unparse(a) for a in node.args}
            xs = []
            for v in m.values[:m.values.index(n)]:
                if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.Is, ast.IsNot)) and isinstance(v.comparators[0], ast.Constant) and v.comparators[0].value is None:
                    xs.append(ast.unparse(v.left))
            return [] if ys & set(xs) else xs
        if not isinstance(m, (ast.UnaryOp, ast.Compare)):
            return []
        n = m


def quantifier(R, p):
    """A guard that raises only if all elements differ."""
    for f in p.own_funcs():
        for e in p.events(f):
            if e.kind != "raise" or not e.conds:
                continue
            t, b = e.conds[-1]
            if not b:
                continue
            for s in conj(t):
                inner = allof(s)
                if inner is None:
                    continue
                R.count("quantified guards")
                if inner[0] == "op" and inner[1] in ("!=", ">", ">=", "-"):
                    R.report("all-for-any", f.file, "%s: %s" % (f.short, show(s)[:60]), "the error is raised only if every element differs: %s" % show(s)[:80], e.line)


def conj(t):
    if t[0] == "op" and t[1] in ("and", "or"):
        for x in t[2:]:
            if isinstance(x, tuple):
                yield from conj(x)
    else:
        yield t


def allof(t):
    if t[0] == "call":
        if t[1][0] == "attr" and t[1][2] == "all":
            return t[1][1]
        if t[1][0] in ("ext", "builtin") and t[1][1].rsplit(".", 1)[-1] == "all" and t[2]:
            return t[2][0]
    return None


def outside(R, p, c, attrs):
    """The object is handed to compiled code by code outside of its class."""
    names = {}
    for f in p.class_funcs(c):
        if f.is_property:
            rs = p.returns(f)
            if len(rs) == 1 and rs[0].t and rs[0].t[0] == "attr" and rs[0].t[1] == SELF and rs[0].t[2] in attrs:
                names[f.name] = rs[0].t[2]
    for f in p.own_funcs():
        if f.cls is c:
            continue
        for e in p.events(f):
            if e.kind != "call" or kern.kernel_of(e.t[1]) is None:
                continue
            for a in e.t[2]:
                if a[0] == "attr" and a[2] in names and any(isinstance(y, tuple) and y[0] in ("inst", "class", "cls") and getattr(y[1], "name", str(y[1]).split(".")[-1]) == c.name for y in p.typeof(a[1], f)):
                    R.count("prerequisites handed to compiled code")
                    if not refuted([formula(x, w) for x, w in e.conds], {("none", a): True}):
                        R.report("not-checked", f.qual, a[2], "%s hands %s to the compiled code without checking that it is set" % (f.short, show(a)), e.line)


def run(R):
    p = pyx.project()
    N = Null(p)
    cs = [c for q, c in p.classes.items() if q.rsplit(".", 1)[0] in API]
    if len(cs) < 3:
        raise Broken("API classes not found")
    for c in cs:
        guards(R, N, c)
    for (cn, attrs) in CONTRACT:
        k = [c for q, c in p.classes.items() if q.startswith("phono3py.") and c.name == cn]
        if not k:
            raise Broken("class %s not found" % cn)
        guards(R, N, k[0], attrs)
        outside(R, p, k[0], attrs)
    polarity(R, p)
    predicates(R, p)
    quantifier(R, p)
    R.require("prerequisites", 5)
    R.require("uses of prerequisites", 20)
    R.require("guards", 10)
