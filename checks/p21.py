"""Non-interference of verbosity and file-writing switches with results (effects of switch-conditioned code).

Code that runs only under a verbosity level or a write_* switch may compute what it prints or writes, but nothing of it
may reach the rest: reported are values it assigns that are used outside, attributes and arrays it changes, calls in it
that change an object, consume an iterator or leave the function or loop, and the use of a switch as value of anything
that is not a switch (arguments, attributes, choices between values).  Effects of calls are found over the call graph."""
import re
import cfront, kern, mutate, p05, pyx

V = re.compile(r"^_*(is_)?(log_?level|verbose|verbosity|quiet)$")
W = re.compile(r"^_*(is_)?write_")
ANY = re.compile("%s|%s" % (V.pattern, W.pattern))
# switches that ask for data to be kept, which is what a request to write needs
KEEPS = {"store_pp", "is_gamma_detail", "with_detail", "is_N_U"}
SHOW = re.compile(r"^_?(print|show|log|warn|display|report)|^ShowCalcProgress|flush$")
MODE = {"run_mode"}


def name(t):
    return t[2] if t[0] == "attr" else t[1] if t[0] == "param" else t[1] if t[0] == "name" else None


def switch(t, R):
    """t is a switch: the flag itself, or a comparison or negation of it."""
    k = t[0]
    if k in ("attr", "param"):
        return isinstance(name(t), str) and bool(R.match(name(t)))
    if k in ("phi", "ite"):
        return any(switch(x, R) for x in pyx.alts(t)) if k == "phi" else False
    if k == "item" or k == "sub":
        return False
    if k == "op":
        if t[1] in ("or", "|"):
            return all(switch(x, R) for x in t[2:])
        if t[1] in ("and", "&"):
            return any(switch(x, R) for x in t[2:])
        if len(t) == 4 and t[1] in ("==", "!=", "<", ">", "<=", ">=", "is", "is not"):
            return switch(t[2], R) and t[3][0] == "c" or switch(t[3], R) and t[2][0] == "c"
        if t[1] == "not":
            return switch(t[2], R)
    if k == "not":
        return switch(t[1], R)
    if k == "call" and t[1] in (("builtin", "bool"), ("builtin", "int")) and t[2]:
        return switch(t[2][0], R)
    return False


def default(t):
    """The switch was not given (log_level is None)."""
    return t[0] == "op" and len(t) == 4 and t[1] in ("is", "is not", "==", "!=") and ("c", None) in (t[2], t[3])


class P21:
    def __init__(self, R):
        self.R, self.p = R, pyx.project()
        self.own = set(self.p.own_funcs())
        ks = kern.kernels()
        protos = {f.name: f for f in cfront.load("lapacke").funcs.values()}
        for t in cfront.load_wrappers(lapacke=True).values():
            protos.update({n: f for n, f in t.funcs.items()})
        mutate.KOUT = {k: {x.formals.index(o) for o in p05.outputs(x, protos)} for k, x in ks.items()}
        self.pairs = {}
        self.summ = mutate.summaries(self.p, self.p.own_funcs())
        self.imp = {}
        self.effects()

    def where(self, e):
        return "%s %s" % (e.fn.file, e.fn.short)

    # ---- what a call changes: set of "self.<a>" / "<param>.<a>" of the callee
    def effects(self):
        p = self.p
        for f in p.own_funcs():
            self.imp[f.qual] = {}
        for _ in range(8):
            ch = False
            for f in p.own_funcs():
                s = self.imp[f.qual]
                for e in p.events(f):
                    for root, what in self.event_effects(e, f):
                        if (root, what) not in s:
                            s[root, what] = e
                            ch = True
            if not ch:
                break

    def base(self, t, f, depth=0):
        if t[0] == "call" and t[1][0] == "attr" and not t[2] and depth < 4:      # an accessor's result
            tg = [g for g, c in self.p.targets(t[1], f)[0]]
            if not tg and t[1][2].startswith("get_"):
                return self.base(t[1][1], f, depth + 1)
            if tg and all(x.t and x.t[0] == "attr" and x.t[1] == ("self",) for g in tg for x in self.p.returns(g)):
                return self.base(t[1][1], f, depth + 1)
        while t[0] in ("attr", "sub", "item") and t[0] != "c":
            if t[0] == "attr" and t[1] == ("self",):
                return "self"
            t = t[2] if t[0] == "item" else t[1]
        if t == ("self",):
            return "self"
        if t[0] == "param" and (t[1] in f.params or t[1] in f.kwonly):
            return t[1]
        return None

    def lazy(self, e, base, attr):
        """Computed on first use: only when it is not there yet."""
        a = ("attr", base, attr)
        return any(c[0] == "op" and len(c) == 4 and a in (c[2], c[3]) and ("c", None) in (c[2], c[3]) for c, b in e.conds)

    def event_effects(self, e, f):
        p = self.p
        if e.kind in ("store_attr", "aug_attr") and not V.match(e.t[1]):
            r = self.base(e.t[0], f)
            if r is not None and f.name != "__init__" and not (e.kind == "store_attr" and self.lazy(e, e.t[0], e.t[1])):
                yield r, e.t[1]
        elif e.kind in ("store_sub", "aug_sub"):
            for r0, l in self.roots(e.t[0]):
                r = self.base(r0, f)
                if l == 0 and r is not None:
                    yield r, pyx.show(r0)[:50]
        elif e.kind == "call":
            c = e.t[1]
            if c[0] == "attr" and c[2] in mutate.MUT_METH and not p.targets(c, f)[0]:
                for r0, l in self.roots(c[1]):
                    r = self.base(r0, f)
                    if l == 0 and r is not None:
                        yield r, pyx.show(r0)[:50]
            for tgt, what in self.call_changes(e, f):
                for r0, l in self.roots(tgt):
                    r = self.base(r0, f)
                    if l == 0 and r is not None:
                        yield r, what
        elif e.kind == "aug_name" and mutate.arrayish(e.t[2], f, p):
            for r0, l in self.roots(e.t[2]):
                r = self.base(r0, f)
                if l == 0 and r is not None:
                    yield r, pyx.show(r0)[:50]
        for t in self.kernel_changes(e, f):
            for r0, l in self.roots(t):
                r = self.base(r0, f)
                if l == 0 and r is not None:
                    yield r, pyx.show(r0)[:50]

    def kernel_changes(self, e, f):
        kk = kern.kernel_of(e.t[1]) if e.kind == "call" and e.t[1][0] == "ext" else None
        if kk is not None and kk.name in mutate.INVOLUTIONS:
            if f.qual not in self.pairs:
                self.pairs[f.qual] = mutate.undone(self.p, f)
            if id(e) in self.pairs[f.qual]:
                return      # taken back by a second call
        if kk is not None and not any(a[0] == "star" for a in e.t[2]):
            for i in sorted(mutate.KOUT.get((kk.mod, kk.name), ())):
                if i < len(e.t[2]):
                    yield e.t[2][i]

    def call_changes(self, e, f):
        """(term, what) changed by a call of an own function."""
        p = self.p
        c = e.t[1]
        for g, ctor in p.targets(c, f)[0]:
            s = self.imp.get(g.qual)
            if not s and not self.summ.get(g.qual):
                continue
            d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(c, f, g))
            for (r, what) in s or ():
                if r == "self":
                    if c[0] == "attr" and not ctor and not p.is_unbound(c, f, g):
                        yield c[1], what
                elif r in d and isinstance(d[r], tuple):
                    yield d[r], what
            for r in self.summ.get(g.qual, {}):
                if r in d and isinstance(d[r], tuple):
                    yield d[r], r

    def roots(self, t):
        """What t shares storage with; an object made here is its own root."""
        for x in pyx.alts(t):
            a = [(r, l) for r, l in mutate.alias(x)]
            yield from a or [(x, 0)]

    # ---- regions
    def region(self, e, R):
        return [(c, b) for c, b in e.conds if switch(c, R) and not default(c)]

    def shown(self, e):
        """An event that only shows something."""
        if e.kind == "call":
            n = pyx.show(e.t[1])
            last = e.t[1][-1] if e.t[1][0] in ("attr", "func", "builtin", "ext") else n
            last = last.rsplit(".", 1)[-1] if isinstance(last, str) else ""
            return bool(SHOW.match(last)) or n.startswith("sys.std") or "stdout" in n or last in ("format", "join", "write", "str", "len")
        return False

    def run(self):
        R = self.R
        for kind, rx in (("verbosity", V), ("request to write", ANY)):
            for f in self.p.own_funcs():
                evs = list(self.p.events(f))
                inside, outside = [], []
                for e in evs:
                    if self.region(e, rx) and not (rx is ANY and self.region(e, V)):
                        inside.append(e)
                    else:
                        outside.append(e)
                R.count("functions")
                if inside:
                    R.count("functions with code under a switch (%s)" % kind)
                    self.examine(f, kind, rx, inside, outside)
                self.values(f, kind, V if rx is V else W, evs)
        R.require("functions with code under a switch (verbosity)", 60)
        R.require("functions with code under a switch (request to write)", 10)
        R.require("events under a switch", 1500)

    def cond(self, e, rx):
        return " and ".join(("" if b else "not ") + pyx.show(c)[:40] for c, b in self.region(e, rx))

    def local(self, t, inside, outside):
        """Made under the switch, and not seen outside."""
        if t[0] in ("param", "attr", "self", "gvar", "elem", "c"):
            return False
        return not any(t in pyx.subterms(x) for e in outside for x in self.terms(e))

    @staticmethod
    def terms(e):
        if e.kind == "call":
            return [e.t]
        if e.kind in ("store_name", "store_attr", "store_sub", "aug_sub", "aug_attr", "aug_name"):
            return [x for x in e.t if isinstance(x, tuple) and x]
        if e.kind in ("return", "raise", "yield") and isinstance(e.t, tuple):
            return [e.t]
        return []

    def examine(self, f, kind, rx, inside, outside):
        R, p = self.R, self.p
        for e in inside:
            R.count("events under a switch")
            when = self.cond(e, rx)
            if e.kind in ("break", "continue", "return", "raise"):
                self.leaves(f, e, kind, rx, inside, outside, when)
            elif e.kind in ("store_attr", "aug_attr"):
                if V.match(e.t[1]) or W.match(e.t[1]) or e.t[1] in KEEPS:
                    continue
                b = e.t[0]
                if f.name != "__init__" and self.local(b, inside, outside):
                    continue
                if self.same_other_side(e, inside, outside, rx):
                    continue
                R.report("state-changed", self.where(e), "%s.%s" % (pyx.show(b)[:40], e.t[1]),
                         "%s.%s is set only under a %s (%s)" % (pyx.show(b)[:40], e.t[1], kind, when), e.line)
            elif e.kind in ("store_sub", "aug_sub"):
                for r, l in self.roots(e.t[0]):
                    if l == 0 and not self.local(r, inside, outside) and not self.switch_table(r, e):
                        R.report("state-changed", self.where(e), "%s" % pyx.show(e.t[0])[:60],
                                 "%s is changed only under a %s (%s)" % (pyx.show(e.t[0])[:60], kind, when), e.line)
                        break
            elif e.kind == "aug_name" and mutate.arrayish(e.t[2], f, p) and e.t[2][0] in ("param", "attr", "sub"):
                R.report("state-changed", self.where(e), "%s %s=" % (e.t[0], e.t[1]),
                         "%s is changed in place only under a %s (%s)" % (pyx.show(e.t[2])[:60], kind, when), e.line)
            elif e.kind == "store_name":
                self.leaks(f, e, e.t[0], e.t[1], kind, rx, inside, outside, when)
            if e.kind == "aug_name":
                pass
            if e.kind == "call":
                self.called(f, e, kind, rx, inside, outside, when)
            for it, node in e.loops:
                pass
        for e in inside:
            for it, node in e.loops:
                self.consumes(f, e, it, kind, rx, inside, outside)
        # aug_name values leak like assigned ones
        for e in inside:
            if e.kind == "aug_name":
                v = ("op", e.t[1], e.t[2], e.t[3])
                self.leaks(f, e, e.t[0], v, kind, rx, inside, outside, self.cond(e, rx))

    def same_other_side(self, e, inside, outside, rx):
        """The same value is stored when the switch is off."""
        for x in inside + outside:
            if x is not e and x.kind == e.kind and x.t == e.t:
                c1 = {c: b for c, b in self.region(e, rx)}
                c2 = {c: b for c, b in x.conds}
                if any(c in c2 and c2[c] != b for c, b in c1.items()):
                    return True
        return False

    def switch_table(self, r, e):
        """Tables of settings, in which the entry of the switch itself is set."""
        i = e.t[1]
        return i[0] == "c" and isinstance(i[1], str) and bool(W.match(i[1].lower()) or V.match(i[1].lower()))

    def leaves(self, f, e, kind, rx, inside, outside, when):
        if e.kind in ("break", "continue"):
            # out of a loop that is itself under the switch
            if not e.loops:
                return
            uid = e.loops[-1][1]
            # the next round runs what comes before a continue
            rest = [x for x in outside if any(n is uid for _, n in x.loops) and self.matters(x) and (e.kind == "break" or x.order > e.order)]
        else:
            rest = [x for x in outside if x.order > e.order and self.matters(x)] + \
                   [x for x in outside if e.loops and set(id(n) for _, n in x.loops) & set(id(n) for _, n in e.loops) and self.matters(x)]
            # the failure of what was asked for
            if any(c[0] in ("call", "not", "op", "is") and any(y[0] == "call" for y in pyx.subterms(c)) and not switch(c, rx) for c, b in e.conds) and kind == "request to write":
                return
            if e.kind == "return" and f.name.startswith("get_run_mode"):
                return
            if e.kind == "return" and e.t not in (None, ("c", None)):
                others = [x for x in outside if x.kind == "return"]
                if any(x.t == e.t for x in others) and not rest:
                    return
                if not rest and all(self.shows_only(y) for y in [e.t]):
                    return
                if others and not rest:
                    rest = others
            if e.kind == "return" and not rest:
                return
            if e.kind == "raise" and not rest and not [x for x in outside if x.kind == "return"]:
                return
        if rest and e.kind == "return" and self.asks_only(f):
            return
        if rest:
            self.R.report("left-under-switch", self.where(e), "%s %s" % (e.kind, when[:60]),
                          "%s under a %s (%s): %s (line %s) is not reached then" % (e.kind, kind, when, rest[0].kind, rest[0].line), e.line)

    def asks_only(self, f):
        """A question about the settings: answered by yes or no, and nothing is done."""
        rs = [a for x in self.p.events(f) if x.kind == "return" and x.t for a in pyx.alts(x.t)]
        return len(rs) > 1 and all(a in (("c", True), ("c", False)) or a[0] in ("not", "op", "attr") and all(
            y[0] != "call" for y in pyx.subterms(a)) for a in rs) and any(a[0] == "c" for a in rs) and \
            not any(x.kind in ("store_attr", "store_sub", "aug_sub", "aug_attr", "yield", "call") for x in self.p.events(f))

    def shows_only(self, t):
        return t[0] in ("c", "fstr")

    def matters(self, e):
        if e.kind in ("store_attr", "store_sub", "aug_sub", "aug_attr", "yield"):
            return True
        if e.kind == "return":
            return e.t not in (None, ("c", None))
        return e.kind == "call" and not self.shown(e) and bool(e.loops or list(self.call_changes(e, e.fn)))

    def leaks(self, f, e, n, v, kind, rx, inside, outside, when):
        if V.match(n) or n in MODE or v[0] in ("fstr",) or n == "_":
            return
        R = self.R
        R.count("values assigned under a switch")
        # assigned the same when the switch is off
        def other(x):
            return x.kind == "store_name" and x.t[0] == n and x.t[1] == v
        if any(other(x) for x in outside):
            return
        on = {c: b for c, b in self.region(e, rx)}
        if any(x is not e and other(x) and any(c in on and b != on[c] for c, b in x.conds) for x in inside):
            return
        for x in outside:
            if x.order < e.order and not set(id(m) for _, m in x.loops) & set(id(m) for _, m in e.loops):
                continue
            if self.shown(x) or x.kind == "store_name":
                continue
            for t in self.terms(x):
                for y in pyx.subterms(t):
                    if y[0] != "phi" or len(y[1]) < 2:
                        continue
                    if any(a == v for a in y[1]) and not self.text(v):
                        R.report("value-leaks", self.where(e), "%s = %s" % (n, pyx.show(v)[:60]),
                                 "%s is assigned only under a %s (%s), and is used at line %s" % (n, kind, when, x.line), e.line)
                        return

    def text(self, v):
        return v[0] == "fstr" or v[0] == "c" and isinstance(v[1], str) or v[0] == "op" and v[1] in ("+", "%") and any(self.text(x) for x in v[2:] if isinstance(x, tuple)) or \
            v[0] == "phi" and any(self.text(x) for x in v[1])

    def called(self, f, e, kind, rx, inside, outside, when):
        p, R = self.p, self.R
        c = e.t[1]
        if c[0] == "attr" and c[2] in mutate.MUT_METH and not p.targets(c, f)[0]:
            for r, l in self.roots(c[1]):
                if l == 0 and not self.local(r, inside, outside) and self.read_outside(r, outside, e):
                    R.report("state-changed", self.where(e), pyx.show(c)[:60],
                             "%s changes %s only under a %s (%s)" % (pyx.show(c)[:60], pyx.show(r)[:50], kind, when), e.line)
                    return
        if c[0] == "builtin" and c[1] in ("list", "tuple", "sorted", "sum", "max", "min", "set", "any", "all", "dict") and e.t[2] and self.iterator(e.t[2][0], f) and not self.local(e.t[2][0], inside, outside):
            R.report("iterator-advanced", self.where(e), pyx.show(e.t)[:60], "%s is run through only under a %s (%s)" % (pyx.show(e.t[2][0])[:60], kind, when), e.line)
        if c == ("builtin", "next") and e.t[2] and not self.local(e.t[2][0], inside, outside):
            R.report("iterator-advanced", self.where(e), pyx.show(e.t)[:60], "%s is advanced only under a %s (%s)" % (pyx.show(e.t[2][0])[:60], kind, when), e.line)
        if c[0] == "ext" and (c[1].startswith("numpy.random.") or c[1].startswith("random.")):
            R.report("state-changed", self.where(e), pyx.show(c)[:60], "random numbers are drawn only under a %s (%s)" % (kind, when), e.line)
        if c == ("ext", "sys.exit") or c[0] == "builtin" and c[1] in ("exit", "quit"):
            if kind == "verbosity":
                R.report("left-under-switch", self.where(e), "exit %s" % when[:60], "the program is left under a verbosity level (%s)" % when, e.line)
            return
        for how, t, ev in mutate.mutations(p, f, self.summ):
            if ev is e and (how.startswith("kernel") or "out" in how.split() or how.startswith("numpy")):
                for r, l in self.roots(t):
                    if l == 0 and not self.local(r, inside, outside):
                        R.report("state-changed", self.where(e), "%s by %s" % (pyx.show(t)[:50], how), "%s is changed by %s only under a %s (%s)" % (pyx.show(t)[:50], how, kind, when), e.line)
        for tgt, what in self.call_changes(e, f):
            for r, l in self.roots(tgt):
                if l or self.local(r, inside, outside):
                    continue
                if isinstance(what, str) and (V.match(what) or W.match(what)):
                    continue
                R.report("state-changed", self.where(e), "%s changes %s" % (pyx.show(c)[:60], what),
                         "%s changes %s of %s, and is called only under a %s (%s)" % (pyx.show(c)[:60], what, pyx.show(r)[:50], kind, when), e.line)
                return

    def read_outside(self, r, outside, e):
        if r[0] in ("param", "attr", "gvar"):
            return True
        return any(r in pyx.subterms(t) for x in outside for t in self.terms(x))

    def consumes(self, f, e, it, kind, rx, inside, outside):
        if (f.qual, it) in self.imp.setdefault("!seen", {}):
            return
        self.imp["!seen"][f.qual, it] = 1
        x = it
        if x[0] == "call" and x[1] == ("builtin", "enumerate"):
            x = x[2][0]
        # is the loop itself under the switch?
        evs = [y for y in inside + outside if any(i == it for i, _ in y.loops)]
        if any(y in outside for y in evs):
            return
        if self.iterator(x, f):
                if not self.local(x, inside, outside):
                    self.R.report("iterator-advanced", self.where(e), pyx.show(x)[:60], "%s is run through only under a %s (%s)" % (pyx.show(x)[:60], kind, self.cond(e, rx)), e.line)

    def iterator(self, t, f):
        return any(bt[0] == "inst" and self.p.member(self.p.classes[bt[1]], "__next__") for bt in self.p.typeof(t, f))

    # ---- the switch as a value
    def values(self, f, kind, rx, evs):
        R, p = self.R, self.p
        any_rx = lambda n: bool(V.match(n) or W.match(n)) or n in KEEPS
        for e in evs:
            if e.kind == "call":
                for g, ctor in p.targets(e.t[1], f)[0]:
                    d, errs, exact = p.bind(g, e.t[2], e.t[3], p.is_unbound(e.t[1], f, g))
                    for n, a in d.items():
                        if not isinstance(a, tuple) or not a:
                            continue
                        if rx.match(n):
                            R.count("switches handed over")
                        if any_rx(n) or SHOW.match(g.name) or W.match(g.name):
                            continue
                        if self.uses(a, rx):
                            R.report("switch-as-value", self.where(e), "%s as %s of %s" % (pyx.show(a)[:50], n, g.name),
                                     "%s of %s depends on a %s (%s)" % (n, g.short, kind, pyx.show(a)[:60]), e.line)
            elif e.kind == "store_attr" and not any_rx(e.t[1]):
                if self.uses(e.t[2], rx):
                    R.report("switch-as-value", self.where(e), "%s in %s" % (pyx.show(e.t[2])[:50], e.t[1]),
                             "%s depends on a %s (%s)" % (e.t[1], kind, pyx.show(e.t[2])[:60]), e.line)
            elif e.kind in ("store_sub", "aug_sub") and isinstance(e.t[-1], tuple) and self.uses(e.t[-1], rx) and not self.switch_table(e.t[0], e):
                R.report("switch-as-value", self.where(e), "%s in %s" % (pyx.show(e.t[-1])[:50], pyx.show(e.t[0])[:50]),
                         "%s depends on a %s (%s)" % (pyx.show(e.t[0])[:50], kind, pyx.show(e.t[-1])[:60]), e.line)

    def uses(self, t, rx, depth=0):
        """The value is the switch, computed from it or chosen by it."""
        if depth > 6:
            return False
        k = t[0]
        if k in ("attr", "param"):
            return switch(t, rx)
        if k == "op":
            return any(self.uses(x, rx, depth + 1) for x in t[2:] if isinstance(x, tuple))
        if k == "not":
            return self.uses(t[1], rx, depth + 1)
        if k == "ite":
            return any(self.uses(x, rx, depth + 1) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
        if k == "phi":
            return any(self.uses(x, rx, depth + 1) for x in t[1])
        if k == "call" and t[1] in (("builtin", "bool"), ("builtin", "int")):
            return any(self.uses(x, rx, depth + 1) for x in t[2])
        return False


def run(R):
    R.explanation = "All events of all functions are split by the switch conditions in force; effects of calls are summarised over the call graph to a fixpoint."
    R.assumptions = ["Switches are recognised by name (log_level, verbose, quiet, write_*); a condition that also holds for another need (write_x or need_y) is not one.",
                     "Attributes computed on first use (set when they are None) may be computed at any time.",
                     "Calls into phonopy from code under a switch change nothing but what the mutation tables of the engine list."]
    P21(R).run()
