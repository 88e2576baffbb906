"""Index-space typing of sampled axes (smearing widths, temperatures, grid points, frequency points, bands, triplets),
and a dataflow analysis of the loops over them.

Axes: every array gets, per axis, what its positions stand for (from allocations, loops and call sites); reported are
subscripts, arguments and values whose axes are of another kind than the place they are put.  Loops: inside a loop over a
sampled axis, reported are exits that leave later samples out, results taken from an object that was not run again after
the sample was set on it, runs made for the first sample only without regard to the sample, and samples paired with the
samples of another axis."""
import ast

import kern, mutate, pyx, space
from space import S, U, clash
import p07

WORD = {"SIGMA": "smearing", "TEMP": "temperature", "FPT": "frequency point", "BAND": "band", "BAND0": "position in the chosen bands",
        "TRIP": "triplet", "ROT": "rotation", "IR": "grid point position", "GR": "regular grid point", "BZ": "grid point"}
SAMPLE = S("SIGMA", "TEMP", "FPT", "BAND", "BAND0", "TRIP", "IR")


def word(s):
    return " or ".join(WORD[x] for x in sorted(s))


class Axes(p07.P07):
    sp = S("SIGMA", "TEMP", "FPT", "BAND", "BAND0", "TRIP", "ROT", "IR")

    def __init__(self, R):
        super().__init__(R)
        self.word = word
        self.fx, self.summ = {}, None

    def cases(self, *a):
        pass                                  # grid points by flag: P07

    # ---- values put into arrays
    def values(self):
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind not in ("store_sub", "aug_sub"):
                    continue
                b, i, v = e.t[0], e.t[1], e.t[-1]
                ctx = self.ctx(e)
                rest = self.s.index(b, i, f, ctx)
                if rest is U or not rest[1] or not rest[0]:
                    continue
                for x in pyx.alts(v):
                    w = self.s.val(x, f, ctx)
                    if w is U or not w[1] or not w[0] or len(w[0]) > len(rest[0]):
                        continue
                    self.R.count("arrays put into arrays")
                    for a, c in zip(rest[0][::-1], w[0][::-1]):
                        if clash(a, c) and a <= self.sp and c <= self.sp:
                            self.R.report("wrong-axis", self.where(e), "%s into %s[%s]" % (pyx.show(x)[:60], pyx.show(b)[:40], pyx.show(i)[:40]),
                                          "the axis of %s over %s is put where %s has %s" % (pyx.show(x)[:60], word(c), pyx.show(b)[:40], word(a)), e.line)

    # ---- two subscripts in each other's place
    def exchanged(self):
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind == "load_sub":
                    b, i = e.extra
                elif e.kind in ("store_sub", "aug_sub"):
                    b, i = e.t[0], e.t[1]
                else:
                    continue
                if i[0] != "tuple":
                    continue
                v = self.s.val(b, f, self.ctx(e))
                if v is U:
                    continue
                ks = []
                for kind, x in self.s.slots(i):
                    w = self.s.val(x, f, self.ctx(e)) if kind == "int" else U
                    ks.append((kind, w[2] if w is not U and w[1] and not w[0] else None, x))
                for n, (kind, k, x) in enumerate(ks):
                    if kind != "int" or not k or not k <= self.sp or n >= len(v[0]) or v[0][n] is not None:
                        continue
                    at = [m for m, a in enumerate(v[0]) if a == k]
                    self.R.count("subscripts of axes without a kind")
                    if len(at) == 1 and at[0] < len(ks) and ks[at[0]][0] == "int" and not ks[at[0]][1]:
                        self.R.report("wrong-axis", self.where(e), "%s of %s" % (pyx.show(i)[:60], pyx.show(b)[:40]),
                                      "%s counts the %s, which is axis %d of %s, but is given for axis %d" % (pyx.show(x)[:40], word(k), at[0], pyx.show(b)[:40], n), e.line)

    # ---- a list of samples taken at a constant position beside its running position
    def pinned(self):
        for f in self.p.own_funcs():
            by = {}
            for e in self.p.events(f):
                if e.kind == "load_sub" and e.extra[1][0] != "tuple":
                    by.setdefault(e.extra[0], []).append(e)
            for b, es in by.items():
                a = self.s.first(b, f, self.ctx(es[0]), ())
                if not a or not a <= SAMPLE:
                    continue
                run = [e for e in es if e.extra[1][0] in ("attr", "param", "idx", "name")]
                for e in es:
                    if e.extra[1][0] == "c" and isinstance(e.extra[1][1], int):
                        self.R.count("samples taken at a constant position")
                        if run:
                            self.R.report("fixed-sample", self.where(e), "%s[%s]" % (pyx.show(b)[:60], e.extra[1][1]),
                                          "the %s at hand is %s[%s], and the first one is taken here" % (word(a), pyx.show(b)[:40], pyx.show(run[0].extra[1])[:40]), e.line)

    # ---- a sample fixed on an object before the loop over all of them
    def settled(self):
        for f in self.p.own_funcs():
            evs = self.p.events(f)
            over = {}
            for e in evs:
                for it, node in e.loops:
                    y = it[2][0] if it[0] == "call" and it[1] == ("builtin", "enumerate") and it[2] else it
                    over.setdefault(y, set()).add((node.lineno, node.col_offset))
            for e in evs:
                if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2].startswith("set_"):
                    xs, o = list(e.t[2]) + [v for _, v in e.t[3]], e.t[1][1]
                elif e.kind == "store_attr" and e.t[0] != ("self",):
                    xs, o = [e.t[2]], e.t[0]
                else:
                    continue
                for x in xs:
                    if not (isinstance(x, tuple) and len(x) == 3 and x[0] == "sub" and x[2][0] == "c" and isinstance(x[2][1], int) and x[1] in over):
                        continue
                    uids = over[x[1]] - {(n.lineno, n.col_offset) for _, n in e.loops}
                    a = self.s.first(x[1], f, self.ctx(e), ())
                    self.R.count("samples set on an object by position")
                    if not uids or not a or not a <= SAMPLE:
                        continue
                    used = [y for y in evs if y.kind == "call" and any((n.lineno, n.col_offset) in uids for _, n in y.loops) and
                            (y.t[1][0] == "attr" and y.t[1][1] == o or o in y.t[2])]
                    again = [y for y in used if y.t[1][0] == "attr" and y.t[1][1] == o and e.kind == "call" and y.t[1][2] == e.t[1][2]] or \
                        [y for y in evs if y.kind == e.kind == "store_attr" and y.t[:2] == e.t[:2] and any((n.lineno, n.col_offset) in uids for _, n in y.loops)]
                    if used and not again:
                        self.R.report("fixed-sample", self.where(e), "%s for %s" % (pyx.show(x)[:60], pyx.show(o)[:60]),
                                      "%s is set to %s once, and is then used in the loop over all %s" % (pyx.show(o)[:60], pyx.show(x)[:60], pyx.show(x[1])[:60]), e.line)

    # ---- a running position used behind its loop
    def leaked(self):
        for f in self.p.own_funcs():
            body = getattr(f.node, "body", None)
            if not isinstance(body, list):
                continue
            nodes = list(pyx.walk_scope(f.node))
            fors = [n for n in nodes if isinstance(n, (ast.For, ast.AsyncFor))]
            bound = {}
            for n in nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    bound.setdefault(n.id, []).append(n)
            for n in nodes:
                if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)):
                    continue
                for x in ast.walk(n.slice):
                    if not isinstance(x, ast.Name) or x.id in f.params or x.id in f.kwonly:
                        continue
                    own = [l for l in fors if any(y in bound.get(x.id, ()) for y in ast.walk(l.target))]
                    if not own or len(bound[x.id]) != len(own):
                        continue
                    self.R.count("running positions in stores")
                    if any(x is z for l in own for st in l.body for z in ast.walk(st)):
                        continue
                    if any(isinstance(z, (ast.Break, ast.Return)) for l in own for st in l.body for z in ast.walk(st)):
                        continue
                    self.R.report("behind-its-loop", "%s %s" % (f.file, f.short), "%s in %s" % (x.id, ast.unparse(n)[:60]),
                                  "%s runs in the loop of line %d; behind that loop only its last value is stored at" % (x.id, own[0].lineno), n.lineno)

    # ---- a kernel result filed under a running position although nothing given to the kernel changes with it
    def regardless(self):
        for f in self.p.own_funcs():
            if not isinstance(getattr(f.node, "body", None), list):
                continue
            kern_calls = [e for e in self.p.events(f) if e.kind == "call" and e.loops and kern.kernel_of(e.t[1])]
            for e in kern_calls:
                loop = e.loops[-1][1]
                if not isinstance(loop, ast.For):
                    continue
                dep = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
                inner = [n for st in loop.body for n in ast.walk(st)]
                if any(isinstance(n, ast.Call) and n is not e.node and not plain_call(n) for n in inner):
                    continue
                self.R.count("kernels called in a loop with nothing else")
                for _ in range(4):
                    for n in inner:
                        if isinstance(n, (ast.Assign, ast.AugAssign)):
                            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                            if any(mentions(n.value, dep) for _ in (0,)) or any(isinstance(t, ast.Subscript) and mentions(t.slice, dep) and mentions(n.value, dep) for t in ts):
                                dep |= {ast.unparse(base_of(t)) for t in ts}
                        elif isinstance(n, ast.For):
                            dep |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                if not isinstance(e.node, ast.Call) or any(mentions(a, dep) for a in list(e.node.args) + [k.value for k in e.node.keywords]):
                    continue
                outs = {ast.unparse(a) for a in e.node.args if isinstance(a, (ast.Name, ast.Attribute))}
                for n in inner:
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and mentions(n.targets[0].slice, {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}):
                        if any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in outs for x in ast.walk(n.value)) and not mentions(n.value, dep):
                            self.R.report("same-for-all", self.where(e), "%s from %s" % (ast.unparse(n.targets[0])[:60], pyx.show(e.t[1])[:60]),
                                          "%s is filed for every round of the loop, but nothing given to %s changes with it" % (ast.unparse(n.value)[:60], pyx.show(e.t[1])[:60]), e.line)

    def zips(self):
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind != "call" or e.t[1] != ("builtin", "zip"):
                    continue
                ax = [(x, self.s.first(x, f, self.ctx(e), ())) for x in e.t[2]]
                self.R.count("sequences walked side by side", sum(1 for x, a in ax if a))
                for n, (x, a) in enumerate(ax):
                    for y, b in ax[n + 1:]:
                        if clash(a, b) and a <= self.sp and b <= self.sp:
                            self.R.report("pairs-samples", self.where(e), "%s with %s" % (pyx.show(x)[:60], pyx.show(y)[:60]),
                                          "%s is over %s and %s over %s, and they are walked side by side" % (pyx.show(x)[:60], word(a), pyx.show(y)[:60], word(b)), e.line)

    # ---- loops over samples
    def loops(self):
        for f in self.p.own_funcs():
            by = {}
            for e in self.p.events(f):
                for it, node in e.loops:
                    by.setdefault((node.lineno, node.col_offset), (it, node, []))[2].append(e)
            for uid, (it, node, evs) in sorted(by.items()):
                a = self.s.first(it, f, self.ctx(evs[0]), ())
                if not a or not a <= SAMPLE:
                    continue
                self.R.count("loops over samples")
                self.exits(f, uid, a, evs)
                self.objects(f, uid, it, a, evs)
                self.fixed(f, uid, a, evs)

    @staticmethod
    def depends(t, uid):
        return any(x[0] in ("elem", "idx", "rng") and x[-1] == uid for x in pyx.subterms(t))

    def own_conds(self, e, uid, evs):
        """Conditions of e that arise inside the loop."""
        base = None
        for x in evs:
            c = list(x.conds)
            base = c if base is None else [y for y in base if y in c]
        return [c for c in e.conds if c not in (base or [])]

    def exits(self, f, uid, a, evs):
        work = [x for x in evs if x.kind in ("store_sub", "aug_sub", "call", "store_attr", "aug_name")]
        for e in evs:
            if e.kind == "break":
                if not e.loops or (e.loops[-1][1].lineno, e.loops[-1][1].col_offset) != uid:
                    continue
            elif e.kind != "return" or e.t in (("c", False), ("c", None)) and e.kind == "return" and e.t == ("c", False):
                continue
            conds = self.own_conds(e, uid, evs)
            # a search: leaves when the sample is the wanted one
            if any(b and self.search(c, uid) and not any(self.per_sample(x, uid) and (c, b) not in x.conds for x in evs) for c, b in conds):
                continue
            # a failure: the loop is left after the failure of a call was seen
            if e.kind == "return" and any(self.failure(c) for c, b in conds):
                continue
            if not work:
                continue
            self.R.report("left-too-early", self.where(e), "%s %s" % (e.kind, "/".join(sorted(a))),
                          "the loop over %s is left here (when %s): the samples after are not computed" % (word(a), " and ".join(("" if b else "not ") + pyx.show(c)[:60] for c, b in conds) or "always"), e.line)

    def per_sample(self, e, uid):
        """The event keeps something for the sample of this round."""
        if e.kind in ("store_sub", "aug_sub"):
            return self.depends(e.t[1], uid)
        if e.kind == "store_attr":
            return self.depends(e.t[2], uid)
        return e.kind == "call" and e.t[1][0] == "attr" and e.t[1][2].startswith("set_") and any(self.depends(x, uid) for x in e.t[2])

    def search(self, c, uid):
        for x in pyx.subterms(c):
            if x[0] == "op" and x[1] in ("==", "<", "<=", ">", ">=", "is", "in") and len(x) == 4:
                l, r = self.depends(x[2], uid), self.depends(x[3], uid)
                if l != r and not any(y[0] == "call" and y[1][0] != "builtin" and y[1][0] != "ext" for y in pyx.subterms(x)):
                    s = x[2] if l else x[3]
                    # the sample itself (or its distance from the wanted one), not something computed for it
                    if all(y[-1] == uid for y in pyx.subterms(s) if y[0] in ("elem", "idx", "rng")) and not any(y[0] in ("sub",) and self.depends(y[2], uid) for y in pyx.subterms(s)):
                        return True
            if x[0] == "call" and x[1] == ("ext", "numpy.isclose") and any(self.depends(y, uid) for y in x[2]):
                return True
        return False

    @staticmethod
    def failure(c):
        return any(x[0] == "call" for x in pyx.subterms(c)) and c[0] in ("call", "not", "op", "phi", "ite", "item", "is")

    # ---- kept for the last sample only
    def overwritten(self):
        kept = {}                             # (class, attribute) -> (axis, event)
        for f in self.p.own_funcs():
            if f.cls is None:
                continue
            for e in self.p.events(f):
                if e.kind == "store_attr" and e.t[0] == ("self",) and e.loops and e.t[2] != ("c", None):
                    for it, node in e.loops:
                        a = self.s.first(it, f, self.ctx(e), ())
                        uid = (node.lineno, node.col_offset)
                        if a and len(a) == 1 and a <= SAMPLE and not any(self.depends(c, uid) for c, _ in e.conds):
                            kept.setdefault((f.cls.qual, e.t[1]), []).append((a, e))
        for (c, n), l in list(kept.items()):
            if any(e.t[2] != ("c", None) and not any(x is e for _, x in l) for e in self.p.attr_stores(self.p.classes[c]).get(n, [])):
                del kept[c, n]
        self.R.count("attributes kept anew for every sample", len(kept))
        for f in self.p.own_funcs():
            for e in self.p.events(f):
                if e.kind != "call" or not e.loops:
                    continue
                args = list(e.t[2]) + [v for _, v in e.t[3]]
                for it, node in e.loops:
                    uid = (node.lineno, node.col_offset)
                    if not any(isinstance(x, tuple) and (x[0] in ("elem", "idx") and x[-1] == uid or x[0] == "item" and x[2][0] == "elem" and x[2][-1] == uid) for x in args):
                        continue
                    a = self.s.first(it, f, self.ctx(e), ())
                    for x in args:
                        if not isinstance(x, tuple) or self.depends(x, uid):
                            continue
                        y = x
                        while y[0] == "sub":
                            y = y[1]
                        o = y[1] if y[0] == "attr" else y[1][1] if y[0] == "call" and y[1][0] == "attr" and not y[2] else None
                        if o is None:
                            continue
                        for bt in self.p.typeof(o, f):
                            if bt[0] != "inst":
                                continue
                            cl = self.p.classes[bt[1]]
                            m = self.p.member(cl, y[2] if y[0] == "attr" else y[1][2])
                            names = {z.t[2] for z in self.p.returns(m[1]) if z.t and z.t[0] == "attr" and z.t[1] == ("self",)} if m and m[0] in ("property", "method", "func") else {y[2]} if y[0] == "attr" else ()
                            for b in self.p.mro(cl):
                                for nm in names:
                                    for k, s in kept.get((getattr(b, "qual", None), nm), ()):
                                        inside = s.fn is f and any((z.lineno, z.col_offset) == uid for _, z in s.loops)
                                        if k == a and not inside:
                                            self.R.report("last-sample-for-all", self.where(e), "%s in %s" % (pyx.show(x)[:60], pyx.show(e.t[1])[:60]),
                                                          "%s is kept anew for every %s (%s:%s); here it is given for each of them, and is that of the last" % (nm, word(a), s.fn.file, s.line), e.line)

    # ---- objects a sample is set on
    def effects(self, g, seen=()):
        """(attributes read, attributes written) by a method on self, with the methods it calls."""
        if g.qual in self.fx:
            return self.fx[g.qual]
        if g.qual in seen:
            return set(), set()
        r, w = set(), set()
        for e in self.p.events(g):
            if e.kind == "load_attr" and e.t[1] == ("self",):
                m = self.p.member(g.cls, e.t[2]) if g.cls else None
                if m and m[0] == "property":
                    r2, w2 = self.effects(m[1], seen + (g.qual,))
                    r |= r2
                    w |= w2
                else:
                    r.add(e.t[2])
            elif e.kind in ("store_attr", "aug_attr") and e.t[0] == ("self",):
                w.add(e.t[1])
                st = self.p.setter(g.cls, e.t[1]) if g.cls else None
                if st is not None:
                    r2, w2 = self.effects(st, seen + (g.qual,))
                    r |= r2
                    w |= w2
            elif e.kind in ("store_sub", "aug_sub"):
                b = e.t[0]
                while b[0] in ("sub", "item"):
                    b = b[1] if b[0] == "sub" else b[2]
                if b[0] == "attr" and b[1] == ("self",):
                    w.add(b[2])
            elif e.kind == "call":
                for x in self.changed_args(e, g):
                    if x[0] == "attr" and x[1] == ("self",):
                        w.add(x[2])           # may be filled by the callee
                if e.t[1][0] == "attr" and (e.t[1][1] == ("self",) or "super" in pyx.show(e.t[1][1])[:6]):
                    for h, _ in self.p.targets(e.t[1], g)[0]:
                        r2, w2 = self.effects(h, seen + (g.qual,))
                        r |= r2
                        w |= w2
        if not seen:
            self.fx[g.qual] = (r, w)
        return r, w

    def changed_args(self, e, g):
        if self.summ is None:
            self.summ = mutate.summaries(self.p, self.p.own_funcs())
        tg, full = self.p.targets(e.t[1], g)
        if not tg or not full:
            return [x for x in list(e.t[2]) + [v for _, v in e.t[3]] if isinstance(x, tuple)]
        out = []
        for h, ctor in tg:
            d, errs, exact = self.p.bind(h, e.t[2], e.t[3], self.p.is_unbound(e.t[1], g, h))
            out += [x for n, x in d.items() if isinstance(x, tuple) and n in self.summ.get(h, self.summ.get(h.qual, ()))]
        return out

    def callees(self, g, seen=None):
        seen = seen if seen is not None else set()
        for e in self.p.events(g):
            if e.kind == "call" and e.t[1][0] == "attr" and (e.t[1][1] == ("self",) or "super" in pyx.show(e.t[1][1])[:6]):
                for h, _ in self.p.targets(e.t[1], g)[0]:
                    if h.qual not in seen:
                        seen.add(h.qual)
                        self.callees(h, seen)
        return seen

    def reads_writes(self, e, o, f):
        """Effects of an event on object o: (reads, writes, whether it is a call)."""
        r, w = set(), set()
        if e.kind == "call" and e.t[1][0] == "attr" and e.t[1][1] == o:
            for h, _ in self.p.targets(e.t[1], f)[0]:
                a, b = self.effects(h)
                r |= a
                w |= b
            return r, w
        if e.kind == "store_attr" and e.t[0] == o:
            for bt in self.p.typeof(o, f):
                if bt[0] == "inst":
                    st = self.p.setter(self.p.classes[bt[1]], e.t[1])
                    if st is not None:
                        a, b = self.effects(st)
                        r |= a
                        w |= b
            w.add(e.t[1])
            return r, w
        if e.kind == "call":
            for x in list(e.t[2]) + [v for _, v in e.t[3]]:
                if x == o:
                    return None
        return r, w

    def result(self, e, o, f):
        """Attributes behind a result read from o."""
        if e.kind == "load_attr" and e.t[1] == o:
            n = e.t[2]
        elif e.kind == "call" and e.t[1][0] == "attr" and e.t[1][1] == o:
            n = e.t[1][2]
        else:
            return None
        out = set()
        for bt in self.p.typeof(o, f):
            if bt[0] != "inst":
                continue
            m = self.p.member(self.p.classes[bt[1]], n)
            if m and m[0] in ("property", "method", "func"):
                g = m[1]
                r, w = self.effects(g)
                if w:
                    return set()              # computes something
                rs = set()
                for x in self.p.returns(g):
                    if x.t not in (None, ("c", None)):
                        at = {y[2] for y in pyx.subterms(x.t) if y[0] == "attr" and y[1] == ("self",)}
                        if not at:
                            return set()
                        rs |= at
                out |= rs
        return out

    def objects(self, f, uid, it, a, evs):
        objs = set()
        for e in evs:
            if e.kind == "store_attr" and e.t[0] != ("self",) and e.t[0][0] in ("attr", "param", "call") and self.depends(e.t[2], uid):
                objs.add(e.t[0])
            elif e.kind == "call" and e.t[1][0] == "attr" and e.t[1][1][0] in ("attr", "param", "call") and any(self.depends(x, uid) for x in e.t[2]) and e.t[1][2].startswith("set_"):
                objs.add(e.t[1][1])
        for o in sorted(objs, key=repr):
            if not any(bt[0] == "inst" for bt in self.p.typeof(o, f)):
                continue
            self.R.count("objects that samples are set on")
            sets = [e for e in evs if (e.kind == "store_attr" and e.t[0] == o and self.depends(e.t[2], uid)) or
                    (e.kind == "call" and e.t[1][0] == "attr" and e.t[1][1] == o and any(self.depends(x, uid) for x in e.t[2]) and e.t[1][2].startswith("set_"))]
            varied = set()
            for e in sets:
                varied |= self.reads_writes(e, o, f)[1]
            if any(self.reads_writes(e, o, f) is None for e in evs):
                continue                      # handed over: run elsewhere
            runs = []
            for e in evs:
                r, w = self.reads_writes(e, o, f)
                if e not in sets and w and r & varied:
                    runs.append((e, w))
            put = {y for e in evs if e.kind in ("store_sub", "aug_sub", "call") and (e.kind != "call" or e.t[1][0] == "attr" and e.t[1][2] == "append")
                   for x in ([e.t[2]] if e.kind == "store_sub" else [e.t[3]] if e.kind == "aug_sub" else e.t[2]) if isinstance(x, tuple) for y in pyx.subterms(x)}
            for e in evs:
                res = self.result(e, o, f)
                if not res or e.t not in put:
                    continue
                # does the result depend on the sample at all?
                cls = [self.p.classes[bt[1]] for bt in self.p.typeof(o, f) if bt[0] == "inst"]
                makers = set()
                for c in cls:
                    for q in self.p.mro(c):
                        if hasattr(q, "qual"):
                            for g in self.p.class_funcs(q):
                                r, w = self.effects(g)
                                if g.cls is not None and w & res and r & varied and g.name != "__init__":
                                    makers.add(g.name)
                if not makers or res & varied:
                    continue
                self.R.count("results read from them")
                mk = [x for x, w in runs if w & res]
                if not mk:
                    self.R.report("not-run-for-sample", self.where(e), "%s of %s" % (pyx.show(e.t)[:60], pyx.show(o)[:40]),
                                  "the %s is set on %s, and %s is read, which only %s computes; that is not called in the loop" % (word(a), pyx.show(o)[:40], pyx.show(e.t)[:60], ", ".join(sorted(makers)[:3])), e.line)
                elif all(x.order < min(s.order for s in sets) for x in mk) or all(x.order > e.order for x in mk):
                    self.R.report("run-before-set", self.where(e), "%s of %s" % (pyx.show(e.t)[:60], pyx.show(o)[:40]),
                                  "%s is read for this %s, but %s was run before it was set" % (pyx.show(e.t)[:60], word(a), pyx.show(o)[:40]), e.line)
            for e in sets:
                if any(self.depends(c, uid) and self.by_position(c, uid) for c, b in e.conds) and not any(x is not e and not any(self.depends(c, uid) for c, b in x.conds) for x in sets):
                    self.R.report("set-for-first-only", self.where(e), "%s of %s" % (e.kind, pyx.show(o)[:40]),
                                  "the %s is set on %s depending on its position only: results for the others are for the one set before" % (word(a), pyx.show(o)[:40]), e.line)
            # runs made depending on the position only
            for e, w in runs:
                mine = {h.qual for h, _ in self.p.targets(e.t[1], f)[0]} if e.kind == "call" else set()
                if any(x is not e and x.kind == "call" and mine <= set().union(*[self.callees(h) for h, _ in self.p.targets(x.t[1], f)[0]] or [set()])
                       and not [1 for c, b in x.conds if self.depends(c, uid)] for x, _ in runs):
                    continue                  # another run of this loop makes up for it
                conds = [(c, b) for c, b in e.conds if self.depends(c, uid)]
                pos = [(c, b) for c, b in conds if self.by_position(c, uid)]
                self.R.count("runs for samples")
                if pos and e.kind == "call":
                    self.R.report("run-for-first-only", self.where(e), "%s" % pyx.show(e.t)[:80],
                                  "%s is skipped depending on the position of the %s only (%s), and depends on the %s set" % (pyx.show(e.t)[:60], word(a), pyx.show(pos[0][0])[:80], word(a)), e.line)

    def by_position(self, c, uid):
        return any(x[0] in ("idx", "rng") and x[-1] == uid for x in pyx.subterms(c)) and not any(x[0] == "elem" and x[-1] == uid for x in pyx.subterms(c)) and not self.sampled(c, uid)

    def sampled(self, c, uid):
        """The condition looks up something by the position."""
        return any(x[0] == "sub" and self.depends(x[2], uid) for x in pyx.subterms(c))

    def fixed(self, f, uid, a, evs):
        """Inside the loop a sampled axis of the same kind is taken at a fixed position."""
        for e in evs:
            if len(a) > 1 or any(self.depends(c, uid) for c, _ in e.conds):
                continue
            if e.kind == "load_sub":
                b, i = e.extra
            elif e.kind in ("store_sub", "aug_sub"):
                b, i = e.t[0], e.t[1]
            else:
                continue
            self.position(e, b, i, a, "in the loop over %ss" % word(a))

    def position(self, e, b, i, a, why):
        v = self.s.val(b, e.fn, self.ctx(e))
        if v is U:
            v = ((self.s.named(b),), False, None)
        for k, (kind, y) in enumerate(self.s.slots(i)):
            if kind == "stop" or k >= len(v[0]):
                break
            if v[0][k] == a:
                self.R.count("sampled positions examined")
                if kind == "int" and y[0] == "c" and isinstance(y[1], int):
                    self.R.report("fixed-sample", self.where(e), "%s of %s" % (pyx.show(i)[:60], pyx.show(b)[:80]),
                                  "%s, %s[%s] is taken at position %s for all of them" % (why, pyx.show(b)[:60], pyx.show(i)[:40], y[1]), e.line)

    def given(self):
        """Functions given the position of a sample."""
        for f in self.p.own_funcs():
            kinds = {}
            for n in f.params + f.kwonly:
                v = self.s.val(("param", n), f, self.s.entry(f))
                k = v[2] if v is not U and v[1] and not v[0] else None
                if k is None:
                    k = next((frozenset.intersection(*d) for d in [self.need.get(("p", f.qual, n))] if d), None)
                if k and len(k) == 1 and k <= SAMPLE:
                    kinds[n] = k
            for e in self.p.events(f) if kinds else ():
                if e.kind == "load_sub":
                    b, i = e.extra
                elif e.kind in ("store_sub", "aug_sub"):
                    b, i = e.t[0], e.t[1]
                else:
                    continue
                for n, k in kinds.items():
                    if not any(x == ("param", n) for c, _ in e.conds for x in pyx.subterms(c)):
                        self.position(e, b, i, k, "with %s given as position of the %s" % (n, word(k)))


def plain_call(n):
    """A call of numpy or a builtin: its result depends on its arguments alone."""
    t = ast.unparse(n.func)
    return t.split(".")[0] in ("np", "numpy", "print", "len", "range", "enumerate", "zip", "min", "max", "int", "float", "list", "tuple")


def base_of(t):
    while isinstance(t, (ast.Subscript, ast.Starred)):
        t = t.value
    return t


def mentions(n, names):
    return any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in names for x in ast.walk(n))


def run(R):
    R.explanation = ("Kinds of axes are inferred over the whole package; loops over sampled axes are examined with the conditions of every statement in them. "
                     "A report needs both kinds to be known, or the object's methods that compute a result to be known.")
    R.assumptions = ["A count of all bands counts the chosen bands too when arrays made for the chosen bands are walked with it.",
                     "Objects handed to another function inside a loop may be run there."]
    A = Axes(R)
    A.infer()
    A.values()
    A.zips()
    A.exchanged()
    A.pinned()
    A.settled()
    A.leaked()
    A.regardless()
    A.loops()
    A.given()
    A.overwritten()
    R.require("loops over samples", 40)
    R.require("objects that samples are set on", 3)
