"""P04: extents of scratch buffers and fixed arrays, one row-major layout per flat array."""
import cfront, csym, race, p02
from common import Broken
from poly import P, Poly, Ctx


def strides(ex, a):
    """({counter: stride}, rest) for addresses linear in the loop counters, else None."""
    out, rest = {}, a.off
    for s in list(a.off.syms()):
        if s in ex.ctx.range and s[0] == "i":
            ab = rest.split(s)
            if ab is None or any(q in ex.ctx.range and q[0] == "i" for q in ab[0].syms()):
                return None
            if ab[0].t:
                out[s] = ab[0]
            rest = ab[1]
    m = race.Model(ex, 0, 0)
    if any(q in out for q in m.closure(rest)):
        return None
    return out, rest


def injective(ex, st):
    """Do different counter tuples address different places (small instance)?  None: not decidable."""
    syms = [s for s in ex.ctx.order if s in st]
    for seed in range(2):
        m = race.Model(ex, 0, seed)
        seen = {}

        def rec(k, acc, off):
            if k == len(syms):
                if seen.setdefault(off, acc) != acc:
                    return False
                return True
            lo, hi = ex.ctx.range[syms[k]]
            left = syms[k:]
            l, h = m.ev(lo, left), m.ev(hi, left)
            for v in range(l, min(h, l + 8) + 1):
                sv = dict(m.val)
                m.val[syms[k]] = v
                ok = rec(k + 1, acc + (v,), off + v * m.ev(st[syms[k]], ()))
                m.val = sv
                if not ok:
                    return False
            return True
        try:
            if not rec(0, (), 0):
                return False
        except (race.Unknown, race.Skip):
            return None
    return True


def unify(ex):
    """Interface contract: number of bands = 3 x number of primitive atoms (frequencies.dims[1], multi_dims[1])."""
    syms = set()
    for a in ex.accs:
        for p in (a.off, a.size):
            if isinstance(p, Poly):
                syms |= p.syms()
    for b in ex.bases.values():
        if isinstance(b.get("extent"), Poly):
            syms |= b["extent"].syms()

    def at(s, frag):
        return s[0] == "k" and s[1] == "ld" and isinstance(s[3], Poly) and s[3] in (P(8), P(4)) and frag(s[2])
    nb = [s for s in syms if at(s, lambda b: b[0] == "field" and b[2] == "dims" and b[1][0] == "param"
                                and "frequencies" in b[1][2])]
    na = [s for s in syms if at(s, lambda b: b[0] == "param" and "multi" in b[2])]
    if len(nb) == 1 and len(na) == 1:
        sub = Poly.sym(na[0]) * 3
        for a in ex.accs:
            a.off = a.off.subst(nb[0], sub)
            if isinstance(a.size, Poly):
                a.size = a.size.subst(nb[0], sub)
            a.facts = [f.subst(nb[0], sub) for f in a.facts]
        for b in ex.bases.values():
            if isinstance(b.get("extent"), Poly):
                b["extent"] = b["extent"].subst(nb[0], sub)
        for s, (lo, hi) in list(ex.ctx.range.items()):
            ex.ctx.range[s] = (lo.subst(nb[0], sub), hi.subst(nb[0], sub))
        return 1
    return 0


def label(ex, base):
    if base[0] == "heap":
        return "heap block of %s" % base[2]
    return "'%s'" % ex.bases.get(base, {}).get("name", "?")


def run(R):
    R.explanation = ("Symbolic execution of every kernel with callees inlined (see P02). For each access to heap memory "
                     "allocated in the kernel, to fixed-size local and static arrays and to each fixed dimension of an "
                     "array type the inequalities 0 <= offset and offset + size <= extent are proved from loop ranges, "
                     "guards and parameter signs; an access is reported when a small instance of the index arithmetic "
                     "leaves the extent. For every flat array (parameters included) the address must be injective in "
                     "the loop counters it uses, and the symbolic strides used by all accesses of one kernel must form "
                     "a divisibility chain (one row-major shape).")
    R.assumptions = ["sizes are at least 1 and indices at least 0 on entry",
                     "values read from index tables given by the caller are valid indices (counted as undecided)",
                     "number of bands = 3 x number of primitive atoms"]
    for cfg in ("default",):
        p = cfront.load(cfg)
        for f in p02.roots(p):
            ex = csym.Exec(p, want_dims=True)
            try:
                ex.run_root(f)
            except csym.Abort as e:
                raise Broken("%s: %s" % (f.name, e))
            R.count("kernel entry points (%s)" % cfg)
            unify(ex)
            seen = set()
            for a in ex.accs:
                ext = P(a.par) if a.kind == "d" else ex.bases.get(a.base, {}).get("extent")
                if ext is None:
                    continue
                k = (a.kind == "d", a.base, a.off, repr(a.size), a.line, a.fn.name)
                if k in seen:
                    continue
                seen.add(k)
                R.count("bounded accesses")
                if a.size is None:
                    R.count("accesses through external calls (size not modelled)")
                    continue
                c = Ctx()
                c.range, c.order, c.lo, c.facts = ex.ctx.range, ex.ctx.order, ex.ctx.lo, a.facts
                if c.nonneg(a.off) and c.nonneg(ext - a.off - P(a.size)):
                    R.count("accesses proved in bounds")
                    continue
                if race.out_of_bounds(ex, a, ext):
                    R.report("extent", a.fn.file, "%s: access to %s" % (a.fn.name, label(ex, a.base)),
                             "'%s' leaves the extent %s (offset %s)" % (a.txt[:70], race.fmt(ext), race.fmt(a.off)),
                             a.line)
                else:
                    R.undecided.append("%s:%s %s" % (a.fn.name, a.line, a.txt[:60]))
            by = {}
            for a in ex.accs:
                if a.kind == "d" or a.size is None:
                    continue
                r = strides(ex, a)
                if r is not None and r[0]:
                    by.setdefault(a.base, []).append((a, r[0]))
            done = set()
            for base, l in by.items():
                chain = []
                for a, st in l:
                    k = (a.fn.name, a.line, tuple(sorted(map(repr, st.items()))))
                    if k in done:
                        continue
                    done.add(k)
                    R.count("flat addresses checked for injectivity")
                    if len(st) > 1 and injective(ex, st) is False:
                        R.report("aliasing-index", a.fn.file, "%s: index of %s" % (a.fn.name, label(ex, base)),
                                 "different counter values address the same element in '%s' (%s)" % (
                                     a.txt[:70], race.fmt(a.off)), a.line)
                    for t in st.values():
                        if len(t.t) == 1 and t.syms() and all(s[0] in "po" or s[0] == "k" and s[1] == "ld"
                                                              for s in t.syms()):
                            if all(t != q[0] for q in chain):
                                chain.append((t, a))
                for i in range(len(chain)):
                    for j in range(i):
                        t, u = chain[i][0], chain[j][0]
                        R.count("stride pairs compared")
                        if not divides(t, u) and not divides(u, t):
                            a, b = chain[i][1], chain[j][1]
                            R.report("layout", a.fn.file, "%s/%s: layout of %s" % (
                                a.fn.name, b.fn.name, label(ex, base)),
                                "strides %s (line %s) and %s (%s line %s) cannot belong to one row-major shape" % (
                                    race.fmt(t), a.line, race.fmt(u), b.fn.name, b.line), a.line)
    R.require("bounded accesses", 10000)
    R.require("kernel entry points (default)", 60)
    if R.counts["accesses proved in bounds"] < 0.7 * R.counts["bounded accesses"]:
        raise Broken("only %d of %d accesses could be decided" % (R.counts["accesses proved in bounds"],
                                                                 R.counts["bounded accesses"]))


def divides(t, u):
    """u is t times something, ignoring constant factors (record sizes)."""
    (tm, _), = t.t.items()
    (um, _), = u.t.items()
    l = list(um)
    for x in tm:
        if x not in l:
            return False
        l.remove(x)
    return True
