"""Disjointness of the memory touched by different iterations of a parallel loop."""
from poly import Poly, P, Ctx
import csym

# Index arrays whose entries are pairwise distinct (or rows belonging to distinct grid points); a write
# addressed through them from different iterations therefore goes to different places.
# (function containing the loop, name of index array): reason
DISTINCT = {}


def parallel_syms(lp):
    return set(lp.digits)


def weight(p, cache):
    """Numeric value of a stride for sorting (random large distinct dims)."""
    import hashlib
    tot = 0
    for m, c in p.t.items():
        v = c
        for s in m:
            if s not in cache:
                cache[s] = 7 + int(hashlib.md5(repr(s).encode()).hexdigest()[:4], 16) % 90
            v *= cache[s]
        tot += v
    return tot


def images(off, psyms, distinct):
    """Rewrite opaque reads that are injective images of the parallel counter into one fresh symbol."""
    subs = {}
    for s in off.syms():
        if s in psyms or s[0] != "k":
            continue
        inner = set()
        stack = [s]
        polys = [x for x in s if isinstance(x, Poly)]
        for q in polys:
            inner |= q.syms()
        if inner & psyms:
            subs[s] = s
    return subs


class Checker:
    def __init__(self, ex, lp, distinct):
        self.ex, self.lp, self.distinct = ex, lp, distinct
        self.ctx = ex.ctx
        self.ps = parallel_syms(lp)

    def ctx_with(self, facts):
        c = Ctx()
        c.range, c.order, c.lo = dict(self.ctx.range), list(self.ctx.order), dict(self.ctx.lo)
        c.facts = list(facts)
        return c

    def distinct_name(self, sym):
        """If sym is an opaque read base[off] from a table declared distinct, its printable name."""
        if sym[0] == "k" and sym[1] == "ld":
            nm = self.ex.bases.get(sym[2], {}).get("name", "?")
            return nm
        return None

    def prepare(self, a):
        """offset with injective images replaced; set of parallel-like symbols in it, or None if a symbol
        depends on the parallel counter in an uncontrolled way."""
        off = a.off
        ps = set()
        for s in list(off.syms()):
            if s in self.ps:
                ps.add(s)
            elif s[0] == "k":
                dep = set()
                for q in s:
                    if isinstance(q, Poly):
                        dep |= self.deep(q)
                if dep & self.ps:
                    nm = self.distinct_name(s)
                    if nm in self.distinct:
                        ps.add(s)
                    else:
                        return None
            elif s[0] == "o":
                # value computed in the loop body: may depend on the iteration
                return None
        return ps

    def deep(self, q):
        out = set()
        for s in q.syms():
            out.add(s)
            if s[0] == "k":
                for x in s:
                    if isinstance(x, Poly):
                        out |= self.deep(x)
        return out

    def inner_range(self, s):
        if s in self.ctx.range:
            return self.ctx.range[s]
        return None

    def rng(self, s):
        r = self.ctx.range.get(s)
        return r

    def disjoint(self, w, a):
        """None if iterations are provably disjoint for the pair (w,a); otherwise a reason."""
        pw, pa = self.prepare(w), self.prepare(a)
        if pw is None or pa is None:
            return "address is not a known function of the loop counter"
        c = self.ctx_with([f for f in w.facts if f in a.facts])
        if not pw or not pa:
            return "the same location is touched by every iteration"
        if pw != pa:
            return "the two accesses are addressed by different counters"
        # split into strides
        sw = w.size if isinstance(w.size, (int, Poly)) else None
        sa = a.size if isinstance(a.size, (int, Poly)) else None
        if sw is None or sa is None:
            return "extent of the access is unknown"
        strides = {}
        rest_w, rest_a = w.off, a.off
        for s in pw:
            x, y = rest_w.split(s), rest_a.split(s)
            if x is None or y is None:
                return "address is not linear in the loop counter"
            if x[0] != y[0]:
                return "the two accesses use different strides (%s and %s) for the loop counter" % (x[0], y[0])
            if x[0].syms() & (pw | {q for q in x[0].syms() if q[0] == "i"}):
                # stride itself depends on a counter
                if any(q in self.ps or q[0] == "i" for q in x[0].syms()):
                    return "address is not linear in the loop counters"
            strides[s] = x[0]
            rest_w, rest_a = x[1], y[1]
        # inner symbols
        inner = sorted({s for s in rest_w.syms() | rest_a.syms() if s[0] == "i" and s not in pw}, key=repr)
        cache = {}
        terms_w, base_w = self.linear(rest_w, inner)
        terms_a, base_a = self.linear(rest_a, inner)
        if terms_w is None or terms_a is None:
            # non-linear inner part: bound it as a whole
            terms_w, base_w, terms_a, base_a = {}, rest_w, {}, rest_a
        minp = min(weight(s, cache) for s in strides.values())
        # inner symbols with larger stride than the smallest parallel stride must be the same dimension in both
        big = []
        low_w, low_a = base_w, base_a
        for s, t in terms_w.items():
            if weight(t, cache) > minp and not t.isconst() or (t.isconst() and weight(t, cache) > minp):
                big.append((s, t, "w"))
            else:
                low_w = low_w + t * Poly.sym(s)
        for s, t in terms_a.items():
            if weight(t, cache) > minp:
                big.append((s, t, "a"))
            else:
                low_a = low_a + t * Poly.sym(s)
        syms_low = {s for s in low_w.syms() | low_a.syms() if s in self.ctx.range}
        hi_w, lo_w = c.bound(low_w, syms_low, True), c.bound(low_w, syms_low, False)
        hi_a, lo_a = c.bound(low_a, syms_low, True), c.bound(low_a, syms_low, False)
        if None in (hi_w, lo_w, hi_a, lo_a):
            return "the inner offset cannot be bounded"
        # span of one iteration's touched interval, both ways
        span1 = hi_a + sa - lo_w       # need stride >= span1
        span2 = hi_w + sw - lo_a
        # build chain: parallel strides and big inner strides in ascending order
        dims = {}
        for s, t in strides.items():
            dims.setdefault(t, [t, self.ctx.range.get(s), True])
        for s, t, _ in big:
            r = self.ctx.range.get(s)
            if r is None:
                return "range of an outer dimension is unknown"
            lo, hi = c.bound(r[0], r[0].syms(), False) or r[0], c.bound(r[1], r[1].syms(), True) or r[1]
            if t in dims and not dims[t][2]:
                if dims[t][1] != (lo, hi):
                    l0, h0 = dims[t][1]
                    lo = lo if c.nonneg(l0 - lo) else l0
                    hi = hi if c.nonneg(hi - h0) else h0
                dims[t][1] = (lo, hi)
            elif t in dims:
                return "another loop counter moves with the same stride"
            else:
                dims[t] = [t, (lo, hi), False]
        chain = sorted(dims.values(), key=lambda d: weight(d[0], cache))
        for t, r, par in chain:
            if not (c.nonneg(t - span1) and c.nonneg(t - span2)):
                return "stride %s of the %s does not cover the extent %s below it" % (
                    fmt(t), "loop counter" if par else "outer dimension", fmt(span1))
            if r is not None:
                lo, hi = r
                if lo.syms() or hi.syms():
                    lo2 = c.bound(lo, {q for q in lo.syms() if q in self.ctx.range}, False)
                    hi2 = c.bound(hi, {q for q in hi.syms() if q in self.ctx.range}, True)
                    lo, hi = (lo2 if lo2 is not None else lo), (hi2 if hi2 is not None else hi)
                span1 = span1 + t * (hi - lo)
                span2 = span2 + t * (hi - lo)
            elif (t, r, par) != tuple(chain[-1]):
                return "range of an index table is unknown"
        return None

    def linear(self, p, inner):
        terms = {}
        rest = p
        for s in inner:
            ab = rest.split(s)
            if ab is None:
                return None, None
            if any(q in inner for q in ab[0].syms()):
                return None, None
            if ab[0].t:
                terms[s] = ab[0]
            rest = ab[1]
        return terms, rest


def fmt(p):
    """Readable polynomial."""
    def nm(s):
        if s[0] == "p":
            return s[2]
        if s[0] == "i":
            return s[1]
        if s[0] == "k":
            return "%s(..)" % s[1]
        return "?" + str(s[1])
    out = []
    for m, c in sorted(p.t.items(), key=repr):
        out.append("*".join(([str(c)] if c != 1 or not m else []) + [nm(s) for s in m]))
    return " + ".join(out) or "0"


class Unknown(Exception):
    pass


class Skip(Exception):
    pass


class Model:
    """Small finite instance of the index arithmetic: every dimension gets a small value."""

    def __init__(self, ex, choice, seed):
        self.ex, self.choice, self.seed = ex, choice, seed
        self.val = {}
        self.free = set()      # unknown sizes taken as parameters
        self.enum = set()      # counters that take several values in the enumeration
        self.ones = None       # unknown counts taken as one

    def closure(self, p):
        out, todo = set(), [p]
        while todo:
            for s in todo.pop().syms():
                if s in out:
                    continue
                out.add(s)
                if s[0] == "i":
                    todo += list(self.ex.ctx.range[s])
                elif s[0] == "k":
                    todo += [q for q in s if isinstance(q, Poly)]
                elif s in self.ex.first:
                    todo.append(self.ex.most[s] if self.choice and s in self.ex.most else self.ex.first[s][1])
        return out

    def param(self, s):
        import hashlib
        t = self.ex.tie.get(s)
        if t is not None:
            return t[1] * self.param(t[0])
        h = int(hashlib.md5((repr(s) + str(self.seed)).encode()).hexdigest()[:6], 16)
        lo = self.ex.ctx.lo.get(s, 1 if s[0] == "k" else 0)
        return max(lo, 2) + h % 3 if lo >= 1 else h % 3 + lo

    def sym(self, s, loopsyms):
        if s in self.val:
            return self.val[s]
        if s[0] == "p":
            v = self.param(s)
        elif s[0] == "i":
            if s in loopsyms:
                raise Unknown(s)
            lo, hi = self.ex.ctx.range[s]
            a, b = self.ev(lo, loopsyms), self.ev(hi, loopsyms)
            if a > b:
                raise Skip()
            v = a + (self.param(s) % (b - a + 1))
        elif s[0] == "k" and s[1] in ("div", "mod"):
            a, b = self.ev(s[2], loopsyms), self.ev(s[3], loopsyms)
            if b == 0:
                raise Skip()
            return a // b if s[1] == "div" else a % b
        elif s[0] == "k" and s[1] == "alt":
            return self.ev(s[3 + self.choice % (len(s) - 3)], loopsyms)
        elif s[0] == "k" and s[1] == "sel":
            return self.ev(s[3 + self.choice % 2], loopsyms)
        elif s[0] == "o" and s in self.ex.first:
            if self.choice and s in self.ex.most:
                return self.ev(self.ex.most[s], loopsyms)
            return self.ev(self.ex.first[s][1], loopsyms)
        elif s[0] == "o" and s in self.free:
            v = 2 + self.param(s)
        elif s[0] == "k" and s[1] == "ld":
            # a value read from memory: a parameter if its address is fixed, an unknown table otherwise
            if self.closure(s[3]) & self.enum:
                raise Unknown(s)
            v = self.param(s)
        elif self.ones is not None and s in self.ones:
            v = 1
        else:
            raise Unknown(s)
        self.val[s] = v
        return v

    def ev(self, p, loopsyms):
        t = 0
        for m, c in p.t.items():
            for s in m:
                c = c * self.sym(s, loopsyms)
            t += c
        return t

    def cond(self, c, loopsyms):
        if c[0] == "float":
            return True
        if c[0] == "opq":
            raise Unknown("condition")
        if c[0] == "and":
            return all([self.cond(x, loopsyms) for x in c[1]])
        if c[0] == "or":
            return any([self.cond(x, loopsyms) for x in c[1]])
        a, b = self.ev(c[2], loopsyms), self.ev(c[3], loopsyms)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c[1]]


def direct(p):
    """Symbols of an index, not counting those of the ranges of loop counters."""
    out, todo = set(), [p]
    while todo:
        for s in todo.pop().syms() - out:
            out.add(s)
            if s[0] == "k":
                todo += [q for q in s if isinstance(q, Poly)]
    return out


def enumerate_access(ex, lp, a, choice, seed, cap=4000, extent=None, span=12, only=None, counts=None):
    """[(iteration, start, end)] of one access in a small model."""
    m = Model(ex, choice, seed)
    i0 = a.loops.index(lp) if lp is not None else 0
    pdig = lp.digits if lp is not None else []
    need = set()
    if counts:
        m.ones = counts - direct(a.off)
    firsts = []        # loops taken in their first iteration

    def close(p):
        for s in p.syms():
            if s in need:
                continue
            need.add(s)
            if s[0] == "i":
                for q in ex.ctx.range[s]:
                    close(q)
            elif s[0] == "k":
                for q in s:
                    if isinstance(q, Poly):
                        close(q)
            elif choice and s in ex.most:
                close(ex.most[s])
            elif s in ex.first:
                firsts.append(ex.first[s][0])
                close(ex.first[s][1])

    def closec(c):
        for x in c[1:]:
            if isinstance(x, Poly):
                close(x)
            elif isinstance(x, list):
                for y in x:
                    closec(y)
    close(a.off)
    if isinstance(a.size, Poly):
        close(a.size)
    conds = a.conds if only is None else only
    for c in conds:
        closec(c)
    for d in pdig:
        need.add(d)
    if extent is not None:
        close(extent)
        m.free = {s for s in m.closure(extent) if s[0] == "o" and s not in ex.first}
    inner = []
    for l in a.loops[i0:]:
        if l.sym is None:
            continue
        for d in l.digits:
            inner.append(d)
    inner = [s for s in ex.ctx.order if s in set(inner) and s in need]
    pinned = {d for l in firsts if l.sym is not None for d in l.digits}
    if pinned & set(pdig):
        raise Unknown("value carried across parallel iterations")
    m.enum = set(inner)
    tabs = []
    for s in list(need):
        if s[0] == "k" and s[1] == "ld" and s in ex.ctx.range:
            cl = m.closure(s[3])
            if cl & set(pdig):
                raise Unknown(s)
            if cl & m.enum or any(q[0] == "o" for q in cl):
                tabs.append(s)
    inner += tabs
    # counters of finished loops that still occur (through ranges of remainders) are enumerated as well
    out = []

    def deps(p):
        return p.syms()

    def rec(k, it):
        if len(out) > cap:
            return
        if k == len(inner):
            try:
                for c in conds:
                    try:
                        if not m.cond(c, inner[k:]):
                            return
                    except Unknown:
                        pass       # data-dependent guard: assumed to be able to hold in any iteration
                st = m.ev(a.off, ())
                sz = a.size if isinstance(a.size, int) else m.ev(a.size, ())
            except Skip:
                return
            out.append((tuple(it), st, st + sz, m.ev(extent, ()) if extent is not None else 0))
            return
        s = inner[k]
        lo, hi = ex.ctx.range[s]
        try:
            l, h = m.ev(lo, inner[k:]), m.ev(hi, inner[k:])
        except Skip:
            return
        vals = list(range(l, (l if s in pinned else min(h, l + span)) + 1))
        if s not in pinned and h > l + span:
            vals.append(h)
        for v in vals:
            saved = dict(m.val)
            m.val[s] = v
            rec(k + 1, it + [v] if s in pdig else it)
            m.val = saved
    rec(0, [])
    return out


def guarded_by(w, lp, m):
    """Some condition on the way to the access involves the parallel counter (it may select one iteration)."""
    def syms(c):
        out = set()
        for x in c[1:]:
            if isinstance(x, Poly):
                out |= m.closure(x)
            elif isinstance(x, list):
                for y in x:
                    out |= syms(y)
        return out
    for c in w.conds:
        if c[0] == "opq" or syms(c) & set(lp.digits) or any(s[0] == "o" for s in syms(c)):
            return True
    return False


def witness(ex, lp, w, a):
    """True: two different iterations touch the same bytes in a small model; False: no overlap found;
    None: the addresses are not determined by the index arithmetic alone."""
    if w.size is None or a.size is None:
        return None
    m = Model(ex, 0, 0)
    cw = m.closure(w.off)
    if not (cw & set(lp.digits)) and not any(s[0] == "o" for s in cw) and w.kind == "w":
        if a is w or (a.off == w.off):
            if not guarded_by(w, lp, m):
                return True
    found = False
    for seed in range(3):
        for choice in range(3):
            try:
                ew = enumerate_access(ex, lp, w, choice, seed)
                ea = enumerate_access(ex, lp, a, choice, seed) if a is not w else ew
            except Unknown as u:
                ex.last_unknown = u.args[0]
                return None
            except Skip:
                continue
            iv = sorted([(s, e, it, 1) for it, s, e, _ in ew] + [(s, e, it, 0) for it, s, e, _ in ea])
            ends = {}
            import heapq
            act = []
            for s, e, it, iw in iv:
                act = [x for x in act if x[0] > s]
                if any(x[1] != it and (x[2] or iw) for x in act):
                    return True
                act.append((e, it, iw))
    return found


def out_of_bounds(ex, a, extent):
    """A small instance in which the access leaves the object (True), none found (False), unknown (None)."""
    if a.size is None:
        return None
    for seed in range(6):
        for choice in range(3):
            try:
                pts = enumerate_access(ex, None, a, choice, seed, extent=extent)
            except Unknown as u:
                ex.last_unknown = u.args[0]
                return None
            except Skip:
                continue
            for it, s, e, ext in pts:
                if s < 0 or e > ext:
                    return True
    return False


def check_loop(ex, lp, distinct):
    """[(base name, fn, line, txt, reason)] for unproven pairs of one parallel loop."""
    ck = Checker(ex, lp, distinct)
    by = {}
    for a in ex.accs:
        if lp in a.loops:
            if lp in ex.bases.get(a.base, {}).get("local", []):
                continue
            by.setdefault(a.base, []).append(a)
    out, pairs = [], 0
    for base, al in by.items():
        ws = [a for a in al if a.kind == "w" and not a.atomic]
        if not ws:
            continue
        uniq = {}
        for a in al:
            uniq.setdefault((a.kind, a.off, repr(a.size)), a)
        seen = set()
        for w in ws:
            kw = (w.off, repr(w.size))
            if kw in seen:
                continue
            seen.add(kw)
            for k, a in uniq.items():
                if a.atomic:
                    continue
                pairs += 1
                r = ck.disjoint(w, a)
                if r is not None:
                    wt = witness(ex, lp, w, a)
                    out.append((base, ex.bases.get(base, {}).get("name", "?"), w, a, r, wt))
                    if wt:
                        break
    return out, pairs
