"""Integer polynomials over symbols, with ranges and a small non-negativity prover."""


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def isconst(self):
        return not self.t or list(self.t) == [()]

    def c(self):
        return self.t.get((), 0)

    def syms(self):
        return {s for m in self.t for s in m}

    def split(self, s):
        """(A,B) with self = A*s + B, or None if degree in s exceeds 1."""
        a, b = {}, {}
        for m, c in self.t.items():
            k = m.count(s)
            if k == 0:
                b[m] = c
            elif k == 1:
                l = list(m)
                l.remove(s)
                a[tuple(l)] = c
            else:
                return None
        return Poly(a), Poly(b)

    def subst(self, s, p):
        if s not in self.syms():
            return self
        r = Poly()
        for m, c in self.t.items():
            q = Poly.const(c)
            for x in m:
                q = q * (p if x == s else Poly.sym(x))
            r = r + q
        return r

    def divexact(self, k):
        """Divide by an integer constant if exact."""
        if all(c % k == 0 for c in self.t.values()):
            return Poly({m: c // k for m, c in self.t.items()})
        return None

    def divpoly(self, d):
        """Quotient if d divides self exactly (single-term divisors only)."""
        if len(d.t) != 1:
            return Poly.const(1) if self == d else None
        (dm, dc), = d.t.items()
        out = {}
        for m, c in self.t.items():
            l = list(m)
            for x in dm:
                if x in l:
                    l.remove(x)
                else:
                    return None
            if c % dc:
                return None
            out[tuple(l)] = c // dc
        return Poly(out)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            out.append("*".join([str(c)] * (c != 1 or not m) + [str(x) for x in m]))
        return " + ".join(out)


def P(x):
    return x if isinstance(x, Poly) else Poly.const(x)


class Ctx:
    """Symbol facts: loop ranges (lo, hi inclusive) and lower bounds of the others."""

    def __init__(self):
        self.range = {}      # loop symbol -> (lo Poly, hi Poly)
        self.order = []      # loop symbols in nesting order (outer first)
        self.lo = {}         # symbol -> integer lower bound
        self.facts = []      # polys known to be >= 0

    def nonneg(self, p, depth=0):
        """Prove p >= 0 for all admissible values of the symbols."""
        p = P(p)
        if self._nn(p):
            return True
        if depth < 2:
            for f in self.facts:
                if f.syms() & p.syms() and self.nonneg(p - f, depth + 1):
                    return True
        return False

    def _nn(self, p):
        # eliminate ranged symbols, innermost first
        todo = [s for s in reversed(self.order) if s in p.syms()]
        for s in todo:
            if s not in p.syms():
                continue
            ab = p.split(s)
            if ab is None:
                # higher degree: shift to the lower bound if that is a constant
                lo, hi = self.range[s]
                if lo.isconst():
                    continue
                return False
            a, b = ab
            lo, hi = self.range[s]
            if self._known(a):
                p = a * lo + b
            elif self._known(-a):
                p = a * hi + b
            else:
                return False
            # newly exposed outer symbols are handled by later turns
        for s in list(p.syms()):
            lo = self.lo.get(s)
            if lo is None and s in self.range and self.range[s][0].isconst():
                lo = self.range[s][0].c()
            if lo is None:
                return False
            p = p.subst(s, Poly.sym(s) + lo)
        return all(c >= 0 for c in p.t.values())

    def _known(self, a):
        if a.isconst():
            return a.c() >= 0
        return self._nn(a)

    def bound(self, p, syms, want_max):
        """Replace the given ranged symbols by the end of their range that maximises/minimises p; None if unclear."""
        for s in reversed(self.order):
            if s not in syms or s not in p.syms():
                continue
            ab = p.split(s)
            if ab is None:
                return None
            a, b = ab
            lo, hi = self.range[s]
            if self._known(a):
                p = a * (hi if want_max else lo) + b
            elif self._known(-a):
                p = a * (lo if want_max else hi) + b
            else:
                return None
        return p
