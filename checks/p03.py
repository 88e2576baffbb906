"""P03: grid, triplet and index arithmetic stays in 64 bits (integer width and magnitude analysis of the typed C AST; element types of index arrays in Python).

For every integer variable, parameter, structure field, array and function result of the C sources and of the binding layer a bound of the magnitude is computed as a fixpoint over all stores and calls (constants, counters of loops with constant bounds, tests; anything that comes from a parameter of an entry point, from a shape or from a 64-bit array has no bound). Reported are: a conversion of a value without bound to a type of less than 64 bits, a product evaluated in less than 64 bits of which a factor has no bound, a counter narrower than 64 bits that is advanced in a loop without bound, and an integer buffer reinterpreted with another element width. Arguments of LAPACK and values that are only compared with constants are exempt. In Python, arrays that hold grid points, triplets, mappings or weights, and integer arrays handed to kernels, must not be converted to a narrower type, nor may elements of narrower arrays be multiplied with each other to make an offset."""
import re
import cfront
from cfront import strip, callee, args, src
from common import Broken

BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "_Bool": 8, "bool": 8, "int64_t": 64, "size_t": 64, "uint64_t": 64, "int32_t": 32, "uint32_t": 32, "int16_t": 16, "int8_t": 8, "uint8_t": 8, "uint16_t": 16, "lapack_int": 32, "ptrdiff_t": 64, "ssize_t": 64, "Py_ssize_t": 64}
CAP = 1 << 40
EXTOK = re.compile(r"^(LAPACKE?_|cblas_|omp_|d[a-z]+_$|z[a-z]+_$)")


def bits(t):
    t = re.sub(r"\b(const|volatile|restrict)\b", "", t or "").strip()
    if t.startswith("enum"):
        return 32
    return BITS.get(re.sub(r"\s+", " ", t))


def pointee(t):
    t = re.sub(r"\b(const|volatile|restrict|__restrict)\b", "", t or "").strip()
    m = re.match(r"^(.*?)\s*\(\*\)\s*(\[\d+\])*$", t)
    if m:
        return re.sub(r"\[\d+\]", "", m.group(1)).strip()
    if t.endswith("*"):
        return t[:-1].strip()
    m = re.match(r"^(.*?)\s*(\[\d*\])+$", t)
    return m.group(1).strip() if m else None


class Width:
    def __init__(self, prog, wrappers, entry):
        self.prog = prog
        self.funcs = []
        for f in prog.all_funcs():
            self.funcs.append((f, f.file))
        for k, tu in wrappers.items():
            for f in tu.funcs.values():
                self.funcs.append((f, tu.file))
        self.entry = entry
        self.name_of = {}
        self.byfn = {}
        for f, _ in self.funcs:
            self.byfn.setdefault(f.name, []).append(f)
        self.stores = {}     # cell -> [(kind, node, loops, fn)]
        self.decl = {}       # cell -> (name, type, line, fn)
        self.casts = []      # (node, fn, parents)
        self.mults = []
        self.reint = []
        self.calls = {}
        self.uses = {}       # cell -> [(kind, ...)]
        self.rets = {}
        for f, file in self.funcs:
            if f.body is None:
                continue
            for i, (n, t, pid) in enumerate(f.params):
                self.decl[("v", pid)] = (n, t, f.line, f)
            self.visit(f.body, f, (), ())
        # parameters of functions called inside
        for name, sites in self.calls.items():
            for g in self.byfn.get(name, ()):
                for (n, f, loops) in sites:
                    if g.static and g.file != f.file:
                        continue
                    for (pn, pt, pid), a in zip(g.params, args(n)):
                        self.stores.setdefault(("v", pid), []).append(("=", a, loops, f))
        self.bound = {}
        self.solve()

    # -- collection
    def cell(self, n):
        n = strip(n)
        while n is not None and n.k in ("ArraySubscriptExpr",) or n is not None and n.k == "UnaryOperator" and n.op == "*":
            n = strip(n.kids[0])
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.refk in ("VarDecl", "ParmVarDecl"):
            return ("v", n.ref)
        if n.k == "MemberExpr":
            b = n.kids[0]
            t = re.sub(r"\b(const|struct|volatile)\b|\*", "", (b.t or "")).strip() if b is not None else ""
            return ("f", t, n.name)
        return None

    def visit(self, n, f, loops, par):
        if n is None:
            return
        k = n.k
        if k == "VarDecl":
            c = ("v", n.id)
            self.decl[c] = (n.name, n.t, n.line, f)
            init = [x for x in n.kids if x is not None and not x.k.endswith("Attr")]
            for x in init:
                if x.k == "InitListExpr":
                    for y in x.walk():
                        if y.k != "InitListExpr":
                            self.stores.setdefault(c, []).append(("=", y, loops, f))
                else:
                    self.stores.setdefault(c, []).append(("=", x, loops, f))
        elif k == "BinaryOperator" and n.op == "=":
            c = self.cell(n.kids[0])
            if c:
                self.stores.setdefault(c, []).append(("=", n.kids[1], loops, f))
        elif k == "CompoundAssignOperator":
            c = self.cell(n.kids[0])
            if c:
                self.stores.setdefault(c, []).append((n.op, n.kids[1], loops, f))
            self.mults.append((n, f, par))
        elif k == "UnaryOperator" and n.op in ("++", "--"):
            c = self.cell(n.kids[0])
            if c:
                self.stores.setdefault(c, []).append((n.op, None, loops, f))
        elif k == "UnaryOperator" and n.op == "&":
            c = self.cell(n.kids[0])
            if c:
                self.uses.setdefault(c, []).append(("addr", par))
        elif k == "CallExpr":
            nm = callee(n)
            if nm:
                self.calls.setdefault(nm, []).append((n, f, loops))
        elif k == "ReturnStmt" and n.kids:
            self.rets.setdefault(id(f), []).append(n.kids[0])
        if k == "BinaryOperator" and n.op in ("*", "<<"):
            self.mults.append((n, f, par))
        if k in cfront.CASTS and n.op in ("IntegralCast", "FloatingToIntegral"):
            self.casts.append((n, f, par, loops))
        if k in cfront.CASTS and n.op == "BitCast" and n.kids:
            self.reint.append((n, f, par))
        if k == "DeclRefExpr" and n.refk in ("VarDecl", "ParmVarDecl"):
            self.uses.setdefault(("v", n.ref), []).append(("use", par + (n,)))
        inner = loops + (n,) if k in ("ForStmt", "WhileStmt", "DoStmt") else loops
        for c in n.kids:
            if k == "ForStmt" and c is n.kids[0]:
                self.visit(c, f, loops, par + (n,))
            else:
                self.visit(c, f, inner, par + (n,))

    # -- bounds (None: no bound)
    def solve(self):
        cells = set(self.stores) | set(self.decl)
        self.bound = {}
        for c in cells:
            self.bound[c] = 0
        for rnd in range(60):
            changed = False
            for c in cells:
                b = self.cellbound(c)
                if b is not None and b > CAP:
                    b = None
                if b != self.bound[c] and self.bound[c] is not None:
                    if rnd > 25 and b is not None:
                        b = None
                    self.bound[c] = b
                    changed = True
            if not changed:
                break

    def cellbound(self, c):
        d = self.decl.get(c)
        if d:
            t = d[1]
            w = bits(t)
            if w is None:
                w = bits(pointee(t) or "") or bits(re.sub(r"[\[\]\d* ]", "", re.sub(r"\b(const)\b", "", t)))
            if w is not None and w <= 8:
                return 128
        st = self.stores.get(c, [])
        if c[0] == "v" and d:
            f = d[3]
            if any(p[2] == c[1] for p in f.params):
                if not f.static or not st:
                    if not st or f.name in self.entry:
                        return None
                p = [p for p in f.params if p[2] == c[1]][0]
                if pointee(p[1]):
                    # contents of the pointed-to array come from the callers
                    pass
        if any(u[0] == "addr" and self.escapes(c, u[1]) for u in self.uses.get(c, ())):
            return None
        if not st:
            return None if c[0] == "f" or d and (pointee(d[1]) or not bits(d[1])) else 0
        base, grow = 0, 0
        for op, rhs, loops, f in st:
            if op == "=":
                if rhs is not None and self.selfref(c, rhs):
                    g = self.selfstep(c, rhs)
                    if g is None:
                        return None
                    t = self.trips(c, loops)
                    if t is None:
                        return None
                    grow += g * t
                    continue
                b = self.b(rhs)
                if b is None:
                    return None
                base = max(base, b)
            elif op in ("++", "--", "+=", "-="):
                s = 1 if rhs is None else self.b(rhs)
                if s is None:
                    return None
                if op == "--":
                    t = self.trips(c, loops)
                    if t is None and any(self.guards(c, l, (">", ">=")) for l in loops):
                        t = 1
                else:
                    t = self.trips(c, loops)
                if t is None:
                    return None
                grow += s * t
            elif op in ("%=", "&=", "/=", ">>="):
                continue
            else:
                return None
        return base + grow

    def escapes(self, c, par):
        """Is the address handed to a function that may store to it?"""
        for p in reversed(par):
            if p.k == "CallExpr":
                return True
            if p.k in ("BinaryOperator", "VarDecl"):
                return True
        return False

    def selfref(self, c, n):
        return any(x.k == "DeclRefExpr" and ("v", x.ref) == c for x in n.walk()) if c[0] == "v" else False

    def selfstep(self, c, n):
        n = strip(n)
        if n is not None and n.k == "BinaryOperator" and n.op in ("+", "-"):
            l, r = strip(n.kids[0]), strip(n.kids[1])
            for a, o in ((l, r), (r, l)):
                if a.k == "DeclRefExpr" and ("v", a.ref) == c and not self.selfref(c, o):
                    return self.b(o)
        if n is not None and n.k in ("BinaryOperator",) and n.op in ("%", "/", "&"):
            return 0
        if n is not None and n.k == "UnaryOperator" and n.op == "-":
            return 0
        if n is not None and n.k == "ConditionalOperator":
            return max((self.selfstep(c, x) or 0) for x in n.kids[1:])
        return None

    def guards(self, c, loop, ops=("<", "<=", "!=")):
        """Bound of the counter c in the condition of this loop."""
        cond = loop.kids[2] if loop.k == "ForStmt" and len(loop.kids) > 2 else (loop.kids[0] if loop.k == "WhileStmt" else loop.kids[-1])
        if cond is None:
            return None
        out = None
        for x in self.conj(cond):
            if x.k == "BinaryOperator" and x.op in ops + (">", ">="):
                l, r = strip(x.kids[0]), strip(x.kids[1])
                a, o, op = l, r, x.op
                if not (a.k == "DeclRefExpr" and ("v", a.ref) == c):
                    a, o = r, l
                    op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                if a.k == "DeclRefExpr" and ("v", a.ref) == c and op in ops:
                    b = self.b(o)
                    if b is not None:
                        b += 1
                        out = b if out is None else min(out, b)
        return out

    def conj(self, n):
        n = strip(n)
        if n is None:
            return
        if n.k == "BinaryOperator" and n.op == "&&":
            yield from self.conj(n.kids[0]); yield from self.conj(n.kids[1])
        else:
            yield n

    def trips(self, c, loops):
        """Largest number of times a statement under these loops runs in one call (None: no bound)."""
        n = 1
        for l in loops:
            g = self.guards(c, l) if c else None
            if g is not None:
                return g
        for l in loops:
            t = None
            cond = l.kids[2] if l.k == "ForStmt" and len(l.kids) > 2 else (l.kids[0] if l.k == "WhileStmt" else l.kids[-1])
            for x in self.conj(cond):
                if x.k == "BinaryOperator" and x.op in ("<", "<=", ">", ">=", "!="):
                    for a, o in ((x.kids[0], x.kids[1]), (x.kids[1], x.kids[0])):
                        a = strip(a)
                        cc = self.cell(a)
                        if cc and cc != c and cc[0] == "v" and self.selfmoves(cc, l):
                            b = self.b(o)
                            if x.op in (">", ">="):
                                b0 = self.bound.get(cc)
                                b = None if b is None or b0 is None else b + b0
                            if b is not None:
                                t = b + 1 if t is None else min(t, b + 1)
            if t is None:
                return None
            n *= max(t, 1)
        return n

    def selfmoves(self, c, loop):
        return any(l is loop for op, _r, ls, _f in self.stores.get(c, ()) if op != "=" or _r is not None and self.selfref(c, _r) for l in ls)

    def b(self, n):
        n0 = n
        if n is None:
            return 0
        k = n.k
        if k in cfront.CASTS:
            if not n.kids:
                return None
            w = bits(n.t)
            if n.op == "FloatingToIntegral":
                return None if w is None or w > 8 else 128
            b = self.b(n.kids[-1])
            if w is not None and w <= 8:
                return min(128 if w == 8 else b, 128) if b is None else min(b, 128)
            if n.op in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                return 1
            return b
        if k == "IntegerLiteral":
            return abs(int(n.val))
        if k == "CharacterLiteral":
            return 128
        if k == "DeclRefExpr":
            if n.refk == "EnumConstantDecl":
                return 1000
            if n.refk in ("VarDecl", "ParmVarDecl"):
                c = ("v", n.ref)
                if c not in self.bound:
                    w = bits(n.t)
                    return 128 if w is not None and w <= 8 else None
                return self.bound[c]
            return None
        if k in ("ArraySubscriptExpr", "MemberExpr") or k == "UnaryOperator" and n.op == "*":
            w = bits(n.t)
            if w is not None and w <= 8:
                return 128
            c = self.cell(n)
            return self.bound.get(c) if c else None
        if k == "UnaryOperator":
            if n.op == "!":
                return 1
            if n.op in ("-", "+", "++", "--", "~"):
                b = self.b(n.kids[0])
                return None if b is None else b + 1 if n.op != "-" else b
            return None
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return 1
            if n.op == "=":
                return self.b(n.kids[1])
            if n.op == ",":
                return self.b(n.kids[1])
            l, r = self.b(n.kids[0]), self.b(n.kids[1])
            if n.op == "%":
                return r if r is not None else l
            if n.op == "&":
                return l if r is None else r if l is None else min(l, r)
            if n.op in ("/", ">>"):
                return l
            if l is None or r is None:
                if n.op == "*" and (l == 0 or r == 0):
                    return 0
                return None
            if n.op in ("+", "-", "|", "^"):
                return l + r
            if n.op == "*":
                return l * r
            if n.op == "<<":
                return l << min(r, 60)
            return None
        if k == "ConditionalOperator":
            l, r = self.b(n.kids[1]), self.b(n.kids[2])
            return None if l is None or r is None else max(l, r)
        if k == "UnaryExprOrTypeTraitExpr":
            return 4096
        if k == "CXXMemberCallExpr":
            m = strip(n.kids[0]) if n.kids else None
            return 64 if m is not None and m.name == "ndim" else None
        if k == "CallExpr":
            nm = callee(n)
            if nm == "abs":
                return self.b(args(n)[0])
            gs = self.byfn.get(nm, ())
            if not gs:
                return None
            best = 0
            if nm in getattr(self, "_busy", ()):
                return 0
            self._busy = getattr(self, "_busy", ()) + (nm,)
            try:
                for g in gs:
                    for r in self.rets.get(id(g), ()):
                        b = self.b(r)
                        if b is None:
                            return None
                        best = max(best, b)
            finally:
                self._busy = self._busy[:-1]
            return best
        return None

    # -- exemptions
    def flag(self, par, node, seen=()):
        """Is the converted value used only for tests against constants or as an argument of LAPACK?"""
        # walk outwards through value-preserving nodes
        cur = node
        for p in reversed(par):
            if p.k in cfront.CASTS:
                cur = p
                continue
            if p.k == "CallExpr":
                nm = callee(p)
                a = args(p)
                i = next((j for j, x in enumerate(a) if x is cur), None)
                if nm is None or i is None:
                    return False
                gs = self.byfn.get(nm, ())
                if not gs:
                    return bool(EXTOK.match(nm))
                return all(i < len(g.params) and self.flagcell(("v", g.params[i][2]), seen) for g in gs)
            if p.k == "SwitchStmt":
                return True
            if p.k == "BinaryOperator" and p.op in ("==", "!=", "<", ">", "<=", ">="):
                o = p.kids[1] if p.kids[0] is cur else p.kids[0]
                return strip(o).k in ("IntegerLiteral", "UnaryOperator", "CharacterLiteral")
            if p.k == "BinaryOperator" and p.op == "=" and p.kids[1] is cur:
                c = self.cell(p.kids[0])
                return c is not None and self.flagcell(c, seen)
            if p.k == "VarDecl":
                return self.flagcell(("v", p.id), seen)
            if p.k == "ReturnStmt":
                return False
            if p.k == "IfStmt":
                return True
            return False
        return False

    def flagcell(self, c, seen):
        if c in seen:
            return True
        if c[0] != "v":
            return False
        us = [u for u in self.uses.get(c, ()) if u[0] == "use"]
        # at least used as a flag or by LAPACK somewhere, and the rest is examined by itself
        ok = False
        for _k, path in us:
            n = path[-1]
            if self.flag(path[:-1], n, seen + (c,)):
                ok = True
        return ok or not us


def entry_points(prog):
    """Functions declared in the public headers of libraries (called from outside these sources)."""
    out = set()
    for tu in prog.tus:
        pass
    return out


def run_c(R):
    done = set()
    for cfg, lap in (("lapacke", True), ("default", False), ("mtblas", True)):
        prog = cfront.load(cfg)
        wr = cfront.load_wrappers(lapacke=lap)
        called = set()
        W = Width(prog, wr, set())
        R.count("functions analysed", len(W.funcs))
        R.count("integer variables, fields and parameters bounded", len(W.bound))
        R.count("integer conversions examined", len(W.casts))
        R.count("products examined", len(W.mults))
        R.count("pointer conversions examined", len(W.reint))

        def rep(rule, f, key, msg, line):
            k = (rule, f.file, f.name, key)
            if k in done:
                return
            done.add(k)
            R.report(rule, "%s:%s" % (f.file, f.name), key, msg, line)

        for n, f, par, loops in W.casts:
            to = bits(n.t)
            frm = bits(n.kids[-1].t) if n.op == "IntegralCast" else 99
            if to is None or frm is None or to >= 64 or to >= frm:
                continue
            R.count("narrowing conversions examined")
            b = W.b(n.kids[-1]) if n.op == "IntegralCast" else None
            if b is not None and b < (1 << 31):
                continue
            if W.flag(par, n):
                continue
            rep("narrowed", f, src(n.kids[-1]), "the value %s has no bound and is converted to %s" % (src(n.kids[-1]), n.t), n.line)
        for n, f, par in W.mults:
            t = n.ex if n.k == "CompoundAssignOperator" and n.ex else n.t
            w = bits(t)
            if n.k == "CompoundAssignOperator" and n.op not in ("*=", "<<="):
                continue
            if w is None or w >= 64:
                continue
            R.count("products in less than 64 bits examined")
            l, r = W.b(n.kids[0]), W.b(n.kids[1])
            if l is not None and r is not None and (l * r if "*" in n.op else l << min(r, 60)) < (1 << 31):
                continue
            rep("narrow-product", f, src(n), "the product %s is evaluated in %d bits though its factors have no bound" % (src(n), w), n.line)
        for c, st in W.stores.items():
            d = W.decl.get(c)
            if not d or W.bound.get(c) is not None:
                continue
            w = bits(d[1])
            if w is None or w >= 64:
                continue
            for op, rhs, loops, f in st:
                if op in ("++", "+=") or op == "=" and rhs is not None and W.selfref(c, rhs):
                    if not loops:
                        continue
                    if W.trips(c, loops) is None:
                        # counters over a range that is itself narrow are reported where that range is narrowed
                        if any(W.rangenarrow(c, l) for l in loops):
                            continue
                        rep("narrow-counter", d[3], d[0], "%s is counted up in %s in a loop without a constant bound" % (d[0], d[1]), d[2])
                        break
        for n, f, par in W.reint:
            pt, pf = pointee(n.t), pointee(n.kids[-1].t)
            if pt is None:
                continue
            wt = bits(pt)
            if wt is None or wt == 8:
                continue
            wf = bits(pf) if pf else None
            inner = strip(n.kids[-1])
            if pf == "void" or pf is None:
                if inner.k == "CallExpr" and callee(inner) in ("malloc", "calloc", "realloc", "LAPACKE_malloc"):
                    continue
                if inner.k in ("CXXMemberCallExpr", "CallExpr") and wt < 64:
                    rep("narrow-buffer", f, src(n.kids[-1]), "the data of an array are read as %s" % pt, n.line)
                continue
            if wf is not None and wf != wt and wf != 8:
                rep("reinterpreted", f, src(n.kids[-1]), "elements of %d bits are accessed as %s" % (wf, pt), n.line)


def _rangenarrow(self, c, loop):
    """Is the limit that this loop compares c with of less than 64 bits?"""
    cond = loop.kids[2] if loop.k == "ForStmt" and len(loop.kids) > 2 else (loop.kids[0] if loop.k == "WhileStmt" else loop.kids[-1])
    for x in self.conj(cond):
        if x.k == "BinaryOperator" and x.op in ("<", "<=", "!=", ">", ">="):
            for a, o in ((x.kids[0], x.kids[1]), (x.kids[1], x.kids[0])):
                a = strip(a)
                if a.k == "DeclRefExpr" and ("v", a.ref) == c:
                    w = bits(strip(o).t)
                    return w is not None and w < 64
    return False


Width.rangenarrow = _rangenarrow


NARROW = {"int32", "int16", "uint32", "char", "other:uint16"}
MAKE = {"zeros", "ones", "empty", "full", "array", "asarray", "ascontiguousarray", "arange", "zeros_like", "ones_like", "empty_like", "full_like", "fromiter", "require", "astype", "view", "prod", "sum", "cumsum", "cumprod", "intc", "int32", "int16", "uint32"}
REDUCE = {"prod", "cumprod", "cumsum", "sum", "dot", "ravel_multi_index"}
GRIDNAME = re.compile(r"(^|_)(grid_points?|gps?|bzgps?|grgps?|triplets?|triplets_at_q|ir_grid_map|grid_map|gp_map|gp2irgp_map|irgp|ir_gps|bzg2grg|grg2bzg|map_triplets|map_q|triplets_map|map_to_ir_index|rot_grid_points|weights_at_q|triplet_weights|grid_weights|irgps)$")


def run_py(R):
    import pyx, kern, nparr, space
    p = pyx.project()
    A, S = nparr.Arr(p), space.Space(p)
    GRID = {"BZ", "GR", "IR", "TRIP"}

    def narrow(t):
        """Name of the narrow integer type this call converts to or creates, or None."""
        if t[0] != "call":
            return None
        c = t[1]
        if c[0] == "ext" and c[1].startswith("numpy."):
            n = c[1][6:]
            if n in ("intc", "int32", "int16", "uint32") and t[2]:
                return n
            if n not in MAKE:
                return None
            d = nparr.kw(t, "dtype", {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "array": 1, "asarray": 1, "ascontiguousarray": 1}.get(n))
        elif c[0] == "attr" and c[2] in ("astype", "view"):
            d = nparr.kw(t, "dtype", 0)
        elif c[0] == "attr" and c[2] in ("sum", "prod", "cumsum", "cumprod"):
            d = nparr.kw(t, "dtype")
        else:
            return None
        x = nparr.dtype(d)
        return x if x in NARROW and x != "char" else None

    def name_of(e):
        if e.kind == "store_name":
            return e.t[0]
        if e.kind == "store_attr":
            return e.t[1]
        return None

    def val(t):
        return [x for x in pyx.alts(t)]

    for f in p.own_funcs():
        where = "%s:%s" % (f.file, f.short)
        seen = set()
        for e in p.events(f):
            if e.kind == "call":
                n = narrow(e.t)
                if n:
                    R.count("arrays of narrow integers examined")
                    c = e.t[1]
                    if c[0] == "ext" and c[1][6:] in REDUCE or c[0] == "attr" and c[2] in REDUCE:
                        R.report("narrow-reduction", where, pyx.show(e.t)[:80], "the result of %s is computed as %s" % (pyx.show(c)[:60], n), e.line)
                        continue
                    v = S.val(e.t, f)
                    src_ = e.t[2][0] if e.t[2] and c[0] == "ext" else c[1] if c[0] == "attr" else None
                    els = v[2] if v is not None else None
                    if not els and src_ is not None and not (c[0] == "ext" and c[1][6:].startswith(("zeros", "ones", "empty", "full", "arange"))):
                        v2 = S.val(src_, f)
                        els = v2[2] if v2 is not None else None
                    if els and els <= GRID:
                        seen.add(e.t)
                        R.report("narrow-array", where, pyx.show(e.t)[:80], "%s are put into an array of %s" % ("grid points" if "TRIP" not in els else "triplet indices", n), e.line)
                k = kern.kernel_of(e.t[1]) if e.t[1][0] == "ext" else None
                if k is not None and len(e.t[2]) == len(k.formals):
                    for i, (fm, t) in enumerate(zip(k.formals, e.t[2])):
                        if not k.array[i] or set(k.elem.get(fm, ())) != {"int64"}:
                            continue
                        R.count("integer arrays handed to kernels")
                        for dt, lay, rk, org in A.info(t, f):
                            if dt in NARROW:
                                R.report("narrow-argument", where, "%s.%s" % (k.name, fm), "an array of %s (%s) is handed over where 64-bit integers are read" % (dt, org), e.line)
            nm = name_of(e)
            if nm and GRIDNAME.search(nm):
                t = e.t[1] if e.kind == "store_name" else e.t[2]
                for x in val(t):
                    R.count("arrays of grid points by name")
                    while x[0] == "op" and x[1] == "neg":
                        x = x[2]
                    n = narrow(x)
                    if n and x not in seen:
                        R.report("narrow-array", where, nm, "%s is made an array of %s" % (nm, n), e.line)
            if e.kind == "binop" and e.t[0] == "op" and e.t[1] in ("*", "<<") and len(e.t) == 4:
                a, b = e.t[2], e.t[3]
                if a[0] == "c" or b[0] == "c":
                    continue
                R.count("Python products examined")
                if len(pyx.show(a)) > 2000 or len(pyx.show(b)) > 2000:
                    continue
                da = {x[0] for x in A.info(a, f)}
                db = {x[0] for x in A.info(b, f)}
                if da & {"int32", "int16", "uint32"} and db & {"int32", "int16", "uint32"}:
                    R.report("narrow-product", where, pyx.show(e.t)[:80], "product of elements of %s arrays is evaluated in that type" % "/".join(sorted((da | db) & NARROW)), e.line)
    R.require("integer arrays handed to kernels", 100)
    R.require("arrays of grid points by name", 40)


def run(R):
    run_c(R)
    R.require("functions analysed", 600)
    R.require("narrowing conversions examined", 20)
    run_py(R)
    R.explanation = "fixpoint bounds of integer magnitudes over the typed AST of every C function and binding; every narrowing conversion, narrow product and narrow counter is an obligation; in Python every array with an explicit narrow integer type, every integer array handed to a kernel and every product of narrow arrays"
    R.assumptions = ["LAPACK's own integer type is outside the repository", "numpy default integers of LP64 platforms"]
