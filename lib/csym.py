"""Symbolic single-pass execution of C functions with callees inlined.

Integers are polynomials over parameters, loop counters and opaque reads; pointers are
(base object, byte offset polynomial).  Every memory access is recorded with the loops and
guards around it.  Used for race freedom (P02) and extents (P04)."""
import re
from poly import Poly, P, Ctx
from cfront import strip, callee, args, src, parse_clauses, clause_names, CASTS
from ccfg import omp_body

SC = {"double": 8, "float": 4, "char": 1, "signed char": 1, "unsigned char": 1, "int": 4, "unsigned int": 4,
      "long": 8, "unsigned long": 8, "long long": 8, "int64_t": 8, "size_t": 8, "_Complex double": 16,
      "short": 2, "_Bool": 1, "int32_t": 4, "int8_t": 1, "uint64_t": 8, "lapack_int": 4, "void": 1,
      "_Complex float": 8}
INTS = ("int", "long", "char", "short", "unsigned", "size_t", "int64_t", "_Bool", "signed")


def clean(t):
    return re.sub(r"\b(const|volatile|restrict|struct|static|__restrict)\b", "", t).replace("  ", " ").replace("(* )", "(*)").replace("* ", "*").strip()


def sizeof(t):
    t = clean(t)
    if re.search(r"\(\*.*\)", t) or t.endswith("*"):
        return 8
    m = re.match(r"^(.*?)\s*((\[\d+\])+)$", t)
    if m:
        n = 1
        for d in re.findall(r"\d+", m.group(2)):
            n *= int(d)
        return n * sizeof(m.group(1))
    return SC.get(t.strip(), 64)


def pointee(t):
    t = clean(t)
    m = re.match(r"^(.*?)\(\*\)(.*)$", t)
    if m:
        return (m.group(1).strip() + m.group(2).strip()).strip()
    if t.endswith("*"):
        return t[:-1].strip()
    m = re.match(r"^(.*?)\s*\[\d*\]((\[\d+\])*)$", t)
    if m:
        return (m.group(1) + m.group(2)).strip()
    return t


def isptr(t):
    t = clean(t)
    return t.endswith("*") or "(*)" in t


def isarr(t):
    t = clean(t)
    return bool(re.search(r"\[\d*\]$", t)) and "(*)" not in t


def isint(t):
    t = clean(t)
    return not isptr(t) and not isarr(t) and t.split(" ")[0] in INTS


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=None):
        self.base, self.off = base, P(0) if off is None else off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.base, self.off)


UNINIT = "UNINIT"
MAYBE = "MAYBE"


class Access:
    __slots__ = ("kind", "base", "off", "size", "loops", "fn", "line", "txt", "par", "facts", "rmw", "atomic", "conds",
                 "root")

    def dead(self):
        """The path to the access contradicts itself."""
        for c in self.conds:
            if c[0] == "cmp" and not isinstance(c[2], (list, str)) and not isinstance(c[3], (list, str)):
                d = c[2] - c[3]
                if d.isconst():
                    v = d.c()
                    if not {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[c[1]]:
                        return True
        return False


class Loop:
    __slots__ = ("sym", "line", "omp", "private", "reduction", "digits", "id", "declared", "fn", "ctx_bases")


class Cond(tuple):
    """Condition tree that remembers the branch it comes from."""
    exit = False       # holds because the other branch returned a status from the function

    def of(self, node, serial, truth, stack):
        self.node, self.serial, self.truth, self.stack = node, serial, truth, stack
        return self

    def left(self, branch):
        c = Cond(self).of(self.node, self.serial, self.truth, self.stack)
        c.exit = any(n.k == "ReturnStmt" and n.kids and n.kids[0] is not None for n in branch.walk())
        return c


class Abort(Exception):
    pass


class Exec:
    def __init__(self, prog, maxdepth=12, want_dims=False):
        self.want_dims = want_dims
        self.prog = prog
        self.ctx = Ctx()
        self.accs = []
        self.bases = {}        # base -> dict(extent=Poly or None, local_to=[loops], name)
        self.n = 0
        self.loops = []
        self.frames = []
        self.maxdepth = maxdepth
        self.reports = []      # (rule, file, construct, msg, line)
        self.shared_writes = []
        self.store = {}        # pointer-valued memory: (base, key) -> value
        self.conds = []        # conditions on the way to the current point (for counterexamples)
        self.private_ids = set()
        self.tie = {}          # symbol -> (symbol, factor): interface contracts used in small instances
        self.uninits = []      # (UNINIT|MAYBE, function, id, name, node) of scalars read before assignment
        self.inited = set()    # local arrays with an initialiser, zeroed heap blocks
        self.escaped = set()   # bases handed to functions that are not analysed
        self.most = {}         # same symbol -> value if every data-dependent increment is taken
        self.first = {}        # symbol of a variable carried around a loop -> (loop, value in the first iteration)
        self.tables = {}       # base -> [(offset, value)] of integers stored into local memory
        self.calls = 0
        self.reached = set()   # functions inlined
        self.unknown_calls = set()

    def rep(self, rule, fn, construct, msg, line):
        self.reports.append((rule, fn.file, construct, msg, line))

    # ---- symbols
    def fresh(self, hint, key=None):
        self.n += 1
        return Poly.sym(("o", hint, self.n))

    def opaque(self, key, lo=None):
        s = ("k",) + tuple(key)
        if lo is not None:
            self.ctx.lo.setdefault(s, lo)
        return Poly.sym(s)

    # ---- entry
    def run_root(self, fn):
        env = {}
        for (name, ty, pid) in fn.params:
            if isptr(ty) or isarr(ty):
                base = ("param", fn.name, name)
                self.bases.setdefault(base, dict(extent=None, local=[], name=name))
                env[pid] = Ptr(base)
            elif isint(ty):
                s = ("p", fn.name, name)
                self.ctx.lo[s] = 1 if self.is_dim(name) else 0
                env[pid] = Poly.sym(s)
            else:
                env[pid] = None
        self.call_body(fn, env)

    def is_dim(self, name):
        return bool(re.match(r"(num|size|n_|max|dim|total)", name)) or name in ("n", "m", "size")

    def call_body(self, fn, env, node=None):
        self.calls += 1
        self.frames.append([fn, env, [], {}, self.calls, node])
        self.reached.add((fn.file, fn.name))
        nconds = len(self.conds)
        try:
            self.stmt(fn.body, env)
        finally:
            fr = self.frames.pop()
            del self.conds[nconds:]
        rets = fr[2]
        if not rets:
            return None
        if all(r == rets[0] for r in rets) and rets[0] is not None:
            return rets[0]
        return None

    @property
    def fn(self):
        return self.frames[-1][0]

    # ---- statements.  Returns True if control does not fall through.
    def stmt(self, s, env):
        if s is None:
            return False
        k = s.k
        if k == "CompoundStmt":
            nf, nc = len(self.ctx.facts), len(self.conds)
            for c in s.kids:
                if c is not None and c.k == "IfStmt":
                    # guards of the form `if (x) continue/return/break;` restrict the rest of the block
                    if self.if_stmt(c, env):
                        del self.ctx.facts[nf:]
                        del self.conds[nc:]
                        return True
                elif self.stmt(c, env):
                    del self.ctx.facts[nf:]
                    del self.conds[nc:]
                    return True
            del self.ctx.facts[nf:]
            del self.conds[nc:]
            return False
        if k == "DeclStmt":
            for d in s.kids:
                if d.k == "VarDecl":
                    self.decl(d, env)
            return False
        if k == "IfStmt":
            return self.if_stmt(s, env)
        if k == "ForStmt":
            self.for_stmt(s, env, None)
            return False
        if k in ("WhileStmt", "DoStmt"):
            body = s.kids[0] if k == "DoStmt" else s.kids[-1]
            cond = s.kids[1] if k == "DoStmt" else s.kids[0]
            self.havoc(s, env)
            self.ev(cond, env)
            e2 = dict(env)
            self.stmt(body, e2)
            self.merge(env, [env.copy(), e2])
            self.havoc(s, env)
            return False
        if k == "ReturnStmt":
            v = self.ev(s.kids[0], env) if s.kids and s.kids[0] is not None else None
            self.frames[-1][2].append(v)
            return True
        if k in ("BreakStmt", "ContinueStmt", "GotoStmt"):
            return True
        if k == "LabelStmt":
            return self.stmt(s.kids[0] if s.kids else None, env)
        if k == "SwitchStmt":
            self.ev(s.kids[0], env)
            groups, cur = [], None
            body = s.kids[-1]
            outs = []
            for c in (body.kids if body.k == "CompoundStmt" else [body]):
                if c is not None and c.k in ("CaseStmt", "DefaultStmt"):
                    cur = []
                    groups.append(cur)
                    while c is not None and c.k in ("CaseStmt", "DefaultStmt"):
                        c = c.kids[-1]
                if cur is not None and c is not None:
                    cur.append(c)
            for g in groups:
                e = dict(env)
                dead = False
                for c in g:
                    if self.stmt(c, e):
                        break
                outs.append(e)
            outs.append(dict(env))
            self.merge(env, outs)
            return False
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(s.kids[-1], env)
        if k.startswith("OMP") and k.endswith("Directive"):
            self.omp(s, env)
            return False
        if k == "NullStmt":
            return False
        if k in ("CapturedStmt", "CapturedDecl", "AttributedStmt"):
            return self.stmt(s.kids[0] if k != "AttributedStmt" else s.kids[-1], env)
        self.ev(s, env)
        return False

    def decl(self, d, env):
        init = [c for c in d.kids if c is not None and not c.k.endswith("Attr")]
        self.n += 1
        fkey = (self.fn.file, self.fn.name, d.id, self.n)
        if d.ex == "static":
            base = ("static", self.fn.file, self.fn.name, d.name)
            self.bases.setdefault(base, dict(extent=P(sizeof(d.t)), local=[], name=d.name))
            env[d.id] = Ptr(base) if isarr(d.t) else None
            return
        if isarr(d.t):
            base = ("local",) + fkey
            self.bases[base] = dict(extent=P(sizeof(d.t)), local=list(self.loops), name=d.name, conds=list(self.conds))
            env[d.id] = ("array", base)
            if init:
                self.inited.add(base)
            for c in init:
                self.ev(c, env)
            return
        if init:
            env[d.id] = self.ev(init[-1], env)
        elif isint(d.t) or isptr(d.t) or clean(d.t) in SC:
            env[d.id] = UNINIT
        else:
            base = ("local",) + fkey     # struct
            self.bases[base] = dict(extent=None, local=list(self.loops), name=d.name, conds=list(self.conds))
            env[d.id] = ("array", base)
        self.frames[-1][3][d.id] = list(self.loops)

    def merge(self, env, outs):
        keys = set()
        for o in outs:
            keys |= set(o)
        for k in keys:
            vs = [o.get(k, UNINIT) for o in outs]
            v0 = vs[0]
            if all(v == v0 for v in vs):
                env[k] = v0
            elif any(isinstance(v, str) and v in (UNINIT, MAYBE) for v in vs):
                env[k] = MAYBE
            elif all(isinstance(v, Poly) for v in vs):
                us = []
                for v in vs:
                    if v not in us:
                        us.append(v)
                self.n += 1
                env[k] = Poly.sym(("k", "alt", self.n) + tuple(us)) if len(us) <= 6 else self.fresh("phi")
            elif any(isinstance(v, Ptr) for v in vs):
                ps = [v for v in vs if isinstance(v, Ptr)]
                if all(p.base == ps[0].base for p in ps):
                    env[k] = ps[0] if all(p == ps[0] for p in ps) else Ptr(ps[0].base, self.fresh("phioff"))
                else:
                    env[k] = Ptr(("phi",) + tuple(sorted({repr(p.base) for p in ps})), self.fresh("phioff"))
            else:
                env[k] = None

    def guard(self, c, env, truth):
        """Polys >= 0 implied by the condition."""
        c = strip(c)
        out = []
        if c.k == "BinaryOperator":
            if c.op == "&&" and truth or c.op == "||" and not truth:
                return self.guard(c.kids[0], env, truth) + self.guard(c.kids[1], env, truth)
            if c.op in ("<", "<=", ">", ">=", "==", "!="):
                op = c.op
                if not truth:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                a, b = self.peek(c.kids[0], env), self.peek(c.kids[1], env)
                if isinstance(a, Poly) and isinstance(b, Poly):
                    if op == "<":
                        out.append(b - a - 1)
                    elif op == "<=":
                        out.append(b - a)
                    elif op == ">":
                        out.append(a - b - 1)
                    elif op == ">=":
                        out.append(a - b)
                    elif op == "==":
                        out += [a - b, b - a]
        elif c.k == "UnaryOperator" and c.op == "!":
            return self.guard(c.kids[0], env, not truth)
        return out

    def cond(self, c, env, truth):
        """Condition tree for counterexample search: ('cmp',op,a,b) | ('and'|'or',[..]) | ('float',) | ('opq',)."""
        c = strip(c)
        if c.k == "BinaryOperator" and c.op in ("&&", "||"):
            return ("and" if (c.op == "&&") == truth else "or",
                    [self.cond(c.kids[0], env, truth), self.cond(c.kids[1], env, truth)])
        if c.k == "UnaryOperator" and c.op == "!":
            return self.cond(c.kids[0], env, not truth)
        if c.k == "BinaryOperator" and c.op in ("<", "<=", ">", ">=", "==", "!="):
            op = c.op if truth else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[c.op]
            a, b = self.peek(c.kids[0], env), self.peek(c.kids[1], env)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return ("cmp", op, a, b)
            if not isint(c.kids[0].t) and not isptr(c.kids[0].t):
                return ("float",)
            return ("opq",)
        v = self.peek(c, env)
        if isinstance(v, Poly):
            return ("cmp", "!=" if truth else "==", v, P(0))
        return ("opq",) if isint(c.t) else ("float",)

    def peek(self, e, env):
        """Value without recording accesses."""
        n, rp, sw, un = len(self.accs), len(self.reports), len(self.shared_writes), len(self.uninits)
        try:
            return self.ev(e, env)
        finally:
            del self.accs[n:], self.reports[rp:], self.shared_writes[sw:], self.uninits[un:]

    def if_stmt(self, s, env):
        self.ev(s.kids[0], env)
        gt, gf = self.guard(s.kids[0], env, True), self.guard(s.kids[0], env, False)
        at = (s.kids[0], self.frames[-1][4], tuple((f[0], f[5]) for f in self.frames))
        ct = Cond(self.cond(s.kids[0], env, True)).of(at[0], at[1], True, at[2])
        cf = Cond(self.cond(s.kids[0], env, False)).of(at[0], at[1], False, at[2])
        e1, e2 = dict(env), dict(env)
        n, nc = len(self.ctx.facts), len(self.conds)
        self.ctx.facts += gt
        self.conds.append(ct)
        t1 = self.stmt(s.kids[1], e1)
        del self.ctx.facts[n:]
        del self.conds[nc:]
        t2 = False
        if len(s.kids) > 2 and s.kids[2] is not None:
            self.ctx.facts += gf
            self.conds.append(cf)
            t2 = self.stmt(s.kids[2], e2)
            del self.ctx.facts[n:]
            del self.conds[nc:]
        outs = ([] if t1 else [e1]) + ([] if t2 else [e2])
        if not outs:
            return True
        self.merge(env, outs) if len(outs) > 1 else (env.clear(), env.update(outs[0]))
        if t1 and not t2:
            self.ctx.facts += gf
            self.conds.append(cf.left(s.kids[1]))
        elif t2 and not t1:
            self.ctx.facts += gt
            self.conds.append(ct.left(s.kids[2]))
        return False

    def assigned(self, s):
        """ids of variables assigned anywhere inside s."""
        out = {}
        for n in s.walk():
            if n.k in ("BinaryOperator",) and n.op == "=" or n.k == "CompoundAssignOperator":
                l = strip(n.kids[0])
                if l.k == "DeclRefExpr":
                    out[l.ref] = out.get(l.ref, 0) + 1
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                l = strip(n.kids[0])
                if l.k == "DeclRefExpr":
                    out[l.ref] = out.get(l.ref, 0) + 1
            elif n.k == "UnaryOperator" and n.op == "&":
                l = strip(n.kids[0])
                if l.k == "DeclRefExpr":
                    out[l.ref] = out.get(l.ref, 0) + 1
        return out

    def havoc(self, s, env, skip=(), loop=None):
        self.forget_memory(s, env)
        for v in self.assigned(s):
            if v in skip or v not in env:
                continue
            o = env[v]
            if isinstance(o, tuple):
                continue
            if isinstance(o, Ptr):
                # a pointer reassigned in the loop: keep base if it only moves
                env[v] = Ptr(o.base, self.fresh("ptr"))
            elif isinstance(o, Poly):
                env[v] = self.fresh("var")
                if loop is not None:
                    self.first[next(iter(env[v].syms()))] = (loop, o)
            elif isinstance(o, str):
                env[v] = MAYBE if o != UNINIT else UNINIT
            else:
                env[v] = None

    def canonical(self, s, env):
        """(var id, lo, hi inclusive, step) for counted loops."""
        init, _c, cond, inc, body = (s.kids + [None] * 5)[:5]
        if init is None or cond is None or inc is None:
            return None
        vid = lo = None
        i0 = init
        if i0.k == "DeclStmt":
            d = i0.kids[0]
            ini = [c for c in d.kids if c is not None]
            if d.k == "VarDecl" and ini:
                vid, lo = d.id, self.ev(ini[-1], env)
        else:
            i0 = strip(i0)
            if i0.k == "BinaryOperator" and i0.op == "=" and strip(i0.kids[0]).k == "DeclRefExpr":
                vid, lo = strip(i0.kids[0]).ref, self.ev(i0.kids[1], env)
        if vid is None or not isinstance(lo, Poly):
            return None
        c = strip(cond)
        i1 = strip(inc)
        step = None
        if i1.k == "UnaryOperator" and i1.op in ("++", "--") and strip(i1.kids[0]).k == "DeclRefExpr" and strip(i1.kids[0]).ref == vid:
            step = 1 if i1.op == "++" else -1
        elif i1.k == "CompoundAssignOperator" and i1.op in ("+=", "-=") and strip(i1.kids[0]).k == "DeclRefExpr" and strip(i1.kids[0]).ref == vid:
            st = self.peek(i1.kids[1], env)
            if isinstance(st, Poly) and st.isconst() and st.c() > 0:
                step = st.c() if i1.op == "+=" else -st.c()
        if step is None or c.k != "BinaryOperator" or c.op not in ("<", "<=", ">", ">=", "!="):
            return None
        l, r, op = strip(c.kids[0]), c.kids[1], c.op
        if not (l.k == "DeclRefExpr" and l.ref == vid):
            r0 = strip(c.kids[1])
            if r0.k == "DeclRefExpr" and r0.ref == vid:
                l, r = r0, c.kids[0]
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
            else:
                return None
        mods = self.assigned(body) if body is not None else {}
        if vid in mods:
            return None
        if any(x.k == "DeclRefExpr" and x.ref in mods for x in r.walk()):
            return None
        b = self.ev(r, env)
        if not isinstance(b, Poly):
            return None
        if step > 0:
            hi = b - 1 if op in ("<", "!=") else b if op == "<=" else None
            return (vid, lo, hi, step, l.name) if hi is not None else None
        lo2 = b + 1 if op == ">" else b if op == ">=" else None
        return (vid, lo2, lo, step, l.name) if lo2 is not None else None

    def for_stmt(self, s, env, omp):
        init, _c, cond, inc, body = (s.kids + [None] * 5)[:5]
        can = self.canonical(s, env)
        if omp is not None and can is None:
            raise Abort("parallel loop at %s:%s is not a counted loop" % (self.fn.file, s.line))
        lp = Loop()
        lp.line, lp.omp, lp.fn = s.line, omp, self.fn
        lp.private, lp.reduction = (omp or {}).get("private", set()), (omp or {}).get("reduction", set())
        lp.declared = {n.id for n in body.walk() if n.k == "VarDecl"} if body is not None else set()
        lp.digits = []
        if can is None:
            if init is not None:
                self.stmt(init, env)
            lp.sym = None
            self.havoc(s, env, loop=lp)
            if cond is not None:
                self.ev(cond, env)
            self.loops.append(lp)
            lp.sym, lp.id = None, None
            e2 = dict(env)
            ncd = len(self.conds)
            self.stmt(body, e2)
            del self.conds[ncd:]
            if inc is not None:
                self.ev(inc, e2)
            self.loops.pop()
            self.merge(env, [dict(env), e2])
            self.havoc(s, env)
            return
        vid, lo, hi, step, vname = can
        if omp is None and step == 1 and lo.isconst() and hi.isconst() and 0 < hi.c() - lo.c() < 8 \
                and self.unrollable(body):
            if init.k != "DeclStmt":
                self.note_scalar_write(vid, vname, s.line)
            for v in range(lo.c(), hi.c() + 1):
                env[vid] = P(v)
                self.stmt(body, env)
            env[vid] = P(hi.c() + 1)
            return
        if init.k == "DeclStmt":
            lp.declared.add(vid)
        elif vid in env or True:
            # the counter itself is a variable of the enclosing scope: private for the parallel loop,
            # a shared write otherwise
            if omp is None:
                self.note_scalar_write(vid, vname, s.line)
        self.n += 1
        sym = ("i", vname, self.n)
        lp.sym, lp.id = sym, vid
        self.ctx.range[sym] = (lo, hi)
        self.ctx.order.append(sym)
        env0 = dict(env)
        ind = self.inductions(body, env, vid) if step == 1 else {}
        upto = self.inductions(body, env, vid, True) if step == 1 else {}
        self.havoc(s, env, skip=(vid,), loop=lp)
        val = Poly.sym(sym)      # with a step other than one the values visited are a subset
        # mixed-radix use of the counter (i / n, i % n): replace it by its digits
        dig = self.digits(body, vid, env, lo, hi)
        if dig is not None:
            q, r, n, cnt = dig
            self.ctx.order.remove(sym)
            qs, rs = ("i", vname + "/", self.n), ("i", vname + "%", self.n)
            self.ctx.range[qs] = (P(0), cnt - 1)
            self.ctx.range[rs] = (P(0), n - 1)
            self.ctx.order += [qs, rs]
            val = Poly.sym(qs) * n + Poly.sym(rs)
            lp.digits = [qs, rs]
        else:
            lp.digits = [sym]
        self.ctx.facts.append(hi - lo)      # the body runs only if the range is non-empty
        nf = len(self.ctx.facts)
        env[vid] = val
        for v, t in ind.items():
            env[v] = env0[v] + t * (val - lo)
        for v, t in upto.items():
            if v not in ind:
                self.most_value(env[v], env0[v], env0[v] + t * (val - lo))
        if omp is not None:
            self.private_ids |= lp.private
            for p in lp.private:
                if p != vid and p in env and not isinstance(env[p], tuple):
                    env[p] = UNINIT
                elif p in env and isinstance(env[p], tuple):
                    b0 = env[p][1]
                    b1 = b0 + ("private", s.line)
                    self.bases[b1] = dict(self.bases[b0], local=list(self.loops) + [lp])
                    env[p] = ("array", b1)
            for p in lp.reduction:
                env[p] = None
            for p in (omp or {}).get("firstprivate", ()):
                env[p] = env0.get(p)
        self.loops.append(lp)
        e2 = dict(env)
        ncd = len(self.conds)
        self.stmt(body, e2)
        self.loops.pop()
        del self.conds[ncd:]
        del self.ctx.facts[nf - 1:]
        self.merge(env, [dict(env), e2])
        self.havoc(s, env, skip=(vid,))
        env[vid] = self.fresh("after_" + vname)
        for v, t in ind.items():
            env[v] = env0[v] + t * (hi - lo + 1)
        for v, t in upto.items():
            if v not in ind and isinstance(env.get(v), Poly):
                self.most_value(env[v], env0[v], env0[v] + t * (hi - lo + 1))
        # variables (re)assigned in every iteration stay unknown afterwards
        for d in lp.declared:
            env.pop(d, None)
        if omp is not None:
            for p in lp.private:
                if p in env0 and isinstance(env0[p], tuple):
                    env[p] = env0[p]
                elif p in env:
                    env[p] = MAYBE

    def self_guarded(self, s):
        """The condition reads an array that the guarded statement itself updates (each element taken once)."""
        def arrays(n, written):
            out = set()
            for x in n.walk():
                t = None
                if written and (x.k == "BinaryOperator" and x.op == "=" or x.k == "CompoundAssignOperator"):
                    t = strip(x.kids[0])
                elif not written and x.k == "ArraySubscriptExpr":
                    t = x
                if t is not None and t.k == "ArraySubscriptExpr":
                    r = next((y for y in t.kids[0].walk() if y.k == "DeclRefExpr"), None)
                    if r is not None:
                        out.add(r.ref)
            return out
        return bool(arrays(s.kids[0], False) & arrays(s.kids[1], True))

    def unrollable(self, body):
        """A short body that computes integers held in arrays: worth executing element by element."""
        ok = False
        for n in body.walk():
            if n.k in ("ForStmt", "WhileStmt", "DoStmt", "BreakStmt", "ContinueStmt", "GotoStmt", "ReturnStmt",
                       "SwitchStmt", "CallExpr", "IfStmt"):
                return False
            if (n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator") and isint(n.kids[0].t):
                if strip(n.kids[0]).k == "ArraySubscriptExpr":
                    ok = True
        return ok

    def most_value(self, p, lo, hi):
        if len(p.t) != 1 or not isinstance(lo, Poly):
            return
        s = next(iter(p.syms()))
        if s[0] == "o" and p == Poly.sym(s) and self.ctx.nonneg(hi - lo):
            self.most[s] = hi
            if s not in self.ctx.range:
                self.ctx.range[s] = (lo, hi)
                self.ctx.order.append(s)

    def inductions(self, body, env, vid, most=False):
        """Variables advanced by a fixed amount in every iteration: {id: amount}; with most, by at most that
        amount (increments under data-dependent conditions are counted)."""
        if body is None:
            return {}
        for n in body.walk():
            if n.k in ("BreakStmt", "ContinueStmt", "GotoStmt", "ReturnStmt"):
                return {}
        mods = self.assigned(body)
        out = {}
        for v in mods:
            if v != vid and isinstance(env.get(v), Poly):
                t = self.advance(body, v, env, mods, most)
                if t is not None and t.t:
                    out[v] = t
        return out

    def advance(self, s, v, env, mods, most=False):
        """Amount by which one execution of s increases v, or None if it is not the same each time."""
        if s is None or v not in self.assigned(s):
            return P(0)
        if s.k == "CompoundStmt":
            tot = P(0)
            for c in s.kids:
                t = self.advance(c, v, env, mods, most)
                if t is None:
                    return None
                tot = tot + t
            return tot
        if s.k == "UnaryOperator" and s.op in ("++", "--"):
            return P(1 if s.op == "++" else -1)
        if s.k == "CompoundAssignOperator" and s.op in ("+=", "-=") and strip(s.kids[0]).k == "DeclRefExpr" \
                and strip(s.kids[0]).ref == v:
            if any(x.k == "DeclRefExpr" and x.ref in mods for x in s.kids[1].walk()):
                return None
            t = self.peek(s.kids[1], env)
            if not isinstance(t, Poly) or any(q[0] == "o" for q in t.syms()):
                return None
            return t if s.op == "+=" else -t
        if most and s.k == "IfStmt" and len([c for c in s.kids if c is not None]) == 2 and any(
                x.k in ("ArraySubscriptExpr", "CallExpr") for x in s.kids[0].walk()) and not self.self_guarded(s):
            t = self.advance(s.kids[1], v, env, mods, most)
            return t if t is not None and t.isconst() and t.c() >= 0 else None
        if s.k == "ForStmt":
            init, _c, cond, inc, body = (s.kids + [None] * 5)[:5]
            t = self.advance(body, v, env, mods, most)
            if t is None or any(x is not None and v in self.assigned(x) for x in (init, cond, inc)):
                return None
            e = dict(env)
            n = len(self.accs)
            can = self.canonical(s, e)
            del self.accs[n:]
            if can is None or can[3] != 1:
                return None
            cnt = can[2] - can[1] + 1
            if any(q[0] == "o" for q in cnt.syms()):
                return None
            for x in (init, cond):
                for y in x.walk():
                    if y.k == "DeclRefExpr" and y.ref in mods and y.ref != can[0]:
                        return None
            return t * cnt
        return None

    def digits(self, body, vid, env, lo, hi):
        """(q, r, n, count) if the counter is used as v / n and v % n with one invariant n dividing the range."""
        if not (lo == P(0)) or body is None:
            return None
        mods = self.assigned(body)
        divs = []
        for x in body.walk():
            if x.k == "BinaryOperator" and x.op in ("/", "%"):
                l = strip(x.kids[0])
                if l.k == "DeclRefExpr" and l.ref == vid:
                    if any(y.k == "DeclRefExpr" and y.ref in mods for y in x.kids[1].walk()):
                        return None
                    n = self.peek(x.kids[1], env)
                    if not isinstance(n, Poly) or not n.t:
                        return None
                    divs.append(n)
        if not divs:
            return None
        total = hi + 1
        # the finest radix that divides all others
        divs.sort(key=lambda p: (sum(len(m) for m in p.t), repr(p)))
        n = divs[0]
        for d in divs[1:]:
            if d.divpoly(n) is None:
                return None
        cnt = total.divpoly(n)
        if cnt is None:
            return None
        # several radices: nested digits are produced by div() on q
        return True, True, n, cnt

    # ---- OpenMP
    def omp(self, s, env):
        txt = self.prog.pragmas.get(self.fn.file, {}).get(s.line)
        if txt is None:
            for l in range(s.line, s.line - 4, -1):
                if l in self.prog.pragmas.get(self.fn.file, {}):
                    txt = self.prog.pragmas[self.fn.file][l]
                    break
        if txt is None:
            raise Abort("no pragma text for the OpenMP directive at %s:%s" % (self.fn.file, s.line))
        words, cl = parse_clauses(txt)
        body = omp_body(s)
        names = {}
        for n in self.fn.body.walk():
            if n.k == "VarDecl":
                names.setdefault(n.name, []).append(n)
        for p in self.fn.params:
            names.setdefault(p[0], []).append(None)

        def ids(cn):
            out = set()
            for nm in clause_names(cl, cn):
                for d in names.get(nm, []):
                    if d is not None:
                        out.add(d.id)
                for p in self.fn.params:
                    if p[0] == nm:
                        out.add(p[2])
            return out
        if "for" in words and body is not None and body.k == "ForStmt":
            if cl.get("collapse") and cl["collapse"][0] != "1":
                info_c = int(cl["collapse"][0])
            else:
                info_c = 1
            info = dict(private=ids("private") | ids("lastprivate"), firstprivate=ids("firstprivate"),
                        reduction=ids("reduction"), line=s.line, txt=txt, collapse=info_c)
            info["private"] -= info["firstprivate"]
            self.for_stmt(body, env, info if "parallel" in words or self.in_parallel() else None)
        elif words and words[0] in ("atomic", "critical"):
            self.frames[-1][3]["atomic"] = self.frames[-1][3].get("atomic", 0) + 1
            try:
                self.stmt(body, env)
            finally:
                self.frames[-1][3]["atomic"] -= 1
        elif words == ["simd"] or words == ["for", "simd"]:
            self.stmt(body, env)
        else:
            raise Abort("OpenMP directive '%s' at %s:%s is not modelled" % (" ".join(words), self.fn.file, s.line))

    def in_parallel(self):
        return any(l.omp for l in self.loops)

    def protected(self):
        return any(f[3].get("atomic") for f in self.frames)

    def note_scalar_write(self, vid, name, line):
        """Assignment to a scalar variable: a race if the variable lives outside an enclosing parallel loop."""
        fr = self.frames[-1]
        for lp in self.loops:
            if lp.omp and lp.fn is self.fn and self.frame_of(lp) is fr:
                if vid in lp.private or vid in lp.reduction or vid in lp.declared or vid == lp.id:
                    continue
                if vid in (lp.omp or {}).get("firstprivate", ()):
                    continue
                if self.protected():
                    continue
                if lp.omp.get("collapse", 1) > 1:
                    # counters of the collapsed nest are private
                    idx = self.loops.index(lp)
                    depth = len([q for q in self.loops[idx:]])
                    if depth < lp.omp["collapse"] and line:
                        continue
                self.shared_writes.append((lp, self.fn, name, line))

    def frame_of(self, lp):
        # loops are pushed while their frame is active; the same function appears once per frame here
        for fr in reversed(self.frames):
            if fr[0] is lp.fn:
                return fr
        return None

    # ---- memory
    def access(self, kind, base, off, size, node, rmw=False):
        a = Access()
        a.kind, a.base, a.off, a.size = kind, base, off, size
        a.loops = list(self.loops)
        a.fn, a.line, a.txt = self.fn, node.line, src(node)
        a.facts = list(self.ctx.facts)
        a.conds = list(self.conds)
        a.rmw = rmw
        a.atomic = self.protected()
        a.par = None
        self.accs.append(a)
        return a

    def lval(self, e, env):
        """('var', id, name) | ('mem', base, off, type) | None."""
        e = strip(e)
        if e.k == "DeclRefExpr":
            if e.refk in ("VarDecl", "ParmVarDecl"):
                v = env.get(e.ref)
                if isinstance(v, tuple) and v and v[0] == "array":
                    return ("mem", v[1], P(0), e.t)
                if e.ref not in env and e.refk == "VarDecl":
                    base = ("global", self.fn.file, e.name)
                    self.bases.setdefault(base, dict(extent=P(sizeof(e.t)), local=[], name=e.name))
                    return ("mem", base, P(0), e.t)
                return ("var", e.ref, e.name)
            return None
        if e.k == "ArraySubscriptExpr":
            b = self.ev(e.kids[0], env)
            i = self.ev(e.kids[1], env)
            if isinstance(i, Ptr) and not isinstance(b, Ptr):
                b, i = i, b
            if not isinstance(b, Ptr):
                return None
            if not isinstance(i, Poly):
                i = self.fresh("idx")
            at = e.kids[0]
            while at.k in ("ParenExpr",) or at.k == "ImplicitCastExpr" and at.op == "ArrayToPointerDecay":
                at = at.kids[0]
            m = re.match(r"^.*?\[(\d+)\]", clean(at.t)) if isarr(at.t) else None
            if m and self.want_dims and at is not e.kids[0]:
                a = self.access("d", b.base, i, 1, e)
                a.par = int(m.group(1))
            return ("mem", b.base, b.off + i * sizeof(e.t), e.t)
        if e.k == "UnaryOperator" and e.op == "*":
            b = self.ev(e.kids[0], env)
            if isinstance(b, Ptr):
                return ("mem", b.base, b.off, e.t)
            return None
        if e.k == "MemberExpr":
            if e.ex:
                b = self.ev(e.kids[0], env)
                if not isinstance(b, Ptr):
                    return None
                base = b.base
                off = b.off
            else:
                l = self.lval(e.kids[0], env)
                if l is None or l[0] != "mem":
                    return None
                base, off = l[1], l[2]
            fb = ("field", base, e.name) if off == P(0) else ("field", base, e.name, off)
            if fb not in self.bases:
                bb = self.bases.get(base, {})
                self.bases[fb] = dict(extent=P(sizeof(e.t)), local=list(bb.get("local", [])),
                                      name="%s.%s" % (bb.get("name", "?"), e.name))
            return ("mem", fb, P(0), e.t)
        if e.k in ("ConditionalOperator",):
            self.ev(e, env)
        return None

    def load(self, l, e, env):
        """Value of an lvalue read."""
        if l is None:
            return self.unknown(e)
        if l[0] == "var":
            v = env.get(l[1])
            if isinstance(v, str):
                self.uninit(v, l, e, env)
                v = self.unknown(e)
                env[l[1]] = v
            return v if v is not None else self.unknown(e)
        _, base, off, t = l
        if isarr(t):
            return Ptr(base, off)
        if base[0] != "field" or not isptr(t):
            self.access("r", base, off, sizeof(t), e)
        if isptr(t):
            v = self.store.get((base, "ptr"))
            if v is not None and base[0] == "field":
                return v
            if v is not None:
                return v
            b = ("load", base, off) if base[0] != "field" else ("deref", base)
            if b not in self.bases:
                bb = self.bases.get(base, {})
                self.bases[b] = dict(extent=None, local=list(bb.get("local", [])), name=bb.get("name", "?"))
            return Ptr(b)
        if isint(t):
            ver = self.store.get((base, "ver"), 0)
            val = self.store.get((base, off))
            if isinstance(val, Poly):
                return val
            nm = self.bases.get(base, {}).get("name", "?").split(".")[-1]
            r = self.opaque(("ld", base, off, ver), lo=1 if self.is_dim(nm) and off.isconst() else None)
            self.table_range(base, off, next(iter(r.syms())))
            return r
        return None

    def table_range(self, base, off, sym):
        """Range of the values stored into the column of a local index table that is read here."""
        st = self.tables.get(base)
        if not st or sym in self.ctx.range or base in self.escaped:
            return
        import math
        g = 0
        for o in [off] + [x[0] for x in st]:
            for m, c in o.t.items():
                if m:
                    g = math.gcd(g, c)
        if g == 0:
            return
        lo = hi = None
        for o, v in st:
            if (o.c() - off.c()) % g:
                continue
            if not isinstance(v, Poly) or any(q[0] == "o" or q == sym for q in v.syms()):
                return
            syms = {q for q in v.syms() if q in self.ctx.range}
            a, b = self.ctx.bound(v, syms, False), self.ctx.bound(v, syms, True)
            if a is None or b is None or any(q in self.ctx.range for q in a.syms() | b.syms()):
                return
            if lo is None:
                lo, hi = a, b
            elif (lo, hi) != (a, b):
                if self.ctx.nonneg(lo - a):
                    lo = a
                elif not self.ctx.nonneg(a - lo):
                    return
                if self.ctx.nonneg(b - hi):
                    hi = b
                elif not self.ctx.nonneg(hi - b):
                    return
        if lo is not None:
            self.ctx.range[sym] = (lo, hi)
            self.ctx.order.append(sym)

    def uninit(self, v, l, e, env):
        self.uninits.append((v, self.fn, l[1], l[2], e))
        self.reports.append(("uninit", self.fn.file, "%s: '%s'" % (self.fn.name, l[2]),
                             "read before it is assigned %s" % ("in the iteration" if self.in_parallel() else ""), e.line,
                             self.in_parallel(), l[1]))

    def unknown(self, e):
        return self.fresh("u") if isint(e.t) else None

    def assign(self, le, v, env, node, rmw=False):
        l = self.lval(le, env)
        if l is None:
            return
        if l[0] == "var":
            self.note_scalar_write(l[1], l[2], node.line)
            env[l[1]] = v
            return
        _, base, off, t = l
        self.access("w", base, off, sizeof(t), node if node.k != "x" else le, rmw)
        if isptr(t):
            self.store[(base, "ptr")] = v
        elif isint(t):
            key = (base, off)
            self.invalidate(base, off)
            if base[0] in ("local", "heap"):
                self.tables.setdefault(base, []).append((off, v))
            if isinstance(v, Poly) and base[0] in ("local", "field", "heap") and off.isconst():
                self.store[key] = v

    def invalidate(self, base, off):
        """Forget the stored integers that a write to base[off] may overwrite."""
        self.store[(base, "ver")] = self.store.get((base, "ver"), 0) + 1
        for k in [k for k in self.store if k[0] == base and k[1] not in ("ver", "ptr")]:
            if off is None or k[1] == off or not (off.isconst() and k[1].isconst()):
                del self.store[k]

    def forget_memory(self, s, env):
        """Before a loop: forget integers held in memory that its body may change."""
        if s is None:
            return
        for n in s.walk():
            tgt = []
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator" \
                    or n.k == "UnaryOperator" and n.op in ("++", "--"):
                tgt.append(n.kids[0])
            elif n.k == "CallExpr":
                g = self.prog.resolve(callee(n), self.fn.file) if callee(n) else None
                for i, a in enumerate(args(n)):
                    pt = g.params[i][1] if g is not None and i < len(g.params) else a.t
                    if isptr(pt) or isarr(pt):
                        if "const" not in pt.split("*")[0].split("[")[0]:
                            tgt.append(a)
            for t in tgt:
                t0 = strip(t)
                if n.k != "CallExpr" and t0.k == "DeclRefExpr":
                    continue
                for x in t.walk():
                    if x.k == "DeclRefExpr":
                        v = env.get(x.ref)
                        if isinstance(v, tuple):
                            self.invalidate(v[1], None)
                        elif isinstance(v, Ptr):
                            self.invalidate(v.base, None)
                            for k in list(self.store):
                                if k[0][0] == "field" and k[0][1] == v.base and k[1] not in ("ver", "ptr"):
                                    if n.k == "CallExpr" or any(y.k == "MemberExpr" and y.name == k[0][2]
                                                                for y in t.walk()):
                                        del self.store[k]
                        break

    # ---- expressions
    def ev(self, e, env):
        if e is None:
            return None
        k = e.k
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            if e.op == "LValueToRValue":
                inner = e.kids[0]
                l = self.lval(inner, env)
                return self.load(l, strip(inner), env)
            if e.op == "ArrayToPointerDecay":
                l = self.lval(e.kids[0], env)
                if l is not None and l[0] == "mem":
                    return Ptr(l[1], l[2])
                if l is not None and l[0] == "var":
                    v = env.get(l[1])
                    return v if isinstance(v, Ptr) else None
                return None
            if e.op == "NullToPointer":
                return None
            v = self.ev(e.kids[-1], env)
            if e.op in ("FloatingToIntegral",):
                return self.fresh("f2i")
            if e.op in ("IntegralToFloating",):
                return None
            return v
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(e.kids[0], env)
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return P(int(e.val))
        if k in ("FloatingLiteral", "StringLiteral"):
            return None
        if k == "UnaryExprOrTypeTraitExpr":
            return P(sizeof(e.ex or (e.kids[0].t if e.kids else "int")))
        if k in ("DeclRefExpr", "ArraySubscriptExpr", "MemberExpr"):
            l = self.lval(e, env)
            if l is None:
                return None
            if l[0] == "mem" and isarr(l[3]):
                return Ptr(l[1], l[2])
            if l[0] == "var":
                v = env.get(l[1])
                return v if not isinstance(v, (str, tuple)) else None
            return None
        if k == "UnaryOperator":
            if e.op == "&":
                l = self.lval(e.kids[0], env)
                if l is None:
                    return None
                if l[0] == "mem":
                    return Ptr(l[1], l[2])
                # address of a scalar: it becomes a memory object of its own
                base = ("scalar", self.fn.file, self.fn.name, l[1], len(self.frames))
                if base not in self.bases:
                    self.bases[base] = dict(extent=None, local=self.scalar_scope(l[1]), name=l[2])
                env[l[1]] = self.fresh("addr_" + l[2])
                return Ptr(base)
            if e.op in ("++", "--"):
                l = self.lval(e.kids[0], env)
                old = self.load(l, strip(e.kids[0]), env) if l is not None else None
                one = 1 if e.op == "++" else -1
                new = None
                if isinstance(old, Poly):
                    new = old + one
                elif isinstance(old, Ptr):
                    new = Ptr(old.base, old.off + one * sizeof(pointee(e.kids[0].t)))
                if l is not None and l[0] == "var":
                    self.note_scalar_write(l[1], l[2], e.line)
                    env[l[1]] = new
                elif l is not None:
                    self.access("w", l[1], l[2], sizeof(l[3]), e, True)
                    self.invalidate(l[1], l[2])
                return old if e.ex else new
            if e.op == "*":
                l = self.lval(e, env)
                return self.load(l, e, env) if l is not None and not isarr(l[3]) else (Ptr(l[1], l[2]) if l else None)
            v = self.ev(e.kids[0], env)
            if e.op == "-" and isinstance(v, Poly):
                return -v
            if e.op == "+":
                return v
            return self.fresh("un") if isint(e.t) else None
        if k == "BinaryOperator":
            return self.binop(e, env)
        if k == "CompoundAssignOperator":
            r = self.ev(e.kids[1], env)
            l = self.lval(e.kids[0], env)
            if l is None:
                return None
            if l[0] == "var":
                old = env.get(l[1])
                if isinstance(old, str):
                    self.uninit(old, l, e, env)
                    old = None
                new = None
                if isinstance(old, Poly) and isinstance(r, Poly):
                    op = e.op[:-1]
                    new = old + r if op == "+" else old - r if op == "-" else old * r if op == "*" else self.fresh("ca")
                elif isinstance(old, Ptr) and isinstance(r, Poly):
                    sz = sizeof(pointee(e.kids[0].t))
                    new = Ptr(old.base, old.off + r * sz * (1 if e.op == "+=" else -1))
                elif isint(e.t):
                    new = self.fresh("ca")
                self.note_scalar_write(l[1], l[2], e.line)
                env[l[1]] = new
                return new
            self.access("r", l[1], l[2], sizeof(l[3]), e, True)
            self.access("w", l[1], l[2], sizeof(l[3]), e, True)
            if isint(l[3]):
                old = self.store.get((l[1], l[2]))
                self.invalidate(l[1], l[2])
                if isinstance(old, Poly) and isinstance(r, Poly) and l[2].isconst() and e.op in ("+=", "-=", "*="):
                    self.store[(l[1], l[2])] = old + r if e.op == "+=" else old - r if e.op == "-=" else old * r
            return None
        if k == "ConditionalOperator":
            self.ev(e.kids[0], env)
            a = self.ev(e.kids[1], env)
            b = self.ev(e.kids[2], env)
            if a == b and a is not None:
                return a
            if isinstance(a, Poly) and isinstance(b, Poly):
                return self.opaque(("sel", src(e.kids[0]), a, b))
            if isinstance(a, Ptr):
                return a
            if isinstance(b, Ptr):
                return b
            return self.fresh("c") if isint(e.t) else None
        if k == "CallExpr":
            return self.call(e, env)
        if k == "InitListExpr":
            for c in e.kids:
                self.ev(c, env)
            return None
        for c in e.kids:
            self.ev(c, env)
        return self.fresh("x") if isint(e.t) else None

    def scalar_scope(self, vid):
        fr = self.frames[-1]
        out = []
        for lp in self.loops:
            if lp.omp and lp.fn is self.fn and self.frame_of(lp) is fr:
                if vid in lp.private or vid in lp.declared or vid in lp.reduction:
                    out.append(lp)
            elif self.frame_of(lp) is not fr:
                out.append(lp)
        if fr is not self.frames[0]:
            return list(self.loops) if not any(lp.fn is self.fn for lp in self.loops) else out
        return out

    def binop(self, e, env):
        op = e.op
        if op == "=":
            v = self.ev(e.kids[1], env)
            if v is None and isint(e.kids[0].t):
                v = self.fresh("v")
            self.assign(e.kids[0], v, env, e)
            return v
        if op == ",":
            self.ev(e.kids[0], env)
            return self.ev(e.kids[1], env)
        a = self.ev(e.kids[0], env)
        b = self.ev(e.kids[1], env)
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in ("+", "-"):
            sz = sizeof(pointee(e.kids[0].t))
            return Ptr(a.base, a.off + b * sz * (1 if op == "+" else -1))
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+":
            return Ptr(b.base, b.off + a * sizeof(pointee(e.kids[1].t)))
        if isinstance(a, Poly) and isinstance(b, Poly) and isint(e.t):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                return self.divmod(a, b, op)
            if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return self.fresh("b")
            return self.opaque(("op", op, a, b))
        return self.fresh("bo") if isint(e.t) else None

    def divmod(self, a, b, op):
        q = a.divpoly(b) if b.t else None
        if q is not None:
            return q if op == "/" else P(0)
        # a = sum of multiples of b + remainder r with 0 <= r < b
        if len(b.t) == 1:
            mult, rest = {}, {}
            for m, c in a.t.items():
                d = Poly({m: c}).divpoly(b)
                if d is not None:
                    for mm, cc in d.t.items():
                        mult[mm] = mult.get(mm, 0) + cc
                else:
                    rest[m] = c
            r = Poly(rest)
            if mult and self.ctx.nonneg(r) and self.ctx.nonneg(b - r - 1):
                return Poly(mult) if op == "/" else r
            if not mult and self.ctx.nonneg(r) and self.ctx.nonneg(b - r - 1):
                return P(0) if op == "/" else r
        s = self.opaque(("div" if op == "/" else "mod", a, b), lo=None)
        sy = next(iter(s.syms()))
        if op == "%" and self.ctx.nonneg(a):
            self.ctx.range.setdefault(sy, (P(0), b - 1))
            if sy not in self.ctx.order:
                self.ctx.order.append(sy)
        elif op == "/" and self.ctx.nonneg(a):
            self.ctx.lo.setdefault(sy, 0)
        return s

    # ---- calls
    def call(self, e, env):
        name = callee(e)
        al = args(e)
        if name in ("malloc", "LAPACKE_malloc"):
            size = self.ev(al[0], env)
            self.n += 1
            base = ("heap", self.fn.file, self.fn.name, e.line, self.n)
            self.bases[base] = dict(extent=size if isinstance(size, Poly) else None, local=list(self.loops),
                                    name="heap@%s" % e.line, conds=list(self.conds))
            return Ptr(base)
        if name == "calloc":
            size = [self.ev(a, env) for a in al]
            self.n += 1
            base = ("heap", self.fn.file, self.fn.name, e.line, self.n)
            self.bases[base] = dict(extent=size[0] * size[1] if all(isinstance(x, Poly) for x in size) else None,
                                    local=list(self.loops), name="heap@%s" % e.line)
            self.inited.add(base)
            return Ptr(base)
        vals = [self.ev(a, env) for a in al]
        if name in ("free", "LAPACKE_free"):
            return None
        if name in ("memcpy", "memset", "memmove"):
            n = vals[2] if isinstance(vals[2], Poly) else None
            if isinstance(vals[0], Ptr):
                self.access("w", vals[0].base, vals[0].off, n if n is not None else 1, e)
            if name != "memset" and isinstance(vals[1], Ptr):
                self.access("r", vals[1].base, vals[1].off, n if n is not None else 1, e)
            return vals[0]
        g = self.prog.resolve(name, self.fn.file) if name else None
        if g is None:
            self.unknown_calls.add(name or src(e.kids[0]))
            for a, v in zip(al, vals):
                if isinstance(v, Ptr):
                    pt = pointee(a.t)
                    raw = a.t
                    # pointer to non-const passed to an external function: may be written
                    w = "const" not in raw.split("*")[0] and name not in PURE
                    if w:
                        self.escaped.add(v.base)
                    self.access("w" if w else "r", v.base, v.off, None, e)
            return self.fresh("ret") if isint(e.t) else None
        if len(self.frames) > self.maxdepth or any(f[0] is g for f in self.frames):
            raise Abort("call depth exceeded at %s in %s" % (name, self.fn.name))
        env2 = {}
        for (pn, pt, pid), v, a in zip(g.params, vals, al):
            if v is None and isint(pt):
                v = self.fresh("arg_" + pn)
            env2[pid] = v
        saved = self.ctx.facts
        self.ctx.facts = list(saved)
        r = self.call_body(g, env2, e)
        self.ctx.facts = saved
        if r is None and isint(e.t):
            return self.fresh("ret_" + name)
        return r


PURE = {"printf", "fprintf", "fflush", "sqrt", "exp", "cos", "sin", "fabs", "pow", "creal", "cimag", "conj", "sinh",
        "cosh", "tanh", "log", "gn", "IJ", "g", "n", "I", "J", "omp_get_thread_num", "omp_get_max_threads"}
