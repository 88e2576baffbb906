"""Heap-ownership typestate over CFGs (path-sensitive, callees that touch ownership inlined)."""
import re
from cfront import strip, callee, args, src
from ccfg import CFG

ALLOC = {"malloc", "calloc", "LAPACKE_malloc", "aligned_alloc", "strdup"}
REALLOC = {"realloc"}
FREE = {"free", "LAPACKE_free"}
CAP = 4000

NULL = ("null",)
OTHER = ("other",)


class TooComplex(Exception):
    pass


class St:
    """Immutable-by-convention abstract state."""
    __slots__ = ("env", "tok", "facts")

    def __init__(self, env=None, tok=None, facts=None):
        self.env = env or {}
        self.tok = tok or {}
        self.facts = facts or {}

    def copy(self):
        return St(dict(self.env), dict(self.tok), dict(self.facts))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.tok.items()), frozenset(self.facts.items()))


class Ownership:
    def __init__(self, resolve, report, count):
        """resolve(name,file)->Func or None; report(rule,file,construct,msg,line); count(name,n)."""
        self.resolve, self.rep, self.count = resolve, report, count
        self.cfgs = {}
        self.memo = {}
        self.rel = {}
        self.stack = []
        self.steps = 0

    # ---- which functions matter
    def relevant(self, fn):
        """Function (transitively) allocates or frees."""
        k = (fn.file, fn.name)
        if k in self.rel:
            return self.rel[k]
        self.rel[k] = False
        r = False
        for n in fn.body.walk():
            if n.k == "CallExpr":
                c = callee(n)
                if c in ALLOC or c in FREE or c in REALLOC:
                    r = True
                    break
                g = self.resolve(c, fn.file) if c else None
                if g is not None and g.body is not None and self.inlinable(g):
                    r = True
                    break
        self.rel[k] = r
        return r

    def inlinable(self, g):
        """Ownership can cross this call: it returns a pointer or may release a parameter."""
        k = ("inl", g.file, g.name)
        if k in self.rel:
            return self.rel[k]
        self.rel[k] = False
        r = False
        if self.relevant(g):
            if "*" in g.ret:
                r = True
            else:
                pids = {p[2] for p in g.params if "*" in p[1] or "[" in p[1]}
                for n in g.body.walk():
                    if n.k == "CallExpr":
                        c = callee(n)
                        h = self.resolve(c, g.file) if c else None
                        if c in FREE or c in REALLOC or (h is not None and h.body is not None and self.inlinable(h)):
                            for a in args(n):
                                if any(x.k == "DeclRefExpr" and x.ref in pids for x in a.walk()):
                                    r = True
                    # stores an allocation into caller memory
                    if n.k == "BinaryOperator" and n.op == "=":
                        l = strip(n.kids[0])
                        if l.k != "DeclRefExpr" and "*" in l.t and any(
                                x.k == "DeclRefExpr" and x.ref in pids for x in l.walk()):
                            rr = strip(n.kids[1])
                            if rr.k == "CallExpr":
                                r = True
        self.rel[k] = r
        return r

    def cfg(self, fn):
        k = (fn.file, fn.name)
        if k not in self.cfgs:
            c = CFG(fn)
            self._mark(c, fn)
            self.cfgs[k] = c
        return self.cfgs[k]

    def _mark(self, c, fn):
        """Branches worth forking facts for: conditions guarding ownership events or exits."""
        pass

    # ---- analysis of a root function
    def root(self, fn):
        st = St()
        for (name, ty, pid) in fn.params:
            if "*" in ty or "[" in ty:
                t = ("P", name, 0)
                st.env[(fn.file, pid)] = ("tok", t)
                st.tok[t] = "param"
            else:
                st.env[(fn.file, pid)] = ("sym", fn.file, fn.name, name)
        self.count("functions")
        return self.run(fn, st, root=True)

    def run(self, fn, st0, root=False):
        """All exit states [(retval, state)] of fn started in st0 (params already bound)."""
        mk = (fn.file, fn.name, st0.key(), root)
        if mk in self.memo:
            return self.memo[mk]
        if (fn.file, fn.name) in self.stack:
            return [(OTHER, st0)]
        self.stack.append((fn.file, fn.name))
        g = self.cfg(fn)
        pre = {t for t in st0.tok}
        seen = {}
        work = [(g.entry, st0)]
        exits = {}
        while work:
            node, st = work.pop()
            k = st.key()
            s = seen.setdefault(node.i, set())
            if k in s:
                continue
            s.add(k)
            self.steps += 1
            if len(s) > CAP:
                raise TooComplex("%s:%s" % (fn.file, fn.name))
            for nxt, ns in self.step(fn, g, node, st, exits):
                work.append((nxt, ns))
        out = []
        for (ret, st) in exits.values():
            self.leakcheck(fn, ret, st, pre, root)
            # drop locals of this frame
            ns = St({p: v for p, v in st.env.items() if not (p[0] == fn.file and p[1] in self.local_ids(fn))},
                    st.tok, {k: v for k, v in st.facts.items() if k[0] != (fn.file, fn.name)
                     and (k[0] != "sym" or k[1] in st.env.values())})
            out.append((ret, ns))
        self.stack.pop()
        uniq = {}
        for r, s in out:
            uniq[(r, s.key())] = (r, s)
        self.memo[mk] = list(uniq.values())
        return self.memo[mk]

    def local_ids(self, fn):
        k = ("loc", fn.file, fn.name)
        if k not in self.rel:
            ids = {p[2] for p in fn.params}
            for n in fn.body.walk():
                if n.k == "VarDecl":
                    ids.add(n.id)
            self.rel[k] = ids
        return self.rel[k]

    def reachable(self, st, vals):
        """Tokens reachable from values through stored fields."""
        todo = [v[1] for v in vals if v[0] == "tok"]
        got = set()
        while todo:
            t = todo.pop()
            if t in got:
                continue
            got.add(t)
            for p, v in st.env.items():
                if p[0] == "F" and p[1] == t and v[0] == "tok":
                    todo.append(v[1])
        return got

    def leakcheck(self, fn, ret, st, pre, root):
        keep = [ret]
        loc = self.local_ids(fn)
        for p, v in st.env.items():
            if p[0] == "F":
                if isinstance(p[1], tuple) and p[1] in pre:
                    keep.append(v)
            elif p[0] == fn.file and p[1] in loc:
                continue
            else:
                keep.append(v)
        ok = self.reachable(st, keep)
        # pre-existing (caller's) tokens and what hangs below them stay reachable
        ok |= self.reachable(st, [("tok", t) for t in pre])
        for t, s in st.tok.items():
            if s in ("live", "maynull") and t not in ok and t not in pre:
                self.rep("leak", fn.file, "%s: block allocated for '%s'" % (fn.name, t[1]),
                         "not released on a path that leaves the function (allocated at line %s)" % t[2], t[2])
                st.tok[t] = "leaked"

    # ---- transfer
    def step(self, fn, g, node, st, exits):
        k = node.kind
        if k in ("join", "case"):
            return [(s, st) for s in node.succ]
        if k == "switch":
            out = []
            for ns, _v in self.ev(fn, node.ast, st):
                out += [(s, ns) for s in node.succ]
            return out
        if k == "exit":
            return []
        if k == "expr":
            return [(node.succ[0], ns) for ns, _ in self.ev(fn, node.ast, st)] if node.succ else []
        if k == "decl":
            sts = [st]
            for d in node.ast.kids:
                if d.k != "VarDecl":
                    continue
                nx = []
                init = [c for c in d.kids if c is not None]
                for s in sts:
                    if init:
                        for ns, v in self.ev(fn, init[-1], s):
                            nx.append(self.assign(fn, ns, (fn.file, d.id), v, d.name))
                    else:
                        nx.append(self.assign(fn, s, (fn.file, d.id), OTHER, d.name))
                sts = nx
            return [(node.succ[0], s) for s in sts]
        if k == "return":
            e = node.ast.kids[0] if node.ast is not None and node.ast.kids else None
            if e is None:
                exits[(OTHER, st.key())] = (OTHER, st)
            else:
                for ns, v in self.ev(fn, e, st):
                    if v[0] == "tok" and ns.tok.get(v[1]) == "freed":
                        self.rep("use-after-free", fn.file, "%s: return of '%s'" % (fn.name, v[1][1]),
                                 "returns a released block", node.line)
                    exits[(v, ns.key())] = (v, ns)
            return []
        if k == "branch":
            out = []
            for ns, truth in self.evcond(fn, g, node, st):
                if truth in (True, None):
                    out.append((node.succ[0], ns[0] if isinstance(ns, tuple) else ns))
                if truth in (False, None):
                    out.append((node.succ[1], ns[1] if isinstance(ns, tuple) else ns))
            return out
        raise AssertionError(k)

    def evcond(self, fn, g, node, st):
        c = strip(node.ast)
        res = []
        for ns, v in self.ev(fn, c, st, cond=True):
            if v[0] == "cmp":        # (value compared with NULL, truth when null)
                val, whennull, place = v[1], v[2], v[3]
                if val == NULL:
                    res.append((ns, whennull))
                elif val[0] == "tok":
                    s = ns.tok.get(val[1])
                    if s == "param" or s == "maynull":
                        # parameter or fresh allocation: either way
                        a = ns.copy()
                        a.tok.pop(val[1], None)
                        for p in [p for p, q in a.env.items() if q == val]:
                            a.env[p] = NULL
                        b = ns.copy()
                        b.tok[val[1]] = "live" if s == "maynull" else "paramnn"
                        res.append((a, whennull))
                        res.append((b, not whennull))
                    else:
                        res.append((ns, not whennull))
                else:
                    res.append((ns, None))
            elif v[0] == "const":
                res.append((ns, bool(v[1])))
            elif v[0] == "pos":
                res.append((ns, True if node.key == "first" else None))
            elif v[0] == "symcmp":
                fk = ("sym",) + v[1:]
                if fk in ns.facts:
                    res.append((ns, ns.facts[fk]))
                else:
                    for b in (True, False):
                        a = ns.copy()
                        a.facts[fk] = b
                        res.append((a, b))
            elif node.key == "again":
                res.append((ns, None))
            else:
                fk = ((fn.file, fn.name), (node.key or "") + src(c))
                if self.repeats(fn, g, fk[1]) < 2:
                    res.append((ns, None))
                elif fk in ns.facts:
                    res.append((ns, ns.facts[fk]))
                elif self.stable(fn, c):
                    a, b = ns.copy(), ns.copy()
                    a.facts[fk] = True
                    b.facts[fk] = False
                    res.append((a, True))
                    res.append((b, False))
                else:
                    res.append((ns, None))
        return res

    def repeats(self, fn, g, key):
        """How many branches of the function test the same condition (only then can facts correlate)."""
        k = ("rep", fn.file, fn.name)
        if k not in self.rel:
            m = {}
            for n in g.nodes:
                if n.kind == "branch" and n.key != "again":
                    q = (n.key or "") + src(strip(n.ast))
                    m[q] = m.get(q, 0) + 1
            self.rel[k] = m
        return self.rel[k].get(key, 0)

    def stable(self, fn, c):
        """Condition over names never modified in the function (so its truth is a path fact).
        Loop counters start equal at loop entry, which is what 'first' tests compare."""
        mods = self.modified(fn)
        has = False
        for x in c.walk():
            if x.k == "CallExpr":
                return False
            if x.k == "DeclRefExpr" and x.refk in ("VarDecl", "ParmVarDecl"):
                if x.ref in mods and mods[x.ref] > 1:
                    return False
                has = True
        return has

    def modified(self, fn):
        k = ("mod", fn.file, fn.name)
        if k not in self.rel:
            m = {}

            def inc(ref, w):
                m[ref] = m.get(ref, 0) + w
            for n in fn.body.walk():
                if n.k == "ForStmt":
                    # induction variable: a single counted assignment for 'first' facts
                    pass
                if n.k in ("BinaryOperator",) and n.op == "=":
                    l = strip(n.kids[0])
                    if l.k == "DeclRefExpr":
                        # repeated initialisation of a loop counter by a constant is harmless
                        inc(l.ref, 0 if strip(n.kids[1]).k == "IntegerLiteral" else 1)
                    else:
                        for x in l.walk():
                            if x.k == "DeclRefExpr" and x.refk == "VarDecl":
                                inc(x.ref, 0)
                elif n.k == "CompoundAssignOperator":
                    l = strip(n.kids[0])
                    if l.k == "DeclRefExpr":
                        inc(l.ref, 2)
                elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                    l = strip(n.kids[0])
                    if l.k == "DeclRefExpr":
                        inc(l.ref, 0)
            self.rel[k] = m
        return self.rel[k]

    def assign(self, fn, st, place, v, name):
        ns = st.copy()
        if v[0] in ("cmp", "const"):
            v = NULL if (v[0] == "const" and v[1] == 0) else OTHER
        if v[0] == "tok" and v[1][1] == "?" and name:
            # name the token after the first variable that holds it
            new = (v[1][0], name) + v[1][2:]
            if new in ns.tok and new != v[1]:
                i = 1
                while new[:3] + (i,) in ns.tok and i < 3:
                    i += 1
                # an element place allocated again in a loop denotes the same summary block
                if place[0] == "E":
                    pass
                else:
                    new = new[:3] + (i,)
            ns.tok[new] = ns.tok.pop(v[1])
            for p in list(ns.env):
                if ns.env[p] == v:
                    ns.env[p] = ("tok", new)
                if p[0] == "F" and p[1] == v[1]:
                    ns.env[("F", new, p[2])] = ns.env.pop(p)
            v = ("tok", new)
        ns.env[place] = v
        return ns

    def place(self, fn, e, st):
        """(states, place or None, display name) of an lvalue; performs the uses inside it."""
        e = strip(e)
        if e.k == "DeclRefExpr":
            return [(st, (fn.file, e.ref), e.name)]
        if e.k == "MemberExpr":
            out = []
            for ns, bv in (self.ev(fn, e.kids[0], st) if e.ex else self.evaddr(fn, e.kids[0], st)):
                if bv[0] == "tok":
                    self.use(fn, ns, bv, e)
                    out.append((ns, ("F", bv[1], e.name), src(e)))
                elif bv[0] == "addr":
                    out.append((ns, ("F", bv[1], e.name), src(e)))
                else:
                    out.append((ns, None, src(e)))
            return out
        if e.k == "ArraySubscriptExpr":
            out = []
            b = strip(e.kids[0])
            for n1, bv in self.ev(fn, e.kids[0], st):
                for n2, _ in self.ev(fn, e.kids[1], n1):
                    if bv[0] == "tok":
                        self.use(fn, n2, bv, e)
                        if "*" in e.t:
                            out.append((n2, ("F", bv[1], "[]"), src(b) + "[]"))
                        else:
                            out.append((n2, None, src(e)))
                    elif b.k == "DeclRefExpr" and "*" in e.t:
                        out.append((n2, ("E", (fn.file, b.ref)), b.name + "[]"))
                    else:
                        out.append((n2, None, src(e)))
            return out
        if e.k == "UnaryOperator" and e.op == "*":
            out = []
            for ns, bv in self.ev(fn, e.kids[0], st):
                if bv[0] == "tok":
                    self.use(fn, ns, bv, e)
                    out.append((ns, ("F", bv[1], "*"), src(e)))
                elif bv[0] == "addr":
                    out.append((ns, bv[1], src(e)))
                else:
                    out.append((ns, None, src(e)))
            return out
        return [(ns, None, src(e)) for ns, _ in self.ev(fn, e, st)]

    def evaddr(self, fn, e, st):
        return [(s, ("addr", p) if p else OTHER) for s, p, _ in self.place(fn, e, st)]

    def use(self, fn, st, v, e):
        if v[0] == "tok" and st.tok.get(v[1]) == "freed":
            self.rep("use-after-free", fn.file, "%s: use of '%s'" % (fn.name, v[1][1]),
                     "the block is used after its release: %s" % src(e)[:80], e.line)

    def ev(self, fn, e, st, cond=False):
        """[(state, value)]."""
        e0 = e
        e = strip(e)
        if e is None:
            return [(st, OTHER)]
        k = e.k
        if k in ("IntegerLiteral", "GNUNullExpr", "CXXNullPtrLiteralExpr"):
            return [(st, ("const", int(e.val)) if e.val not in (None, "") else NULL)]
        if k == "DeclRefExpr":
            v = st.env.get((fn.file, e.ref), OTHER)
            return [(st, v)] if not cond else [(st, self.asbool(v, st))]
        if k in ("MemberExpr", "ArraySubscriptExpr") or (k == "UnaryOperator" and e.op == "*"):
            out = []
            for ns, p, nm in self.place(fn, e, st):
                v = OTHER
                if p is not None and "*" not in e.t and ns.env.get(p, OTHER)[0] == "sym":
                    v = ns.env[p]
                if p is not None and ("*" in e.t or "[" in e.t):
                    v = ns.env.get(p)
                    if v is None and p[0] == "F" and isinstance(p[1], tuple) and p[1][0] == "P" and "*" in e.t:
                        # a block reachable from a parameter belongs to the caller
                        t = ("P", nm, 0)
                        ns = ns.copy()
                        ns.tok.setdefault(t, "param")
                        v = ("tok", t)
                        ns.env[p] = v
                    v = v or OTHER
                if "[" in e.t and p is None:
                    v = OTHER
                out.append((ns, self.asbool(v, ns) if cond else v))
            return out
        if k == "UnaryOperator":
            if e.op == "&":
                return self.evaddr(fn, e.kids[0], st)
            out = []
            for ns, v in self.ev(fn, e.kids[0], st, cond and e.op == "!"):
                if e.op == "!" and v[0] == "cmp":
                    out.append((ns, ("cmp", v[1], not v[2], v[3])))
                elif e.op == "!" and v[0] == "const":
                    out.append((ns, ("const", int(not v[1]))))
                elif e.op in ("++", "--") and v[0] == "tok":
                    out.append((ns, v))
                elif e.op in ("++", "--") and v[0] == "sym":
                    ns = ns.copy()
                    pl = self.place(fn, e.kids[0], ns)[0][1]
                    if pl is not None:
                        ns.env[pl] = OTHER
                    out.append((ns, OTHER))
                else:
                    out.append((ns, OTHER))
            return out
        if k == "BinaryOperator":
            if e.op == "=":
                out = []
                for n1, v in self.ev(fn, e.kids[1], st):
                    for n2, p, nm in self.place(fn, e.kids[0], n1):
                        if p is None:
                            if v[0] == "tok" and n2.tok.get(v[1]) in ("live", "maynull"):
                                n2 = n2.copy()
                                n2.tok[v[1]] = "escaped"
                            out.append((n2, v))
                            continue
                        if v[0] == "const":
                            v2 = NULL if "*" in e.t else OTHER
                        else:
                            v2 = v
                        n3 = self.assign(fn, n2, p, v2, nm)
                        nv = n3.env[p]
                        out.append((n3, self.asbool(nv, n3, p) if cond else nv))
                return out
            if e.op in ("==", "!="):
                out = []
                for n1, a in self.ev(fn, e.kids[0], st):
                    for n2, b in self.ev(fn, e.kids[1], n1):
                        isnull = lambda x: x == NULL or (x[0] == "const" and x[1] == 0)
                        ptr = "*" in strip(e.kids[0]).t or "*" in strip(e.kids[1]).t
                        if ptr and isnull(b):
                            out.append((n2, ("cmp", a, e.op == "==", None)))
                        elif ptr and isnull(a):
                            out.append((n2, ("cmp", b, e.op == "==", None)))
                        else:
                            out.append((n2, OTHER))
                return out
            if e.op == ",":
                out = []
                for n1, _ in self.ev(fn, e.kids[0], st):
                    out += self.ev(fn, e.kids[1], n1)
                return out
            out = []
            for n1, a in self.ev(fn, e.kids[0], st):
                for n2, b in self.ev(fn, e.kids[1], n1):
                    if e.op in ("+", "-") and "*" in e.t and a[0] == "tok":
                        out.append((n2, a))       # interior pointer
                    elif e.op == "+" and "*" in e.t and b[0] == "tok":
                        out.append((n2, b))
                    elif cond and a[0] == "sym" and b[0] == "const":
                        out.append((n2, ("symcmp", a, e.op, b[1])))
                    elif a[0] == "const" and b[0] == "const" and e.op in ("<", ">", "<=", ">="):
                        out.append((n2, ("const", int(eval("%d%s%d" % (a[1], e.op, b[1]))))))
                    elif e.op == "<" and cond and b[0] == "const" and b[1] > 0 and strip(e.kids[0]).k == "DeclRefExpr":
                        # counted loop over a positive literal: entered (the 'first' test)
                        out.append((n2, ("pos", b[1])))
                    else:
                        out.append((n2, OTHER))
            return out
        if k == "CompoundAssignOperator":
            out = []
            for n1, _ in self.ev(fn, e.kids[1], st):
                for n2, p, _nm in self.place(fn, e.kids[0], n1):
                    out.append((n2, OTHER))
            return out
        if k == "ConditionalOperator":
            out = []
            for n1, _ in self.ev(fn, e.kids[0], st):
                out += self.ev(fn, e.kids[1], n1)
                out += self.ev(fn, e.kids[2], n1)
            return out
        if k == "CallExpr":
            return self.call(fn, e, st, cond)
        if k == "UnaryExprOrTypeTraitExpr":
            return [(st, OTHER)]
        sts = [st]
        for c in e.kids:
            if c is None:
                continue
            sts = [ns for s in sts for ns, _ in self.ev(fn, c, s)]
        return [(s, OTHER) for s in sts]

    def asbool(self, v, st, p=None):
        if v[0] == "tok" or v == NULL:
            return ("cmp", v, False, p)
        return v

    def call(self, fn, e, st, cond):
        name = callee(e)
        al = args(e)
        if name in ALLOC:
            sts = [st]
            for a in al:
                sts = [ns for s in sts for ns, _ in self.ev(fn, a, s)]
            out = []
            for s in sts:
                ns = s.copy()
                t = ("A", "?", e.line, 0)
                ns.tok[t] = "maynull"
                out.append((ns, ("tok", t)))
            self.count("allocation events")
            return out
        if name in FREE:
            out = []
            a = strip(al[0])
            for ns, v in self.ev(fn, al[0], st):
                if v[0] == "tok":
                    s = ns.tok.get(v[1])
                    elem = a.k == "ArraySubscriptExpr"
                    if s == "freed" and not elem:
                        self.rep("double-free", fn.file, "%s: free('%s')" % (fn.name, v[1][1]),
                                 "the block is released twice on a path", e.line)
                    if a.k == "BinaryOperator":
                        self.rep("bad-free", fn.file, "%s: free(%s)" % (fn.name, src(a)),
                                 "an interior pointer is released", e.line)
                    ns = ns.copy()
                    # blocks that only this block leads to are lost with it
                    ns.tok[v[1]] = "freed"
                elif v[0] == "addr":
                    self.rep("bad-free", fn.file, "%s: free(%s)" % (fn.name, src(a)), "releases a non-heap address", e.line)
                out.append((ns, OTHER))
            self.count("release events")
            return out
        g = self.resolve(name, fn.file) if name else None
        sts = [(st, [])]
        for a in al:
            sts = [(ns, vs + [v]) for s, vs in sts for ns, v in self.ev(fn, a, s)]
        if g is None or g.body is None:
            # library function or function pointer: arguments are used
            for s, vs in sts:
                for v, a in zip(vs, al):
                    self.use(fn, s, v, a)
            if name is None:
                f = strip(e.kids[0])
                self.ev(fn, f, st)
            return [(s, OTHER) for s, _ in sts]
        if not self.inlinable(g):
            for s, vs in sts:
                for v, a in zip(vs, al):
                    self.use(fn, s, v, a)
            return [(s, OTHER) for s, _ in sts]
        out = []
        for s, vs in sts:
            ns = s.copy()
            for (pn, pt, pid), v in zip(g.params, vs):
                if v[0] in ("const", "cmp"):
                    v = NULL if v == ("const", 0) and "*" in pt else OTHER
                if v == OTHER and "*" not in pt and "[" not in pt:
                    v = ("sym", g.file, g.name, pn)
                if v[0] == "tok":
                    if "*" in pt and s.tok.get(v[1]) == "freed" and not self.frees(g):
                        self.use(fn, s, v, e)
                    if s.tok.get(v[1]) == "freed":
                        self.use(fn, s, v, e)
                ns.env[(g.file, pid)] = v
            for ret, s2 in self.run(g, ns):
                if ret[0] in ("const",):
                    ret = NULL if (ret[1] == 0 and "*" in g.ret) else ret
                if ret[0] == "tok" and ret[1] in s2.tok and ret[1] not in s.tok and ret[1][0] == "A":
                    # freshly created by the callee: rename per call line to keep instances apart
                    s2 = s2.copy()
                    for t in [t for t in s2.tok if t not in s.tok and t[0] == "A"]:
                        new = ("A", t[1] if t != ret[1] else "?", e.line if t == ret[1] else t[2],
                               (t[3] if len(t) > 3 and isinstance(t[3], int) else 0), g.name, e.line)
                        s2.tok[new] = s2.tok.pop(t)
                        if t == ret[1]:
                            ret2 = ("tok", new)
                        for p in list(s2.env):
                            if s2.env[p] == ("tok", t):
                                s2.env[p] = ("tok", new)
                            if p[0] == "F" and p[1] == t:
                                s2.env[("F", new, p[2])] = s2.env.pop(p)
                    ret = ret2
                out.append((s2, ret))
        uniq = {}
        for s2, r in out:
            uniq[(r, s2.key())] = (s2, r)
        return list(uniq.values())

    def frees(self, g):
        return True
