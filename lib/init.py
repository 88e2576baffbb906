"""Is memory written before it is read?  Works on the access records of csym.Exec.

For a block of scratch memory every read is compared with the stores that can precede it: in small
instances of the index arithmetic (stores under data-dependent conditions counted as taken) every
byte read must have been stored to; and stores that are all subject to a condition on the data must
be matched by a read subject to it as well."""
import race
from csym import Cond, isint
from cfront import strip, args, callee
from poly import P, Poly


def root(b):
    """(outermost object, reached through a pointer stored in it)"""
    ind = False
    while b[0] in ("field", "deref", "load"):
        ind = ind or b[0] != "field"
        b = b[1]
    return b, ind


def polys(c):
    for x in c[1:]:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, list):
            for y in x:
                yield from polys(y)


def opaque(c):
    return c[0] in ("float", "opq") or c[0] in ("and", "or") and any(opaque(x) for x in c[1])


class Init:
    def __init__(self, ex):
        self.ex = ex
        self.m = race.Model(ex, 0, 0)
        self.ass = {}
        self.par = {}
        for n, a in enumerate(ex.accs):
            a.root = n
        self.tie()

    def tie(self):
        """Interface contract: number of bands = 3 x number of primitive atoms."""
        syms = set()
        for a in self.ex.accs:
            for p in (a.off, a.size):
                if isinstance(p, Poly):
                    syms |= self.m.closure(p)
            for l in a.loops:
                for d in l.digits:
                    for p in self.ex.ctx.range.get(d, ()):
                        syms |= self.m.closure(p)

        def dim(s, frag):
            return s[0] == "k" and s[1] == "ld" and s[3] in (P(8), P(4)) and frag(s[2])
        nb = [s for s in syms if dim(s, lambda b: b[0] == "field" and b[2] == "dims" and b[1][0] == "param" and "frequencies" in b[1][2])]
        na = [s for s in syms if dim(s, lambda b: b[0] == "param" and "multi" in b[2])]
        nb += [s for s in syms if s[0] == "p" and s[2] == "num_band"]
        na += [s for s in syms if s[0] == "p" and s[2] == "num_patom"]
        for s in nb:
            self.ex.tie[s] = (na[0] if na else ("p", "", "num_patom"), 3)
        self.ex.ctx.lo.setdefault(("p", "", "num_patom"), 1)

    def pure(self, c):
        """Decided by parameters and loop counters alone."""
        if opaque(c):
            return False
        for p in polys(c):
            for s in self.m.closure(p):
                if s[0] not in ("p", "i") and not (s[0] == "k" and s[1] in ("div", "mod")) and \
                        not (s[0] == "k" and s[1] == "ld" and not self.m.closure(s[3]) and s[2][0] in ("field", "param")):
                    return False
        return True

    # ---- data a condition depends on
    def data(self, node, stack, depth=0):
        out = set()
        if not stack:
            return out
        fn, call = stack[-1]
        env = self.assigns(fn)
        pn = {pid: i for i, (_, _, pid) in enumerate(fn.params)}
        todo, seen = [node], set()
        while todo:
            for x in self.nodes(todo.pop(), fn, stack, out, depth):
                if x.k == "DeclRefExpr" and x.refk in ("VarDecl", "ParmVarDecl") and x.ref not in seen:
                    seen.add(x.ref)
                    if x.ref in env["counters"]:
                        continue
                    if x.ref in pn and call is not None and depth < 8 and pn[x.ref] < len(args(call)):
                        out |= self.data(args(call)[pn[x.ref]], stack[:-1], depth + 1)
                    else:
                        out.add((fn.name, x.name))
                    todo += env["rhs"].get(x.ref, [])
        return out

    def nodes(self, n, fn, stack, out, depth):
        """The subtree of a node; a call of a function of the program stands for what its result depends on."""
        todo = [n]
        while todo:
            x = todo.pop()
            if x is None:
                continue
            if x.k == "CallExpr" and depth < 8:
                g = self.ex.prog.resolve(callee(x), fn.file)
                if g is not None and g.ret.strip() != "void" and not any(q[0] is g for q in stack):
                    out |= self.result(g, stack + ((g, x),), depth + 1)
                    continue
            yield x
            todo += x.kids[:1] if x.k == "ArraySubscriptExpr" else x.kids

    def result(self, g, stack, depth):
        env, up, out, todo, seen = self.assigns(g), self.parents(g), set(), [], set()

        def around(n):
            while id(n) in up:
                q = up[id(n)]
                if q.k == "IfStmt" and q.kids[0] is not n and id(q) not in seen:
                    seen.add(id(q))
                    todo.append(q.kids[0])
                n = q
        for n in g.body.walk():
            if n.k == "ReturnStmt" and n.kids:
                todo.append(n.kids[0])
                around(n)
        while todo:
            n = todo.pop()
            out |= self.data(n, stack, depth)
            for x in n.walk():
                if x.k == "DeclRefExpr" and x.ref not in seen:
                    seen.add(x.ref)
                    for r in env["rhs"].get(x.ref, []):
                        around(r)
        return out

    def parents(self, fn):
        r = self.par.get(id(fn))
        if r is None:
            r = self.par[id(fn)] = {id(k): n for n in fn.body.walk() for k in n.kids if k is not None}
        return r

    def assigns(self, fn):
        r = self.ass.get(id(fn))
        if r is None:
            rhs, cnt = {}, set()
            for n in fn.body.walk():
                if n.k == "VarDecl" and n.kids:
                    rhs.setdefault(n.id, []).extend(k for k in n.kids if k is not None and not k.k.endswith("Attr"))
                elif n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                    l = strip(n.kids[0])
                    if l is not None and l.k == "DeclRefExpr":
                        rhs.setdefault(l.ref, []).append(n.kids[1])
                elif n.k == "ForStmt" and n.kids[0] is not None:
                    for x in n.kids[0].walk():
                        if x.k == "BinaryOperator" and x.op == "=":
                            l = strip(x.kids[0])
                            if l is not None and l.k == "DeclRefExpr":
                                cnt.add(l.ref)
                        elif x.k == "VarDecl":
                            cnt.add(x.id)
            r = self.ass[id(fn)] = dict(rhs=rhs, counters=cnt)
        return r

    # ---- conditions on the data
    def guards(self, a, base):
        """{branch: truth} of the data-dependent branches around an access, since the block was allocated."""
        skip = self.ex.bases.get(base, {}).get("conds", [])
        out = {}
        for i, c in enumerate(a.conds):
            if i < len(skip) and c is skip[i]:
                continue
            if isinstance(c, Cond) and not c.exit and not self.pure(c):
                out[(id(c.node), c.serial)] = (c.truth, c)
        return out

    def covers(self, gs, depth=0):
        """Some store of the list is executed whatever the branches do."""
        if any(not g for g in gs):
            return True
        if not gs or depth > 10:
            return False
        k = next(iter(gs[0]))
        for t in (True, False):
            sub = [{q: v for q, v in g.items() if q != k} for g in gs if k not in g or g[k][0] == t]
            if not self.covers(sub, depth + 1):
                return False
        return True

    def precede(self, base, r, W):
        loc = set(map(id, self.ex.bases.get(base, {}).get("local", [])))
        mine = {id(l) for l in r.loops} - loc
        out = []
        for w in W:
            if w.root < r.root:
                out.append(w)
            elif mine & {id(l) for l in w.loops} and not (w.off == r.off and [id(c) for c in w.conds] == [id(c) for c in r.conds]):
                out.append(w)
        return out

    def looped(self, c):
        """The branch can be taken more than once with different outcomes."""
        for n, (fn, _) in zip([c.node] + [x[1] for x in reversed(c.stack[1:])], reversed(c.stack)):
            up = self.parents(fn)
            while n is not None and id(n) in up:
                n = up[id(n)]
                if n.k in ("ForStmt", "WhileStmt", "DoStmt"):
                    return True
        return not c.stack

    def first(self, base, r, pre):
        """Every store follows the read in the body of a loop around both, and the read is made in its first iteration."""
        side = {(id(c.node), c.serial): c.truth for c in r.conds if isinstance(c, Cond) and not self.looped(c)}

        def other(w):
            return any(isinstance(c, Cond) and side.get((id(c.node), c.serial), c.truth) != c.truth for c in w.conds)
        pre = [w for w in pre if not other(w)]
        if any(w.root < r.root for w in pre):
            return False
        if all({id(c) for c in r.conds} <= {id(c) for c in w.conds} and {id(l) for l in r.loops} <= {id(l) for l in w.loops} for w in pre):
            return True
        b = self.ex.bases.get(base, {})
        loc = set(map(id, b.get("local", [])))
        mine = [l for l in r.loops if id(l) not in loc]
        dig = {d for l in mine if l.sym is not None for d in l.digits}
        for c, d in zip(r.conds, list(b.get("conds", [])) + [None] * len(r.conds)):
            if c is not d and (not self.pure(c) or any(self.m.closure(q) & dig for q in polys(c)) or r.dead()):
                return False
        if any(l.sym is None for l in mine):
            return False
        return not any(s in dig or s[0] == "o" for d in dig for q in self.ex.ctx.range.get(d, ()) for s in self.m.closure(q))

    def read(self, base, r, W):
        """None: proved or undecided (second item tells which), else text of the defect."""
        pre = self.precede(base, r, W)
        if not pre:
            return "no store to it comes first", None
        if any(w.size is None for w in pre):
            return None, "external"
        ok = 0
        pc = {id(w): [c for c in w.conds if self.pure(c)] for w in pre}
        guard = {id(w): self.guards(w, base) for w in pre}
        rg = self.guards(r, base)
        off = self.m.closure(r.off)
        cnt = {s for s in off if s[0] == "o" and s not in self.ex.first}
        rc = [c for c in r.conds if self.pure(c) or any(self.m.closure(p) & off for p in polys(c))]
        if self.first(base, r, pre):
            return "no store to it comes first", None
        for w in pre:
            if any(s[0] == "o" for s in race.direct(w.off)):    # packed: the condition decides where the next one goes
                guard[id(w)] = {}
        verdict = {}
        for seed in range(12):
            if ok >= 6:
                break
            for ch in range(3):
                try:
                    rs = race.enumerate_access(self.ex, None, r, ch, seed, cap=60000, span=10000, only=rc, counts=cnt)
                    if len(rs) >= 60000:
                        continue
                    cov = {}
                    for n, w in enumerate(pre):
                        for _, s, e, _ in race.enumerate_access(self.ex, None, w, ch, seed, cap=60000, span=10000, only=pc[id(w)], counts=cnt):
                            for x in range(s, e):
                                cov[x] = cov.get(x, 0) | 1 << n
                except race.Unknown as u:
                    return None, "unknown %s" % (u.args[0],)
                except race.Skip:
                    continue
                for _, s, e, _ in rs:
                    for x in (s, e - 1):
                        m = cov.get(x, 0)
                        if not m:
                            return "the stores before it leave out some of the elements read", None
                        if m not in verdict:
                            ws = [guard[id(w)] for n, w in enumerate(pre) if m >> n & 1]
                            verdict[m] = self.conditional(ws, rg)
                        if verdict[m]:
                            return verdict[m], None
                if rs:
                    ok += 1
        return None, None if ok else "empty"

    def conditional(self, ws, rg):
        ws = [{k: v for k, v in g.items() if not (k in rg and rg[k][0] == v[0])} for g in ws
              if not any(k in rg and rg[k][0] != v[0] for k, v in g.items())]
        if self.covers(ws):
            return None
        wd = set()
        for g in ws:
            for t, c in g.values():
                wd |= self.data(c.node, c.stack)
        for k, (t, c) in rg.items():
            if all(k in g for g in ws) and ws:
                continue
            if wd & self.data(c.node, c.stack):
                return None
        return "it is stored only under a condition, and read without one"

    def listed(self, w):
        """Stored at places taken from a table of positions (integers in memory, by loop counter)."""
        dig = {d for l in w.loops if l.sym is not None for d in l.digits}
        return any(s[0] == "k" and s[1] == "ld" and self.m.closure(s[3]) & dig for s in race.direct(w.off))

    def partial(self, base, W):
        """A store is made to some elements only under a condition on the data, or only to the elements on a list,
        and no other store fills them."""
        W = [w for w in W if w.size is not None]
        if not W:
            return None
        pc = {id(w): [c for c in w.conds if self.pure(c)] for w in W}
        guard = {id(w): self.guards(w, base) for w in W}
        verdict, ok = {}, 0
        for seed in range(8):
            if ok >= 4:
                break
            for ch in range(3):
                cov = {}
                try:
                    m, on = race.Model(self.ex, ch, seed), []
                    for w in W:
                        if self.listed(w) and all(m.cond(c, set()) for c in pc[id(w)]):
                            on.append(w)
                    for n, w in enumerate(W):
                        if self.listed(w):
                            continue
                        for _, s, e, _ in race.enumerate_access(self.ex, None, w, ch, seed, cap=20000, span=10000, only=pc[id(w)]):
                            cov[s] = cov.get(s, 0) | 1 << n
                except (race.Unknown, race.Skip):
                    continue
                if on and not cov:
                    return on[0]
                ok += bool(cov)
                for m in set(cov.values()):
                    if m not in verdict:
                        ws = [guard[id(w)] for n, w in enumerate(W) if m >> n & 1]
                        verdict[m] = None if self.covers(ws) else [w for n, w in enumerate(W) if m >> n & 1][0]
                    if verdict[m] is not None:
                        return verdict[m]
        return None
