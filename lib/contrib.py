"""Which scattering contributions a value contains, and how often: abstract interpretation of functions over their syntax trees.

A value is a set of alternatives; an alternative counts each contribution in it (sums add the counts, products keep the larger,
everything else passes them through).  Conditions on the requested options are decided, other conditions fork.  Methods of the
object's own class are interpreted in place.  A loop body is run twice, the second time without the additions whose target
element or added value changes with that loop, so an addition that the loop merely repeats is counted twice."""
import ast, itertools
import pyx

EMPTY = frozenset([()])
CAP = 24


def norm(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


def add(a, b, sign=1):
    out = set()
    for x in a:
        for y in b:
            d = dict(x)
            for k, v in y:
                d[k] = d.get(k, 0) + sign * v
            out.add(norm(d))
    return cap(out)


def comb(a, b):
    out = set()
    for x in a:
        for y in b:
            d = dict(x)
            for k, v in y:
                d[k] = max(d.get(k, 0), v)
            out.add(norm(d))
    return cap(out)


def cap(s):
    return frozenset(s) if len(s) <= CAP else frozenset([(("?", 1),)])


def union(a, b):
    return cap(set(a) | set(b))


class Val:
    __slots__ = ("alts", "deps", "ref", "kind", "items", "const", "born")

    def __init__(self, alts=EMPTY, deps=frozenset(), ref=None, kind="num", items=None, const=None):
        self.alts, self.deps, self.ref, self.kind, self.items, self.const = alts, deps, ref, kind, items, const
        self.born = frozenset()     # loop iterations under way when the name or attribute was last given a new value

    def flat(self):
        """Value as one number array."""
        if self.kind in ("list", "tuple") and self.items is not None:
            a, d = None, self.deps
            for x in self.items:
                x = x.flat()
                a = x.alts if a is None else union(a, x.alts)
                d |= x.deps
            return Val(a or EMPTY, d)
        if self.kind == "pair":
            return Val(frozenset([norm({"N": 1, "U": 1})]), self.deps, self.ref)
        return self


def join(a, b):
    if a is b:
        return a
    v = join0(a, b)
    if v.born != (a.born & b.born):
        w = Val(v.alts, v.deps, v.ref, v.kind, v.items, v.const)
        w.born = a.born & b.born
        return w
    return v


def join0(a, b):
    if a.kind == b.kind and a.kind in ("tuple", "list") and len(a.items) == len(b.items):
        return Val(kind=a.kind, items=[join(x, y) for x, y in zip(a.items, b.items)], deps=a.deps | b.deps)
    if a.kind == b.kind == "pair" or (a.kind == b.kind == "obj" and a.items is b.items):
        return a
    if a.kind == "obj" or b.kind == "obj":
        return a if a.kind == "obj" else b
    for x, y in ((a, b), (b, a)):
        if x.kind in ("tuple", "list") and y.kind == "num" and y.alts == EMPTY and y.ref is None:
            return x
    x, y = a.flat(), b.flat()
    return Val(union(x.alts, y.alts), x.deps | y.deps, x.ref if x.ref == y.ref else None)


class Frame:
    def __init__(self, f, cls, env):
        self.f, self.cls, self.env, self.rets = f, cls, env, []


class State:
    """Names of one function and attributes of the objects, per path."""
    def __init__(self, env, attrs, must):
        self.env, self.attrs, self.must = env, attrs, must

    def copy(self):
        return State(dict(self.env), dict(self.attrs), set(self.must))

    def merge(self, a, b):
        keys = set(a.env) | set(b.env)
        env = {}
        for k in keys:
            env[k] = join(a.env[k], b.env[k]) if k in a.env and k in b.env else (a.env.get(k) or b.env.get(k))
        attrs = {}
        for k in set(a.attrs) | set(b.attrs):
            x, y = a.attrs.get(k), b.attrs.get(k)
            attrs[k] = join(x, y) if x is not None and y is not None else (x if x is not None else y)
        self.env, self.attrs, self.must = env, attrs, a.must & b.must


class Interp:
    """seeds(cls, attr) -> alternatives or None; truth(cls, attr) -> True/False/None for decided options;
    hook(kind, interp, frame, state, node, data) is told of stores and calls."""

    def __init__(self, p, seeds, flags, kernels, hook, names=None):
        self.p, self.seeds, self.flags, self.kernels, self.hook = p, seeds, flags, kernels, hook
        self.loops = []          # [id, iteration]
        self.stack = []
        self.steps = 0
        self.callees = {}
        self.keyed = names or {}
        self.opaque = lambda a: False      # attributes whose plain assignment says nothing about contributions
        self.own_quals = {g.qual for g in p.own_funcs()}

    # ------------------------------------------------------------------ calls
    def callee(self, f, node):
        if f.qual not in self.callees:
            self.callees[f.qual] = {id(e.node): e for e in self.p.events(f) if e.kind == "call"}
        return self.callees[f.qual].get(id(node))

    def run(self, f, cls, args=None, state=None):
        """Interpret f with self an instance of cls; returns (Val, State)."""
        outer = state or State({}, {}, set())
        st = State({}, dict(outer.attrs), set(outer.must))
        names = list(f.params) + list(f.kwonly)
        for n in names:
            st.env[n] = (args or {}).get(n) or Val()
        fr = Frame(f, cls, st.env)
        if f.params and f.cls is not None and not f.is_static:
            st.env[f.params[0]] = Val(kind="obj", items=cls)
        self.stack.append(f.qual)
        try:
            status = self.block(f.node.body, fr, st)
        finally:
            self.stack.pop()
        rets = fr.rets
        if status == "next":
            rets = rets + [(Val(), st)]
        if not rets:
            return Val(), st, False
        v, s = rets[0]
        s = s.copy()
        for v2, s2 in rets[1:]:
            v = join(v, v2)
            s.merge(s.copy(), s2)
        return v, s, True

    # ------------------------------------------------------------------ statements
    def block(self, body, fr, st):
        for s in body:
            self.steps += 1
            if self.steps > 400000:
                raise RuntimeError("too many steps")
            r = self.stmt(s, fr, st)
            if r != "next":
                return r
        return "next"

    def stmt(self, s, fr, st):
        k = type(s).__name__
        if k == "Expr":
            self.ev(s.value, fr, st)
        elif k in ("Assign", "AnnAssign"):
            if s.value is None:
                return "next"
            v = self.ev(s.value, fr, st)
            for t in (s.targets if k == "Assign" else [s.target]):
                self.bind(t, v, fr, st, s)
        elif k == "AugAssign":
            self.aug(s, fr, st)
        elif k == "Return":
            v = self.ev(s.value, fr, st) if s.value is not None else Val()
            fr.rets.append((v, st.copy()))
            return "ret"
        elif k == "If":
            return self.branch(s.test, s.body, s.orelse, fr, st)
        elif k in ("For", "AsyncFor", "While"):
            return self.loop(s, fr, st)
        elif k == "With":
            for i in s.items:
                v = self.ev(i.context_expr, fr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, fr, st, s)
            return self.block(s.body, fr, st)
        elif k == "Try":
            r = None
            for h in s.handlers:
                if self.attribute_error(h) and self.missing(s.body, fr, st):
                    r = self.block(h.body, fr, st)
                    break
            if r is None:
                r = self.block(s.body, fr, st)
                if r == "next" and s.orelse:
                    r = self.block(s.orelse, fr, st)
            if s.finalbody:
                q = self.block(s.finalbody, fr, st)
                r = q if q != "next" else r
            return r
        elif k == "Continue":
            return "cont"
        elif k == "Break":
            return "brk"
        elif k == "Raise":
            return "raise"
        return "next"

    @staticmethod
    def attribute_error(h):
        return h.type is not None and any(isinstance(x, ast.Name) and x.id == "AttributeError" for x in ast.walk(h.type))

    def missing(self, body, fr, st):
        """Does the body read an attribute that the object never has?"""
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    b = self.ev(x.value, fr, st) if isinstance(x.value, ast.Name) else Val()
                    if b.kind == "obj" and b.items is not None and not self.p.is_open(b.items):
                        if self.p.member(b.items, x.attr) is None and not any(
                                e.kind == "store_attr" for e in self.p.attr_stores(b.items).get(x.attr, ())):
                            return True
        return False

    def branch(self, test, body, orelse, fr, st):
        t = self.truth(test, fr, st)
        if t is True:
            return self.block(body, fr, st)
        if t is False:
            return self.block(orelse, fr, st)
        a, b = st.copy(), st.copy()
        ra, rb = self.block(body, fr, a), self.block(orelse, fr, b)
        if ra == "next" and rb == "next":
            st.merge(a, b)
            return "next"
        if ra == "next" or rb == "next":
            x = a if ra == "next" else b
            st.env.clear(); st.env.update(x.env)
            st.attrs, st.must = x.attrs, x.must
            return "next"
        st.merge(a, b)
        return ra if ra == rb else ("raise" if "raise" in (ra, rb) and "ret" not in (ra, rb) else "ret" if "ret" in (ra, rb) else ra)

    def loop(self, s, fr, st):
        lid = id(s)
        self.loops.append([lid, 0])
        try:
            for it in (0, 1):
                self.loops[-1][1] = it
                if isinstance(s, ast.While):
                    if self.truth(s.test, fr, st) is False:
                        break
                else:
                    self.targets(s.target, s.iter, lid, fr, st, s)
                r = self.block(s.body, fr, st)
                if r in ("ret", "raise"):
                    return r
                if r == "brk":
                    return "next"
        finally:
            self.loops.pop()
        return self.block(s.orelse, fr, st) if s.orelse else "next"

    def targets(self, target, it, lid, fr, st, s):
        """Bind loop targets to the elements of the iterated value."""
        v = self.element(it, fr, st)
        self.bind(target, self.dep(v, lid), fr, st, s)

    def dep(self, v, lid):
        d = v.deps | {lid}
        if v.kind in ("tuple", "list") and v.items is not None:
            return Val(kind=v.kind, items=[self.dep(x, lid) for x in v.items], deps=d)
        if v.kind == "obj":
            return v
        return Val(v.alts, d, v.ref, v.kind, v.items)

    def element(self, it, fr, st):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            n = it.func.id
            if n == "enumerate" and it.args:
                return Val(kind="tuple", items=[Val(), self.element(it.args[0], fr, st)])
            if n == "zip":
                return Val(kind="tuple", items=[self.element(a, fr, st) for a in it.args])
            if n in ("list", "tuple", "reversed", "sorted") and it.args:
                return self.element(it.args[0], fr, st)
        v = self.ev(it, fr, st)
        if v.kind in ("list", "tuple") and v.items:
            r = v.items[0]
            for x in v.items[1:]:
                r = join(r, x)
            return r
        return Val(v.flat().alts, v.deps, v.ref)

    # ------------------------------------------------------------------ stores
    def bind(self, t, v, fr, st, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = self.now(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = v.items if v.kind in ("tuple", "list") and v.items is not None and len(v.items) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if items is not None:
                    w = items[i]
                elif v.kind == "pair" and len(t.elts) == 2:
                    w = Val(frozenset([(("NU"[i], 1),)]), v.deps)
                else:
                    w = Val(v.flat().alts if v.kind == "num" and v.ref is not None else EMPTY, v.deps)
                self.bind(x, w, fr, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            if b.kind == "obj" and b.items is not None:
                m = self.p.setter(b.items, t.attr) if b.items else None
                if m is not None and m.qual not in self.stack and len(self.stack) < 10:
                    _, s2, ok = self.run(m, b.items, {m.params[1]: v} if len(m.params) > 1 else {}, st)
                    st.attrs, st.must = s2.attrs, s2.must
                    return
                if self.opaque(t.attr):
                    v = Val()
                self.hook("store", self, fr, st, s, (b.items, t.attr, v.flat(), None))
                st.attrs[b.items.qual, t.attr] = self.own(v)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, fr, st, s, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, fr, st, s)

    def now(self, v, born=None):
        w = Val(v.alts, v.deps, v.ref, v.kind, v.items, v.const)
        w.born = frozenset((a, b) for a, b in self.loops) if born is None else born
        return w

    def own(self, v):
        return self.now(v if v.kind in ("obj", "pair", "list", "tuple") else Val(v.alts, v.deps, None, v.kind, v.items))

    def loops_second(self):
        return any(it for _, it in self.loops)

    def covered(self, deps, born):
        """Does the addition count?  Not in the second round of a loop that picks another element or adds another part each time,
        when what is added to has been there since before the loop."""
        return all(it == 0 for lid, it in self.loops if lid in deps and (lid, it) not in born)

    def aug(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = st.env.get(t.id, Val())
            if op in ("Add", "Sub"):
                if old.kind == "list":
                    st.env[t.id] = Val(kind="list", items=old.items + (v.items or [v]), deps=old.deps)
                    return
                new = add(old.flat().alts, v.flat().alts, 1 if op == "Add" else -1) if self.covered(v.deps if v.flat().alts == EMPTY else frozenset(), old.born) else old.flat().alts
            else:
                new = comb(old.flat().alts, v.flat().alts)
            st.env[t.id] = self.now(Val(new, old.deps | v.deps, old.ref), old.born)
            if old.ref is not None:      # the object's own array is changed
                self.hook("store", self, fr, st, s, (old.ref[2], old.ref[1], Val(new), op))
                st.attrs[old.ref[:2]] = self.now(Val(new), old.born)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, fr, st, s, op)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            if b.kind == "obj" and b.items is not None:
                old = self.attr(b, t.attr, fr, st, t).flat()
                new = (add(old.alts, v.flat().alts, 1 if op == "Add" else -1) if self.covered(v.deps, self.bornof(b.items, t.attr, st)) else old.alts) if op in ("Add", "Sub") \
                    else comb(old.alts, v.flat().alts)
                self.hook("store", self, fr, st, s, (b.items, t.attr, Val(new), op))
                st.attrs[b.items.qual, t.attr] = self.now(Val(new), self.bornof(b.items, t.attr, st))

    def bornof(self, c, a, st):
        v = st.attrs.get((c.qual, a))
        return v.born if v is not None else frozenset()

    def root(self, t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return t

    def store_sub(self, t, v, fr, st, s, op):
        deps = v.deps
        x = t
        while isinstance(x, ast.Subscript):
            deps = deps | self.ev(x.slice, fr, st).deps
            x = x.value
        r = self.root(t)
        base = self.ev(r, fr, st)
        if base.kind == "pair":
            i = self.index(t.slice)
            return
        old = base.flat()
        vv = v.flat()
        born = st.attrs[base.ref[:2]].born if base.ref is not None and base.ref[:2] in st.attrs else \
            base.born if base.ref is None else frozenset()
        if op in ("Add", "Sub"):
            fresh = base.ref is not None and self.restarted(base.ref, st)
            new = (add(old.alts, vv.alts, 1 if op == "Add" else -1) if not fresh else vv.alts) if self.covered(deps, born) else old.alts
        elif op is not None:
            new = comb(old.alts, vv.alts)
        else:
            if base.ref is not None and self.opaque(base.ref[1]):
                vv = Val()
            new = vv.alts
            if new == EMPTY and old.alts != EMPTY:        # some elements cleared: what the others hold stays
                if base.ref is not None:
                    st.attrs[("cleared",) + base.ref[:2]] = Val(const=True)
                new = old.alts
            elif base.ref is None and old.alts != EMPTY and old.alts != new:
                new = union(frozenset(a for a in old.alts if a), new)
        if base.ref is not None:
            self.hook("store", self, fr, st, s, (base.ref[2], base.ref[1], Val(new if op else vv.alts, deps), op))
            st.attrs[base.ref[:2]] = self.now(Val(new), born if op else None)
        if isinstance(r, ast.Name):
            if base.kind not in ("obj",):
                st.env[r.id] = self.now(Val(new, base.deps if base.ref is not None else base.deps | v.deps, base.ref), born if op else None)

    def restarted(self, ref, st):
        return ("cleared",) + ref[:2] in st.attrs

    @staticmethod
    def index(sl):
        x = sl.elts[0] if isinstance(sl, ast.Tuple) and sl.elts else sl
        return x.value if isinstance(x, ast.Constant) else None

    # ------------------------------------------------------------------ conditions
    def truth(self, t, fr, st):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.truth(t.operand, fr, st)
            return None if x is None else not x
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x, fr, st) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (True if all(x is True for x in vs) else None)
            return True if True in vs else (False if all(x is False for x in vs) else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], type(t.ops[0]).__name__
            if isinstance(b, ast.Constant) and b.value is None and op in ("Is", "IsNot", "Eq", "NotEq"):
                x = self.present(a, fr, st)
                return None if x is None else (x if op in ("IsNot", "NotEq") else not x)
            if isinstance(b, ast.Constant) and b.value == 0 and op == "Gt":
                x = self.ev(a, fr, st)
                return self.option(x)
            if isinstance(b, ast.Constant) and isinstance(b.value, bool) and op in ("Is", "Eq", "IsNot", "NotEq"):
                x = self.option(self.ev(a, fr, st))
                return None if x is None else ((x == b.value) == (op in ("Is", "Eq")))
            return None
        return self.option(self.ev(t, fr, st))

    @staticmethod
    def option(v):
        return v.const if isinstance(v.const, bool) else (False if v.const == "None" else None)

    def present(self, a, fr, st):
        v = self.ev(a, fr, st)
        if v.const == "None":
            return False
        if isinstance(v.const, bool):
            return v.const
        if v.kind in ("obj", "list", "pair") or any(v.alts) and () not in v.alts:
            return True
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, fr, st)
        v = Val()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                x = self.ev(c, fr, st).flat()
                v = Val(comb(v.alts, x.alts), v.deps | x.deps)
        return v

    def e_Constant(self, n, fr, st):
        return Val(const=n.value if isinstance(n.value, bool) else "None" if n.value is None else None)

    def e_Name(self, n, fr, st):
        return st.env.get(n.id) or Val()

    def e_Compare(self, n, fr, st):
        d = frozenset()
        for x in [n.left] + n.comparators:
            d |= self.ev(x, fr, st).deps
        return Val(deps=d, const=self.truth(n, fr, st))

    def e_BoolOp(self, n, fr, st):
        d = frozenset()
        for x in n.values:
            d |= self.ev(x, fr, st).deps
        return Val(deps=d, const=self.truth(n, fr, st))

    def e_UnaryOp(self, n, fr, st):
        if isinstance(n.op, ast.Not):
            return Val(deps=self.ev(n.operand, fr, st).deps, const=self.truth(n, fr, st))
        v = self.ev(n.operand, fr, st).flat()
        return Val(v.alts, v.deps)

    def e_IfExp(self, n, fr, st):
        t = self.truth(n.test, fr, st)
        if t is True:
            return self.ev(n.body, fr, st)
        if t is False:
            return self.ev(n.orelse, fr, st)
        return join(self.ev(n.body, fr, st), self.ev(n.orelse, fr, st))

    def e_BinOp(self, n, fr, st):
        a, b = self.ev(n.left, fr, st), self.ev(n.right, fr, st)
        if isinstance(n.op, ast.Add) and a.kind == b.kind and a.kind in ("list", "tuple"):
            return Val(kind=a.kind, items=a.items + b.items, deps=a.deps | b.deps)
        if isinstance(n.op, (ast.Mult, ast.Div)) and "pair" in (a.kind, b.kind) and EMPTY in (a.alts if a.kind != "pair" else b.alts, EMPTY):
            return Val(kind="pair", deps=a.deps | b.deps)
        x, y = a.flat(), b.flat()
        d = x.deps | y.deps
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
            return Val()
        if isinstance(n.op, ast.Add):
            return Val(add(x.alts, y.alts), d)
        if isinstance(n.op, ast.Sub):
            return Val(add(x.alts, y.alts, -1) if x.alts != EMPTY else y.alts, d)
        return Val(comb(x.alts, y.alts), d)

    def e_Tuple(self, n, fr, st):
        return self.seq("tuple", [self.ev(x, fr, st) for x in n.elts])

    def e_List(self, n, fr, st):
        return self.seq("list", [self.ev(x, fr, st) for x in n.elts])

    @staticmethod
    def seq(kind, items):
        d = frozenset()
        for x in items:
            d |= x.deps
        return Val(kind=kind, items=items, deps=d)

    def e_Slice(self, n, fr, st):
        d = frozenset()
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                d |= self.ev(x, fr, st).deps
        return Val(deps=d)

    def e_JoinedStr(self, n, fr, st):
        return Val()

    def e_Lambda(self, n, fr, st):
        return Val()

    def comp(self, n, fr, st):
        s2 = State(dict(st.env), st.attrs, st.must)
        lids = set()
        for g in n.generators:
            lids.add(id(g))
            self.bind(g.target, self.dep(self.element(g.iter, fr, s2), id(g)), fr, s2, n)
        v = self.ev(n.elt, fr, s2)
        return Val(kind="list", items=[self.undep(v, lids)], deps=v.deps - lids)

    def undep(self, v, lids):
        if v.kind in ("list", "tuple"):
            return Val(kind=v.kind, items=[self.undep(x, lids) for x in v.items], deps=v.deps - lids)
        return Val(v.alts, v.deps - lids, v.ref, v.kind, v.items, v.const)

    e_ListComp = e_GeneratorExp = e_SetComp = comp

    def e_DictComp(self, n, fr, st):
        return Val()

    def e_Dict(self, n, fr, st):
        return Val()

    def e_Subscript(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        i = self.ev(n.slice, fr, st)
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            k = self.keyed.get(n.slice.value)
            if k is not None:
                return Val(frozenset([k]), b.deps)
        if b.kind == "pair":
            j = self.index(n.slice)
            if j in (0, 1):
                return Val(frozenset([(("NU"[j], 1),)]), b.deps | i.deps)
            return Val(kind="pair", deps=b.deps | i.deps)
        if b.kind in ("tuple", "list") and b.items is not None:
            j = n.slice.value if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) else None
            if j is not None and -len(b.items) <= j < len(b.items):
                return b.items[j]
            if isinstance(n.slice, ast.Slice):
                return b
            b = b.flat()
        if b.kind == "obj":
            return Val(deps=i.deps)
        return Val(b.alts, b.deps | i.deps, b.ref, "num")

    def e_Attribute(self, n, fr, st):
        b = self.ev(n.value, fr, st)
        if b.kind == "obj" and b.items is not None:
            return self.attr(b, n.attr, fr, st, n)
        if n.attr in ("shape", "dtype", "size", "ndim"):
            return Val()
        c = self.typed(n, fr)
        if c is not None:
            return Val(kind="obj", items=c)
        tc = self.typed(n.value, fr)
        if tc is not None:
            return self.attr(Val(kind="obj", items=tc), n.attr, fr, st, n)
        return Val(b.alts, b.deps, b.ref) if n.attr in ("T", "real", "imag", "flat") else Val(deps=b.deps)

    def typed(self, n, fr):
        """Class of interest that the expression is an instance of."""
        e = None
        key = (fr.f.qual, "types")
        if key not in self.callees:
            d = {}
            for x in self.p.events(fr.f):
                if x.kind == "load_attr":
                    d[id(x.node)] = x.t
            self.callees[key] = d
        t = self.callees[key].get(id(n))
        if t is None and isinstance(n, ast.Name) and n.id in fr.f.params:
            t = ("param", n.id)
        if t is None:
            return None
        ts = [x for x in self.p.typeof(t, fr.f) if x[0] == "inst"]
        cs = [self.p.classes[x[1]] for x in ts if x[1] in self.p.classes]
        cs = [c for c in cs if self.interesting(c)]
        return cs[0] if cs else None

    def interesting(self, c):
        return self.seeds(c, None) is not None

    def attr(self, b, a, fr, st, n):
        c = b.items
        m = self.p.member(c, a)
        if m is not None and m[0] == "property":
            if m[1].qual in self.stack or len(self.stack) > 10:
                return Val()
            v, s2, ok = self.run(m[1], c, {}, st)
            st.attrs = s2.attrs
            return v
        if m is not None and m[0] == "method":
            return Val()
        fl = self.flags(c, a)
        s = self.seeds(c, a)
        key = (c.qual, a)
        if fl is not None and s is None:
            return Val(const=fl)
        if fl is False:
            return Val(const="None")
        if s is not None:
            return Val(frozenset([s]), frozenset(), (c.qual, a, c), const=True if fl is True else None)
        if key in st.attrs:
            v = st.attrs[key]
            if v.kind in ("obj", "pair", "list", "tuple"):
                return v
            return Val(v.alts, frozenset(), (c.qual, a, c), v.kind, v.items, v.const)
        o = self.object_of(c, a)
        if o is not None:
            return Val(kind="obj", items=o)
        return Val(EMPTY, frozenset(), (c.qual, a, c))

    def object_of(self, c, a):
        key = ("obj", c.qual, a)
        if key not in self.callees:
            r = None
            for e in self.p.attr_stores(c).get(a, ()):
                if e.kind != "store_attr":
                    continue
                for x in self.p.typeof(e.t[2], e.fn):
                    if x[0] == "inst" and x[1] in self.p.classes and self.interesting(self.p.classes[x[1]]):
                        r = self.p.classes[x[1]]
            self.callees[key] = r
        return self.callees[key]

    def e_Call(self, n, fr, st):
        args = [self.ev(a, fr, st) for a in n.args]
        kws = {k.arg: self.ev(k.value, fr, st) for k in n.keywords}
        e = self.callee(fr.f, n)
        fn = n.func
        # kernels
        if isinstance(fn, ast.Attribute) and fn.attr in self.kernels:
            for i, sig in self.kernels[fn.attr].items():
                if i < len(n.args):
                    self.kernel_out(n.args[i], args[i], sig, fr, st, n)
            return Val()
        d = frozenset()
        for x in list(args) + list(kws.values()):
            d |= x.deps
        # methods of known objects
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and fr.cls is not None:
                g = self.above(fr.cls, fr.f.cls, fn.attr)
                if g is not None:
                    return self.inline(g, fr.cls, args, kws, n, fr, st)
                return Val(deps=d)
            outside = e is not None and e.t[1][0] in ("ext", "func", "class", "mod")
            b = Val() if outside else self.ev(fn.value, fr, st)
            if b.kind == "obj" and b.items is not None:
                m = self.p.member(b.items, fn.attr)
                if m is not None and m[0] == "method":
                    return self.inline(m[1], b.items, args, kws, n, fr, st)
                return Val(deps=d)
            if b.kind == "list" and fn.attr in ("append", "extend") and args:
                if isinstance(fn.value, ast.Name):
                    new = [args[0]] if fn.attr == "append" else (args[0].items or [args[0]])
                    if self.covered(args[0].deps, b.born):
                        st.env[fn.value.id] = self.now(Val(kind="list", items=list(b.items) + list(new), deps=b.deps), b.born)
                return Val()
            if fn.attr in ("sum", "mean") and b.kind == "pair":
                ax = kws.get("axis")
                node = next((k.value for k in n.keywords if k.arg == "axis"), n.args[0] if n.args else None)
                if isinstance(node, ast.Constant) and node.value == 0:
                    return Val(frozenset([norm({"N": 1, "U": 1})]), b.deps)
                return Val(kind="pair", deps=b.deps)
            if b.kind == "pair" and fn.attr in ("copy", "reshape"):
                return b
            tc = self.typed(fn.value, fr)
            if tc is not None and (b.kind != "obj"):
                m = self.p.member(tc, fn.attr)
                if m is not None and m[0] == "method":
                    return self.inline(m[1], tc, args, kws, n, fr, st)
            bf = b.flat()
            if not outside and fn.attr in ("copy", "sum", "reshape", "astype", "flatten", "ravel", "mean", "diagonal", "dot", "transpose", "conj"):
                keep = bf.ref if fn.attr in ("reshape", "ravel", "transpose") else None
                return Val(bf.alts, bf.deps | d, keep)
        # sums of parts
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if name == "sum" and args and args[0].kind in ("list", "tuple") and isinstance(fn, ast.Name):
            a = EMPTY
            for x in args[0].items:
                a = add(a, x.flat().alts)
            return Val(a, d)
        if name == "sum" and args and (args[0].kind == "list" or args[0].kind == "tuple" and len(args[0].items) > 1):
            a = EMPTY
            for x in args[0].items:
                a = add(a, x.flat().alts)
            return Val(a, d)
        if name == "sum" and args and args[0].kind == "pair":
            return Val(frozenset([norm({"N": 1, "U": 1})]), d)
        if name == "add" and isinstance(fn, ast.Attribute) and len(args) >= 2:
            out = next((k.value for k in n.keywords if k.arg == "out"), n.args[2] if len(n.args) > 2 else None)
            v = Val(add(args[0].flat().alts, args[1].flat().alts), d)
            if out is not None:
                self.bind(out, v, fr, st, n)
            return v
        # own plain functions
        if e is not None:
            ts, complete = self.p.targets(e.t[1], fr.f)
            own = [g for g, ctor in ts if not ctor and g.cls is None and g.qual in self.own_quals]
            if len(own) == 1 and not any(ctor for _, ctor in ts):
                return self.inline(own[0], None, args, kws, n, fr, st)
            own_m = [g for g, ctor in ts if ctor]
            if own_m:
                self.hook("call", self, fr, st, n, (own_m[0], self.bound(own_m[0], [Val()] + args, kws)))
                c = own_m[0].cls
                return Val(kind="obj", items=c) if c is not None and self.interesting(c) else Val(deps=d)
            stat = [g for g, ctor in ts if g.cls is not None and g.qual in self.own_quals]
            if stat:
                g = stat[0]
                a = args if g.is_static else [Val()] + args
                self.hook("call", self, fr, st, n, (g, self.bound(g, a, kws)))
                return Val(deps=d)
        if name in self.NEW:
            return Val(deps=d)
        if name in ("len", "print", "isinstance", "range", "float", "int", "str", "zeros_like", "empty_like", "ones_like", "hasattr", "open"):
            return Val(deps=d)
        v = Val()
        for x in list(args) + list(kws.values()):
            x = x.flat()
            v = Val(comb(v.alts, x.alts), v.deps | x.deps)
        if name in ("asarray", "ascontiguousarray", "atleast_1d", "reshape", "ravel") and args:
            return Val(v.alts, v.deps, args[0].flat().ref)
        return v

    NEW = {"zeros", "ones", "empty", "zeros_like", "empty_like", "ones_like", "full", "eye", "arange"}

    def kernel_out(self, node, v, sig, fr, st, n):
        if sig == "pair":
            fl = self.flags(fr.cls, "_is_N_U") if fr.cls is not None else None
            w = Val(kind="pair") if fl else Val(frozenset([norm({"N": 1, "U": 1})]))
        else:
            w = Val(frozenset([sig]))
        if isinstance(node, ast.Name):
            st.env[node.id] = w
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value, fr, st)
            if b.kind == "obj" and b.items is not None:
                self.hook("store", self, fr, st, n, (b.items, node.attr, w.flat(), None))
                st.attrs[b.items.qual, node.attr] = w

    def above(self, cls, owner, name):
        mro = self.p.mro(cls)
        for i, k in enumerate(mro):
            if owner is not None and k.qual == owner.qual:
                for b in mro[i + 1:]:
                    if name in b.methods:
                        return b.methods[name]
        return None

    def bound(self, g, args, kws):
        d = {}
        for n, v in zip(g.params, args):
            d[n] = v
        for k, v in kws.items():
            if k is not None:
                d[k] = v
        return d

    def inline(self, g, cls, args, kws, n, fr, st):
        if g.cls is not None and not g.is_static:
            args = [Val(kind="obj", items=cls)] + args
        d = self.bound(g, args, kws)
        self.hook("call", self, fr, st, n, (g, d))
        if g.qual in self.stack or len(self.stack) > 10:
            return Val()
        for nm, dv in (g.defaults or {}).items():
            if nm not in d and isinstance(dv, ast.Constant):
                d[nm] = self.e_Constant(dv, fr, st)
        v, s2, ok = self.run(g, cls, d, st)
        # arrays of the caller that the function filled
        for i, a in enumerate(n.args):
            off = 1 if g.cls is not None and not g.is_static else 0
            if isinstance(a, ast.Name) and i + off < len(g.params):
                w = s2.env.get(g.params[i + off])
                o = st.env.get(a.id)
                if w is not None and o is not None and o.kind == "num" and w.kind == "num" and w.ref == o.ref and w.alts != o.alts:
                    st.env[a.id] = Val(w.alts, o.deps, o.ref)
        st.attrs, st.must = s2.attrs, s2.must
        return v
