"""Definite assignment with correlated branches: which local may be unbound where it is read.

States are sets of (assumptions over branch atoms, unbound names). A for loop is taken to run at
least once; an exception may leave a try body at any statement."""
import ast

CAP = 192


_up = {}


def unp(n):
    r = _up.get(id(n))
    if r is None:
        r = _up[id(n)] = (ast.unparse(n), n)
    return r[0]


_at = {}


def atom(n):
    r = _at.get(id(n))
    if r is None:
        r = _at[id(n)] = (atom_(n), n)
    return r[0]


def atom_(n):
    """(key, polarity, names) of a test that is not and/or/not."""
    pol = True
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        o = n.ops[0]
        l, r = n.left, n.comparators[0]
        if isinstance(o, (ast.IsNot, ast.NotEq, ast.NotIn)):
            pol = False
            o = {ast.IsNot: ast.Is(), ast.NotEq: ast.Eq(), ast.NotIn: ast.In()}[type(o)]
        elif isinstance(o, ast.Lt):
            o, l, r = ast.Gt(), r, l
        elif isinstance(o, ast.LtE):
            o, pol = ast.Gt(), False
        elif isinstance(o, ast.GtE):
            o, pol, l, r = ast.Gt(), False, r, l
        key = "%s %s %s" % (ast.unparse(l), type(o).__name__, ast.unparse(r))
    else:
        key = unp(n)
    return key, pol


def names_in(key):
    try:
        return {x.id for x in ast.walk(ast.parse(key.replace(" Is ", " is ").replace(" Eq ", " == ").replace(" In ", " in ").replace(" Gt ", " > "), mode="eval"))
                if isinstance(x, ast.Name)} | \
               {ast.unparse(x) for x in ast.walk(ast.parse(key.replace(" Is ", " is ").replace(" Eq ", " == ").replace(" In ", " in ").replace(" Gt ", " > "), mode="eval"))
                if isinstance(x, ast.Attribute)}
    except SyntaxError:
        return set()


_nm = {}


def knames(key):
    if key not in _nm:
        _nm[key] = names_in(key)
    return _nm[key]


def subject(t):
    """Expressions whose value an equality/membership test distinguishes."""
    if isinstance(t, ast.BoolOp):
        ss = [subject(v) for v in t.values]
        return set.intersection(*ss) if isinstance(t.op, ast.Or) else set.union(*ss)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)):
        r = {ast.unparse(t.left), ast.unparse(t.comparators[0])}
        return r - {x for x in r if isinstance(ast.parse(x, mode="eval").body, (ast.Constant, ast.Tuple, ast.List))}
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance":
        return {ast.unparse(t.args[0])}
    return set()


def is_flag(t):
    if isinstance(t, ast.UnaryOp):
        return is_flag(t.operand)
    return isinstance(t, (ast.Name, ast.Attribute)) or (isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.IsNot)))


def numeric(t, fn):
    """The test compares with numbers only, which the value a caller gives to a public function need not be among."""
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In)) and isinstance(t.left, ast.Name)):
        return False
    if fn.name.startswith("_") or t.left.id not in {a.arg for a in fn.args.args + fn.args.kwonlyargs}:
        return False
    c = t.comparators[0]
    if isinstance(c, ast.Name):
        vs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == c.id for y in x.targets)]
        if len(vs) != 1:
            return False
        c = vs[0]
    xs = c.elts if isinstance(c, (ast.Tuple, ast.List, ast.Set)) else [c]
    return bool(xs) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) for x in xs)


def presence(t):
    """A test that something was given at all."""
    if isinstance(t, ast.BoolOp):
        return all(presence(v) for v in t.values)
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and \
        isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None


class Defs:
    def __init__(self, fn, noreturn=lambda c: False, mayexit=lambda c: False):
        self.fn = fn
        self.noreturn = noreturn
        self.mayexit = mayexit
        self.found = {}      # id(name node) -> (node, conds)
        self.local = set()
        self.globals_ = set()
        import pyx
        for n in pyx.walk_scope(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.local.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals_ |= set(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.local.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                self.local.add(n.name)
        self.local -= self.globals_
        a = fn.args
        pars = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.local -= pars
        self.loops = []

    def run(self):
        if not self.local:
            return
        self.chains()
        self.count_atoms()
        self.iters = {}
        self.data = set()      # names that stand for one element of some iterated data
        st = {(frozenset(), frozenset(self.local))}
        self.block(self.fn.body, st)

    # -- states
    def cap(self, st):
        if len(st) <= CAP:
            return st
        # forget the assumptions that separate the fewest unbound-sets
        by = {}
        for a, u in st:
            by.setdefault(u, []).append(a)
        out = set()
        for u, l in by.items():
            if len(l) > 8:
                com = frozenset.intersection(*l)
                out.add((com, u))
            else:
                out |= {(a, u) for a in l}
        return out

    def bind(self, st, name):
        return {(frozenset(x for x in a if name not in knames(x[0])), u - {name}) for a, u in st}

    def kill_attr(self, st, txt):
        return {(frozenset(x for x in a if not any(k == txt or k.startswith(txt + ".") for k in knames(x[0]))), u) for a, u in st}

    def value(self, n, a):
        """Truth of test n under assumptions a (dict)."""
        if isinstance(n, ast.BoolOp):
            vs = [self.value(v, a) for v in n.values]
            if isinstance(n.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else a.get(unp(n)))
            return True if True in vs else (False if all(v is False for v in vs) else a.get(unp(n)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.value(n.operand, a)
            return None if v is None else not v
        if isinstance(n, ast.Constant):
            return bool(n.value)
        k, pol = atom(n)
        v = a.get(k)
        if v is None:
            v = self.implied(k, a)
        return None if v is None else v == pol

    def implied(self, k, a):
        if " In " in k and k[:1] in "'\"":
            l, r = k.split(" In ", 1)
            for q, v in a.items():
                if v and q.startswith(r + " Eq ") and q[len(r) + 4:len(r) + 5] in "'\"":
                    try:
                        return ast.literal_eval(l) in ast.literal_eval(q[len(r) + 4:])
                    except (ValueError, SyntaxError, TypeError):
                        pass
        if k.startswith("len("):
            x = k.split(")")[0] + ")"
            if k == x + " Eq 0" and a.get(x + " Gt 0") is not None:
                return not a[x + " Gt 0"]
            if k == x + " Gt 0" and a.get(x + " Eq 0") is not None:
                return not a[x + " Eq 0"]
        if k.endswith(" Is None") and k[:-8] in self.iters:
            if a.get("None In " + self.iters[k[:-8]]) is False:
                return False
        if " Eq " in k:
            l, r = k.split(" Eq ", 1)
            for q, v in a.items():
                if v and q.startswith(l + " In "):
                    try:
                        vs = [repr(e) for e in ast.literal_eval(q.split(" In ", 1)[1])]
                    except (ValueError, SyntaxError):
                        continue
                    left = [e for e in vs if a.get(l + " Eq " + e) is not False]
                    if r not in vs:
                        return False if r[:1] in "'\"0123456789" else None
                    if left == [r]:
                        return True
        if " Eq " in k:
            l, r = k.split(" Eq ", 1)
            for q, v in a.items():
                if v and q.startswith(l + " Eq ") and q != k and r[:1] in "'\"0123456789" and q.split(" Eq ", 1)[1][:1] in "'\"0123456789":
                    return False
                if v and q == l + " Is None":
                    return False
        if k.endswith(" Is None"):
            x = k[:-8]
            if a.get(x) is True:
                return False
            for q, v in a.items():
                if v and q.startswith(x + " Eq ") and not q.endswith("None"):
                    return False
        elif a.get(k + " Is None") is True:
            return False
        return None

    def assume(self, n, val, a):
        """Assumption sets (list of dicts) under which n is val; [] if impossible."""
        v = self.value(n, a)
        if v is not None:
            return [a] if v == val else []
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.assume(n.operand, not val, a)
        if isinstance(n, ast.BoolOp):
            conj = isinstance(n.op, ast.And) == val
            if conj:
                cur = [a]
                for x in n.values:
                    cur = [d for c in cur for d in self.assume(x, val, c)]
                return cur
            out = []
            pre = [a]
            for x in n.values:   # the first value that decides
                out += [d for c in pre for d in self.assume(x, val, c)]
                pre = [d for c in pre for d in self.assume(x, not val, c)]
            return out
        k, pol = atom(n)
        if self.uses.get(k, 0) < 2 and not self.related(k):
            return [a]
        d = dict(a)
        d[k] = (val == pol)
        return [d]

    def related(self, k):
        """Another test of the function speaks about the same thing."""
        r = self.rel.get(k)
        if r is None:
            ks = knames(k)
            r = self.rel[k] = any(q != k and (ks & knames(q)) for q in self.uses)
        return r

    def count_atoms(self):
        import pyx
        self.uses, self.rel = {}, {}

        def test(t):
            if isinstance(t, ast.BoolOp):
                for v in t.values:
                    test(v)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                test(t.operand)
            else:
                k = atom(t)[0]
                self.uses[k] = self.uses.get(k, 0) + 1
        for n in pyx.walk_scope(self.fn):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                test(n.test)
            elif isinstance(n, ast.BoolOp):
                test(n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant):
                pass

    def split(self, st, test, val):
        out = set()
        for a, u in st:
            for d in self.assume(test, val, dict(a)):
                out.add((frozenset(d.items()), u))
        return self.cap(out)

    # -- expressions
    def use(self, n, st):
        for x in self.names(n):
            if x.id in self.local:
                bad = [a for a, u in st if x.id in u]
                if bad and id(x) not in self.found:
                    self.found[id(x)] = (x, sorted(min(bad, key=len)), len(bad) == len(st))

    def names(self, n):
        """Name loads of an expression in its own scope, guarded operands skipped."""
        out = []
        stack = [n]
        while stack:
            x = stack.pop()
            if x is None:
                continue
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load):
                    out.append(x)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                inner = [g.iter for g in x.generators] + [i for g in x.generators for i in g.ifs] + \
                        ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt])
                for i in inner:
                    out += [y for y in self.names(i) if y.id not in bound]
                continue
            stack.extend(ast.iter_child_nodes(x))
        return out

    def expr(self, n, st):
        """Visit an expression; and/or/conditional operands under their guards."""
        if n is None:
            return
        if isinstance(n, ast.BoolOp):
            cur = st
            for v in n.values:
                self.expr(v, cur)
                cur = self.split(cur, v, isinstance(n.op, ast.And))
            return
        if isinstance(n, ast.IfExp):
            self.expr(n.test, st)
            self.expr(n.body, self.split(st, n.test, True))
            self.expr(n.orelse, self.split(st, n.test, False))
            return
        if any(isinstance(x, (ast.BoolOp, ast.IfExp)) for x in ast.iter_child_nodes(n)):
            for c in ast.iter_child_nodes(n):
                self.expr(c, st) if isinstance(c, ast.expr) else self.use(c, st)
            return
        self.use(n, st)

    # -- statements
    def block(self, body, st):
        for s in body:
            if not st:
                return st
            st = self.cap(self.stmt(s, st))
        return st

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return self.bind(st, t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        if isinstance(t, ast.Attribute):
            self.use(t.value, st)
            return self.kill_attr(st, ast.unparse(t))
        self.use(t, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return st
            self.expr(s.value, st)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                st = self.target(t, st)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant):
                    v = s.value.value
                    add = {(t.id, bool(v)), (t.id + " Is None", v is None), (t.id + " Eq " + repr(v), True)}
                    st = {(a | add, u) for a, u in st}
                elif isinstance(t, ast.Name) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr in ("ones", "zeros"):
                    k = {"ones": "(%s == 1).all()", "zeros": "(%s == 0).all()"}[s.value.func.attr] % t.id
                    st = {(a | {(k, True)}, u) for a, u in st}
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st) if s.target.id in self.local else None
                return self.bind(st, s.target.id)
            return self.target(s.target, st)
        if isinstance(s, ast.Expr):
            self.expr(s.value, st)
            if isinstance(s.value, ast.Call) and self.noreturn(s.value):
                return set()
            return st
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            if not is_flag(s.test) and self.data & {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}:
                # decided by the data iterated over: some element is taken to pass each test
                if not s.orelse:
                    b = self.block(s.body, self.split(st, s.test, True))
                    if len(s.body) and isinstance(s.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                        if isinstance(s.body[-1], ast.Continue) and self.loops:
                            self.loops[-1][1].clear()
                        return self.split(st, s.test, False) | b
                    return b
            neg = self.split(st, s.test, False)
            if not s.orelse and self.last_case(s):
                neg = set()
            return self.block(s.body, self.split(st, s.test, True)) | self.block(s.orelse, neg)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            isfor = not isinstance(s, ast.While)
            saved = set(self.data), dict(self.iters)
            if isfor:
                self.expr(s.iter, st)
                if not isinstance(s.iter, (ast.Tuple, ast.List)):
                    self.data |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                it, tg = s.iter, s.target
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(tg, ast.Tuple):
                    it, tg = it.args[0], tg.elts[1]
                if isinstance(tg, ast.Name):
                    self.iters[tg.id] = ast.unparse(it)
            else:
                self.expr(s.test, st)
            self.loops.append((set(), set()))
            assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            cur = st
            for n in assigned:       # assumptions about variables changed in the loop do not carry over
                cur = {(frozenset(x for x in a if n not in knames(x[0])), u) for a, u in cur}
            if isfor:
                cur = self.target(s.target, cur)
            else:
                cur = self.split(cur, s.test, True)
            out = self.block(s.body, cur)
            brk, cont = self.loops.pop()
            self.data, self.iters = saved
            out = out | cont
            if not isfor:
                if not (isinstance(s.test, ast.Constant) and s.test.value):
                    out = self.split(out | st, s.test, False)
                else:
                    out = set()
            elif self.may_be_empty(s):
                out = out | st
            if s.orelse:
                out = self.block(s.orelse, out)
            return out | brk
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            partial = set(st)
            cur = st
            for b in s.body:
                if not cur:
                    break
                cur = self.cap(self.stmt(b, cur))
                if not isinstance(b, ast.Return):
                    partial |= cur
            # states in which the exception strikes before the last statement completed
            partial = self.cap(partial)
            out = self.block(s.orelse, cur) if cur else cur
            for h in s.handlers:
                if h.type is not None and {"ImportError", "ModuleNotFoundError"} & {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)}:
                    # modules are taken to be importable
                    self.block(h.body, {(a, frozenset()) for a, u in partial})
                    continue
                hs = partial
                if h.name:
                    hs = self.bind(hs, h.name)
                o = self.block(h.body, hs)
                if h.body and isinstance(h.body[-1], ast.Expr) and isinstance(h.body[-1].value, ast.Call) and self.mayexit(h.body[-1].value):
                    o = set()      # reports the failure and leaves
                out = out | o
            if s.finalbody:
                out = self.block(s.finalbody, out)
            return out
        if isinstance(s, ast.Return):
            self.expr(s.value, st)
            return set()
        if isinstance(s, ast.Raise):
            self.expr(s.exc, st)
            return set()
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0].update(st)
            return set()
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1].update(st)
            return set()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.bind(st, s.name)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st = self.bind(st, a.asname or a.name.split(".")[0])
            return st
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            return self.split(st, s.test, True)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = {(a, u | {t.id}) for a, u in st}
            return st
        return st

    def last_case(self, s):
        """s ends an if/elif chain that tells the values of one subject apart: taken as complete."""
        up = self.chain.get(id(s))
        return up is not None

    def chains(self):
        self.chain = {}
        import pyx
        for n in pyx.walk_scope(self.fn):
            if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                b = n.orelse[0]
                k = subject(n.test)
                if (k and k & subject(b.test) and not numeric(b.test, self.fn) and not numeric(n.test, self.fn)) or (presence(n.test) and presence(b.test)):
                    self.chain[id(b)] = n

    def may_be_empty(self, s):
        return False


def exits(p):
    """mayexit predicate: the call's target can end the process."""
    memo = {}

    def can(f, d=0):
        if f.qual in memo:
            return memo[f.qual]
        memo[f.qual] = False
        import pyx
        r = any(isinstance(n, ast.Call) and pyx.is_exit(n) for n in ast.walk(f.node))
        if not r and d < 3:
            for e in p.events(f):
                if e.kind == "call" and any(can(g, d + 1) for g, _ in p.targets(e.t[1], f)[0]):
                    r = True
                    break
        memo[f.qual] = r
        return r

    def make(f):
        def pred(c):
            for e in p.events(f):
                if e.kind == "call" and e.node is c:
                    return any(can(g) for g, _ in p.targets(e.t[1], f)[0])
            return False
        return pred
    return make
