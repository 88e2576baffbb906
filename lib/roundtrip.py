"""Which data go to which place of a YAML file, and which place is read back into which data.

One pass over the functions that build the lines of the file (and over those that read the parsed file) keeps, for every
variable, the nodes of the data (or of the file) it may stand for, with the tests under which it does.  All branches are
followed at once; a loop over a node stands for its elements; calls of methods and functions known to the project are
followed with their arguments.  Nothing is computed: nodes are paths such as dataset.first_atoms.*.forces."""
import ast
import re
import pyx


class K:
    def __init__(self, v):
        self.v = v


class Node:
    def __init__(self, side, path, tr=()):
        self.side, self.path, self.tr = side, tuple(path), tuple(tr)

    def sub(self, k):
        return Node(self.side, self.path + (k,))

    def with_tr(self, t):
        return Node(self.side, self.path, self.tr + (t,))


class Str:
    """Text: literal pieces and (value, format)."""
    def __init__(self, parts):
        out = []
        for q in parts:
            if isinstance(q, tuple) and isinstance(q[0], K) and not q[1]:
                q = str(q[0].v)
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
        self.parts = out


class Lst:
    """Elements in order with the tests under which they are added."""
    def __init__(self, entries=(), born=frozenset()):
        self.entries = list(entries)


class Obj:
    def __init__(self, cls=None):
        self.fields = {}
        self.cls = cls
        self.free = None          # where attributes never stored come from


class Tup:
    def __init__(self, items):
        self.items = list(items)


class Alt:
    def __init__(self, entries):
        out = []
        for v, c in entries:
            if isinstance(v, Alt):
                out += [(w, c | d) for w, d in v.entries]
            else:
                out.append((v, c))
        self.entries = out


class Any:
    """Anything else, with the nodes it was made from."""
    def __init__(self, nodes=()):
        self.nodes = tuple(nodes)


NO = frozenset()


def alts(v):
    return v.entries if isinstance(v, Alt) else [(v, NO)]


def join(entries):
    es = Alt(entries).entries
    return es[0][0] if len(es) == 1 and not es[0][1] else Alt(es)


def nodes(v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen:
        return []
    seen.add(id(v))
    if isinstance(v, Node):
        return [v]
    if isinstance(v, Any):
        return list(v.nodes)
    if isinstance(v, Alt):
        return [n for w, _ in v.entries for n in nodes(w, seen)]
    if isinstance(v, Tup):
        return [n for w in v.items for n in nodes(w, seen)]
    if isinstance(v, Lst):
        return [n for w, _ in v.entries for n in nodes(w, seen)]
    if isinstance(v, Str):
        return [n for q in v.parts if isinstance(q, tuple) for n in nodes(q[0], seen)]
    return []


def one(v):
    """The single node a value is made from, unchanged, or None."""
    ns = nodes(v)
    ks = {(n.side, n.path, n.tr) for n in ns}
    return ns[0] if len(ks) == 1 else None


class Interp:
    """Follows functions; `opaque` are methods not followed."""
    def __init__(self, p, selfcls, fields, quals):
        self.p, self.selfcls, self.quals = p, selfcls, quals
        self.selfobj = Obj(selfcls)
        for k, v in fields.items():
            self.selfobj.fields[k] = [(v, NO)]
        self.conds = NO
        self.tests = {}
        self.depth = []
        self.n = 0

    # ---- tests
    def test(self, node, env):
        """→ list of ways the test is true / false: (atoms true, atoms false); None where it is decided."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.test(node.operand, env)
            return f, t
        if isinstance(node, ast.BoolOp):
            pos, neg = [], []
            for v in node.values:
                t, f = self.test(v, env)
                pos.append(t)
                neg.append(f)
            if isinstance(node.op, ast.And):
                t = self.conj(pos)
                f = neg[0] if len(neg) == 1 else self.opaque_of(neg)
                return t, f
            t = self.opaque_of(pos)
            return t, self.conj(neg)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            lv, rv = self.ev(l, env), self.ev(r, env)
            if isinstance(op, (ast.In, ast.NotIn)):
                a = self.has(rv, lv)
            elif isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(rv, K) and rv.v is None:
                a = self.isnone(lv)
            elif isinstance(lv, K) and isinstance(rv, K) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                a = (True if lv.v == rv.v else False)
            else:
                a = self.free(node)
            if isinstance(op, (ast.NotIn, ast.IsNot, ast.NotEq)):
                return self.pair(a)[::-1]
            return self.pair(a)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "isinstance" and len(node.args) == 2:
            v = self.ev(node.args[0], env)
            ts = {x.id for x in ast.walk(node.args[1]) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node.args[1]) if isinstance(x, ast.Attribute)}
            n = one(v)
            if n is not None and not isinstance(v, Str):
                return self.pair(("is", n.side, n.path, tuple(sorted(ts))))
            return self.pair(self.free(node))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "hasattr":
            return self.pair(self.free(node))
        v = self.ev(node, env)
        if isinstance(v, K):
            return self.pair(bool(v.v))
        if isinstance(v, Node):
            return self.pair(("truth", v.side, v.path))
        if isinstance(v, Any) and getattr(v, "atom", None):
            return self.pair(v.atom)
        if isinstance(v, Alt) and all(isinstance(w, (K, Node, Obj, Lst)) for w, _ in v.entries):
            return self.pair(("val", self.keep(v), "truth"))
        return self.pair(self.free(node))

    def keep(self, v):
        self.n += 1
        self.tests[self.n] = v
        return self.n

    def free(self, node):
        return ("free", id(node), tuple(id(d) for d in self.depth))

    def pair(self, a):
        if a is True:
            return NO, None
        if a is False:
            return None, NO
        return frozenset([(a, True)]), frozenset([(a, False)])

    def conj(self, sets):
        if any(s is None for s in sets):
            return None
        out = NO
        for s in sets:
            out = out | s
        return out

    def opaque_of(self, sets):
        """One of several sets of atoms holds."""
        sets = [s for s in sets if s is not None]
        if not sets:
            return None
        if len(sets) == 1 or any(not s for s in sets):
            return sets[0] if len(sets) == 1 else NO
        return frozenset([(("any", tuple(sets)), True)])

    def has(self, where, key):
        if isinstance(where, Node) and isinstance(key, K):
            return ("in", where.side, where.path, key.v)
        if isinstance(where, (Tup, Lst)) and isinstance(key, K):
            items = where.items if isinstance(where, Tup) else [w for w, _ in where.entries]
            if all(isinstance(w, K) for w in items):
                return key.v in [w.v for w in items]
        if isinstance(where, Obj) and isinstance(key, K):
            return ("val", self.keep(Alt(where.fields.get(key.v, []) or [(K(None), NO)])), "notnone")
        if isinstance(where, Alt) and isinstance(key, K):
            return ("val", self.keep(self.subscript(where, key)), "notnone")
        return ("free", self.keep(None), ())

    def isnone(self, v):
        if isinstance(v, K):
            return v.v is None
        if isinstance(v, Node):
            return ("none", v.side, v.path)
        if isinstance(v, (Obj, Lst, Tup, Str)):
            return False
        if isinstance(v, Alt):
            return ("val", self.keep(v), "none")
        ns = nodes(v)
        if isinstance(v, Any) and len({n.path for n in ns}) == 1:
            return ("none", ns[0].side, ns[0].path)
        return ("free", self.keep(None), ())

    # ---- statements
    def run(self, f, args, selfv=None):
        """The value a function returns."""
        if any(d is f.node for d in self.depth) or len(self.depth) > 12:
            return Any()
        env = {"__f__": f, "__self__": selfv}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm in args:
                env[nm] = args[nm]
            elif nm in defaults:
                env[nm] = self.ev(defaults[nm], {"__f__": f, "__self__": None})
            else:
                env[nm] = Any()
        self.depth.append(f.node)
        outer = self.conds
        ret = []
        self.rets = getattr(self, "rets", [])
        self.rets.append(ret)
        ended = self.block(f.node.body, env)
        self.rets.pop()
        if not ended:
            ret.append((K(None), self.conds - outer))
        self.conds = outer
        self.depth.pop()
        if not ret:
            return Any()
        return join([(v, c - outer) for v, c in ret])

    def block(self, body, env):
        for s in body:
            if self.stmt(s, env):
                return True
        return False

    def branch(self, t, body, env):
        saved = self.conds
        self.conds = saved | t
        ended = self.block(body, env)
        after = self.conds
        self.conds = saved
        return ended, after - saved

    def stmt(self, s, env):
        if isinstance(s, ast.If):
            t, f = self.test(s.test, env)
            if t is None:
                return self.block(s.orelse, env)
            if f is None:
                return self.block(s.body, env)
            e1, e2 = dict(env), dict(env)
            end1, more1 = self.branch(t, s.body, e1)
            end2, more2 = self.branch(f, s.orelse, e2)
            if end1 and end2:
                return True
            if end1 or end2:
                env.clear()
                env.update(e2 if end1 else e1)
                self.conds = self.conds | (more2 if end1 else more1)
                return False
            for k in set(e1) | set(e2):
                a, b = e1.get(k), e2.get(k)
                if a is b:
                    env[k] = a
                elif a is None or b is None:
                    env[k] = a if b is None else b
                else:
                    env[k] = Alt([(a, t), (b, f)])
            return False
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            consts = self.constant_items(it)
            saved = self.conds
            if consts is not None:
                for c in consts:
                    self.bind(s.target, c, env)
                    self.block(s.body, env)
                    self.conds = saved
            else:
                before = dict(env)
                self.bind(s.target, self.elem(it), env)
                self.block(s.body, env)
                self.conds = saved
                for k in list(env):
                    if k in before and before[k] is not env[k] and not isinstance(before[k], (Lst, Obj)):
                        env[k] = env[k] if isinstance(env[k], (Lst, Obj)) else join([(before[k], NO), (env[k], NO)])
            self.block(s.orelse, env)
            return False
        if isinstance(s, ast.While):
            saved = self.conds
            self.block(s.body, env)
            self.conds = saved
            return False
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            ended = self.block(s.body, env)
            for h in s.handlers:
                e = dict(env)
                saved = self.conds
                self.conds = saved | {(("free", id(h), ()), True)}
                self.block(h.body, e)
                self.conds = saved
            self.block(s.finalbody, env)
            return ended
        if isinstance(s, ast.Return):
            self.rets[-1].append((self.ev(s.value, env) if s.value is not None else K(None), self.conds))
            return True
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            cur = self.ev(t, env)
            if isinstance(s.op, ast.Add):
                if isinstance(cur, Lst):
                    self.extend(cur, v)
                    return False
                if isinstance(cur, Alt) and any(isinstance(w, Lst) for w, _ in cur.entries):
                    for w, c in cur.entries:
                        if isinstance(w, Lst):
                            saved = self.conds
                            self.conds = saved | c
                            self.extend(w, v)
                            self.conds = saved
                    return False
                if isinstance(cur, (Str, K)) and isinstance(v, (Str, K)) and (isinstance(cur, Str) or isinstance(cur.v, str)):
                    self.bind(t, Str(self.text(cur) + self.text(v)), env)
                    return False
            self.bind(t, self.arith(s.op, cur, v), env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        return False

    def constant_items(self, v):
        items = v.items if isinstance(v, Tup) else [w for w, c in v.entries if not c] if isinstance(v, Lst) and all(not c for _, c in v.entries) else None
        if items is None or not items or len(items) > 12:
            return None
        def const(x):
            return isinstance(x, K) or isinstance(x, Tup) and any(isinstance(y, K) for y in x.items) or isinstance(x, Node) and isinstance(v, Tup)
        return items if all(const(x) for x in items) else None

    def extend(self, lst, v):
        for w, c in alts(v):
            if isinstance(w, Lst):
                lst.entries += [(x, self.conds | c | d) for x, d in list(w.entries)]
            elif isinstance(w, Tup):
                lst.entries += [(x, self.conds | c) for x in w.items]
            elif not isinstance(w, K):
                lst.entries.append((self.elem(w), self.conds | c))

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, Any(nodes(v)), env)
                else:
                    self.bind(x, self.subscript(v, K(i)), env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            for o, c in alts(b):
                if isinstance(o, Obj):
                    self.put(o, t.attr, v, c)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            for o, c in alts(b):
                if isinstance(o, Obj):
                    self.put(o, k.v if isinstance(k, K) else "*", v, c)
                elif isinstance(o, Lst):
                    o.entries.append((v, self.conds | c))

    def put(self, o, key, v, c):
        for w, d in alts(v):
            o.fields.setdefault(key, []).append((w, self.conds | c | d))

    # ---- values
    def elem(self, v):
        if isinstance(v, Node):
            return v.sub("*")
        if isinstance(v, Lst):
            return join(v.entries) if v.entries else Any()
        if isinstance(v, Tup):
            return join([(x, NO) for x in v.items]) if v.items else Any()
        if isinstance(v, Alt):
            return join([(self.elem(w), c) for w, c in v.entries])
        if isinstance(v, Any) and getattr(v, "each", None) is not None:
            return v.each
        return Any(nodes(v))

    def subscript(self, v, k):
        if isinstance(v, Alt):
            es = [(w, c) for w, c in v.entries if not (isinstance(w, K) and w.v is None)]
            return join([(self.subscript(w, k), c) for w, c in es]) if es else Any()
        if isinstance(k, Alt):
            return join([(self.subscript(v, w), c) for w, c in k.entries])
        if isinstance(v, Node):
            if isinstance(k, K) and isinstance(k.v, str):
                return v.sub(k.v)
            if isinstance(k, Tup):
                for _ in k.items:
                    v = v.sub("*")
                return v
            return v.sub("*")
        if isinstance(v, Obj):
            if isinstance(k, K) and k.v in v.fields:
                return join(v.fields[k.v])
            return Any()
        if isinstance(v, Tup):
            if isinstance(k, K) and isinstance(k.v, int) and -len(v.items) <= k.v < len(v.items):
                return v.items[k.v]
            return self.elem(v)
        if isinstance(v, Lst):
            if isinstance(k, K) and isinstance(k.v, int) and all(not c for _, c in v.entries) and -len(v.entries) <= k.v < len(v.entries) and False:
                return v.entries[k.v][0]
            return self.elem(v)
        return Any(nodes(v))

    def attr(self, b, name):
        if isinstance(b, Alt):
            es = [(w, c) for w, c in b.entries if not (isinstance(w, K) and w.v is None)]
            return join([(self.attr(w, name), c) for w, c in es]) if es else Any()
        if isinstance(b, Obj):
            if name in b.fields:
                return join(b.fields[name])
            if b.free is not None:
                return b.free(name)
            if b.cls is not None:
                v = self.class_value(b.cls, name)
                if v is not None:
                    return v
            return Any()
        if isinstance(b, Node):
            return b.sub("." + name)
        return Any(nodes(b))

    def class_value(self, cls, name):
        for c in self.p.mro(cls):
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    if isinstance(s.value, ast.Constant):
                        return K(s.value.value)
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.value, ast.Constant):
                    return K(s.value.value)
        return None

    def arith(self, op, l, r):
        o = type(op).__name__
        sym = {"Add": "+", "Sub": "-"}.get(o)
        if isinstance(l, K) and isinstance(r, K):
            try:
                if o == "Add":
                    return K(l.v + r.v)
                if o == "Sub":
                    return K(l.v - r.v)
            except Exception:
                return Any()
        for a, b, flip in ((l, r, False), (r, l, True)):
            if isinstance(b, K) and isinstance(b.v, (int, float)) and sym and not (flip and sym == "-"):
                n = one(a)
                if isinstance(a, Node):
                    return a.with_tr("%s%g" % (sym, b.v))
                if isinstance(a, Alt):
                    return join([(self.arith(op, w, b), c) for w, c in a.entries])
                if isinstance(a, Any) and n is not None:
                    return Any([n.with_tr("%s%g" % (sym, b.v))])
        if isinstance(l, Lst) and o == "Add":
            new = Lst(l.entries)
            self.extend(new, r)
            return new
        if isinstance(l, Tup) and isinstance(r, Tup) and o == "Add":
            return Tup(l.items + r.items)
        ns = nodes(l) + nodes(r)
        return Any([n.with_tr(o) for n in ns])

    def text(self, v):
        if isinstance(v, Str):
            return list(v.parts)
        if isinstance(v, K):
            return [str(v.v)]
        return [(v, "")]

    def mod(self, fmt, v):
        out = []
        specs = re.split(r"(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])", fmt)
        holes = [x for x in specs[1::2] if x != "%%"]
        if isinstance(v, Tup):
            vals = list(v.items)
        elif isinstance(v, Any) and getattr(v, "each", None) is not None:
            vals = [v.each] * len(holes)
        elif isinstance(v, Node) and len(holes) > 1:
            vals = [v.sub("*")] * len(holes)
        else:
            vals = [v] * len(holes)
        j = 0
        for i, x in enumerate(specs):
            if i % 2 == 0:
                out.append(x)
            elif x == "%%":
                out.append("%")
            else:
                w = vals[j] if j < len(vals) else Any()
                j += 1
                out.append(str(w.v) if isinstance(w, K) and x in ("%s", "%d") else (w, x))
        return Str(out)

    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return Any()
        return m(n, env)

    def e_Constant(self, n, env):
        return K(n.value)

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        f = env["__f__"]
        for s in f.module.tree.body if hasattr(f.module, "tree") else []:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets) and isinstance(s.value, (ast.Constant, ast.Tuple, ast.List)):
                return self.ev(s.value, {"__f__": f, "__self__": None})
        return Any()

    def e_Attribute(self, n, env):
        return self.attr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        if isinstance(n.slice, ast.Slice):
            v = self.ev(n.value, env)
            return v
        k = self.ev(n.slice, env)
        if isinstance(k, Str):
            k = self.as_const(k)
        return self.subscript(self.ev(n.value, env), k)

    def as_const(self, v):
        if isinstance(v, Str) and all(isinstance(q, str) for q in v.parts):
            return K("".join(v.parts))
        return v

    def e_Tuple(self, n, env):
        return Tup([self.ev(x, env) for x in n.elts])

    def e_List(self, n, env):
        return Lst([(self.as_const(self.ev(x, env)), self.conds) for x in n.elts])

    def e_Set(self, n, env):
        return Tup([self.ev(x, env) for x in n.elts])

    def e_Dict(self, n, env):
        o = Obj()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for w, c in alts(self.ev(v, env)):
                    if isinstance(w, Obj):
                        for kk, es in w.fields.items():
                            o.fields.setdefault(kk, []).extend((x, c | d) for x, d in es)
                continue
            kv = self.as_const(self.ev(k, env))
            self.put(o, kv.v if isinstance(kv, K) else "*", self.ev(v, env), NO)
        return o

    def comp(self, n, env, elt):
        e = dict(env)
        saved = self.conds
        for g in n.generators:
            self.bind(g.target, self.elem(self.ev(g.iter, e)), e)
            for c in g.ifs:
                t, _ = self.test(c, e)
                self.conds = self.conds | (t or NO)
        r = elt(e)
        conds = self.conds
        self.conds = saved
        return r, conds

    def e_ListComp(self, n, env):
        v, c = self.comp(n, env, lambda e: self.ev(n.elt, e))
        return Lst([(v, c)])

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, env):
        (k, v), c = self.comp(n, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        o = Obj()
        o.fields[k.v if isinstance(k, K) else "*"] = [(v, c)]
        return o

    def e_JoinedStr(self, n, env):
        parts = []
        for q in n.values:
            if isinstance(q, ast.Constant):
                parts.append(str(q.value))
            else:
                v = self.ev(q.value, env)
                spec = "".join(x.value for x in q.format_spec.values if isinstance(x, ast.Constant)) if q.format_spec is not None else ""
                if isinstance(v, Str) and not spec:
                    parts += v.parts
                elif isinstance(v, K) and not spec:
                    parts.append(str(v.v))
                else:
                    parts.append((v, "%" + spec if spec else ""))
        return self.as_const(Str(parts))

    def e_BinOp(self, n, env):
        l, r = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Mod):
            if isinstance(l, K) and isinstance(l.v, str):
                return self.as_const(self.mod(l.v, r))
            if isinstance(l, Str):
                return Str(l.parts + [(r, "")])
        if isinstance(n.op, ast.Add) and (isinstance(l, Str) or isinstance(r, Str) or any(isinstance(x, K) and isinstance(x.v, str) for x in (l, r))) and not (isinstance(l, K) and isinstance(r, K)):
            return self.as_const(Str(self.text(l) + self.text(r)))
        if isinstance(n.op, ast.Mult) and isinstance(l, K) and isinstance(r, K):
            try:
                return K(l.v * r.v) if isinstance(l.v, (int, str)) and isinstance(r.v, (int, str)) else Any()
            except Exception:
                return Any()
        return self.arith(n.op, l, r)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Node):
                return v.with_tr("not")
            return Any([x.with_tr("not") for x in nodes(v)])
        if isinstance(n.op, ast.USub):
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                return K(-v.v)
            return Any([x.with_tr("neg") for x in nodes(v)])
        return v

    def e_Compare(self, n, env):
        for x in [n.left] + n.comparators:
            self.ev(x, env)
        r = Any()
        if len(n.ops) == 1:
            t, f = self.test(n, env)
            if t is not None and f is not None and len(t) == 1:
                a, b = next(iter(t))
                if b:
                    r.atom = a
            elif t is None:
                return K(False)
            elif f is None:
                return K(True)
        return r

    def e_BoolOp(self, n, env):
        vs = [self.ev(x, env) for x in n.values]
        if all(isinstance(v, Any) for v in vs):
            return Any()
        return join([(v, NO) for v in vs])

    def e_IfExp(self, n, env):
        t, f = self.test(n.test, env)
        if t is None:
            return self.ev(n.orelse, env)
        if f is None:
            return self.ev(n.body, env)
        tn = None
        if isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant):
            v = self.ev(n.test, env)
            neg = False
            nd = one(v)
            if nd is not None and {str(n.body.value).lower(), str(n.orelse.value).lower()} == {"true", "false"}:
                if str(n.body.value).lower() == "false":
                    neg = True
                return nd.with_tr("not") if neg else nd
        return join([(self.ev(n.body, env), t), (self.ev(n.orelse, env), f)])

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.bind(n.target, v, env)
        return v

    def e_Lambda(self, n, env):
        return Any()

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def args_of(self, g, n, env, bound):
        names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if bound:
            names = names[1:]
        out = {}
        for a, nm in zip(n.args, names):
            out[nm] = self.as_const(self.ev(a, env))
        for k in n.keywords:
            if k.arg:
                out[k.arg] = self.as_const(self.ev(k.value, env))
        return out

    def method(self, cls, name, after=None):
        seen = after is None
        for c in self.p.mro(cls):
            if seen and name in c.methods:
                g = c.methods[name]
                return g[0] if isinstance(g, (list, tuple)) else g
            if c is after:
                seen = True
        return None

    def e_Call(self, n, env):
        fn = n.func
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                o = env.get("__self__")
                f = env["__f__"]
                if isinstance(o, Obj) and o.cls is not None and f.cls is not None:
                    g = self.method(o.cls, fn.attr, f.cls)
                    if g is not None:
                        a = self.args_of(g, n, env, True)
                        a[g.node.args.args[0].arg] = o
                        return self.run(g, a, o)
                return Any()
            b = self.ev(fn.value, env)
            if isinstance(b, Obj) and b.cls is not None:
                g = self.method(b.cls, fn.attr)
                if g is not None:
                    static = g.is_static
                    a = self.args_of(g, n, env, not static)
                    if not static and g.node.args.args:
                        a[g.node.args.args[0].arg] = b
                    return self.run(g, a, b)
            return self.value_method(b, fn, n, env)
        if isinstance(fn, ast.Name):
            f = env["__f__"]
            g = None if fn.id in env else self.local(f, fn.id)
            if g is not None:
                return self.run(g, self.args_of(g, n, env, False))
        args = [self.ev(a, env) for a in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        return self.plain(fn.id if isinstance(fn, ast.Name) else "", args, kw, n, env)

    def local(self, f, name):
        g = f.module.funcs.get(name)
        sym, hops = f.module.sym.get(name), 0
        while g is None and sym is not None and hops < 6:
            hops += 1
            if sym[0] == "func":
                g = self.p.funcs.get(sym[1])
                break
            if sym[0] != "from":
                break
            m = self.p.modules.get(sym[1])
            if m is None:
                break
            g, sym = m.funcs.get(sym[2]), m.sym.get(sym[2])
        return g if g is not None and self.quals(g.qual) else None

    def value_method(self, b, fn, n, env):
        args = [self.as_const(self.ev(a, env)) for a in n.args]
        kw = {k.arg: self.as_const(self.ev(k.value, env)) for k in n.keywords}
        at = fn.attr
        if at in ("append", "extend", "insert") and args:
            for w, c in alts(b):
                if isinstance(w, Lst):
                    saved = self.conds
                    self.conds = saved | c
                    if at == "append":
                        w.entries += [(x, self.conds | d) for x, d in alts(args[0])]
                    elif at == "extend":
                        self.extend(w, args[0])
                    else:
                        pos = args[0].v if isinstance(args[0], K) and isinstance(args[0].v, int) else len(w.entries)
                        for x, d in reversed(alts(args[-1])):
                            w.entries.insert(pos, (x, self.conds | d))
                    self.conds = saved
                elif isinstance(w, Node) and w.side == "d":
                    pass
            return K(None)
        if at == "get" and args and isinstance(b, (Node, Obj, Alt)):
            v = self.subscript(b, args[0])
            return v
        if at == "update" and isinstance(b, Obj) and args and isinstance(args[0], Obj):
            for k, es in args[0].fields.items():
                for v, c in es:
                    self.put(b, k, v, c)
            return K(None)
        if at == "setdefault" and isinstance(b, Obj) and len(args) == 2 and isinstance(args[0], K):
            self.put(b, args[0].v, args[1], NO)
            return self.subscript(b, args[0])
        if at == "format":
            if isinstance(b, K) and isinstance(b.v, str):
                parts, i = [], 0
                for q in re.split(r"(\{[^{}]*\})", b.v):
                    if q.startswith("{"):
                        nm, _, spec = q[1:-1].partition(":")
                        v = kw.get(nm) if nm in kw else None
                        if v is None:
                            j = int(nm) if nm.isdigit() else i
                            v = args[j] if j < len(args) else Any()
                            i += 1
                        parts.append((v, "%" + spec if spec else ""))
                    else:
                        parts.append(q)
                return self.as_const(Str(parts))
            return Any([x for a in args for x in nodes(a)])
        if at == "join" and args:
            return Any(nodes(args[0]))
        if at in ("lower", "upper", "strip", "capitalize"):
            if isinstance(b, Node):
                return b
            if isinstance(b, K) and isinstance(b.v, str):
                return K(getattr(b.v, at)())
        if at == "items":
            if isinstance(b, Node):
                r = Any([b.sub("*")])
                r.each = Tup([Any(), b.sub("*")])
                return r
        if at in ("values", "keys", "copy", "tolist", "astype", "flatten", "ravel", "reshape", "squeeze"):
            return b if at != "values" else (b if isinstance(b, Node) else Any(nodes(b)))
        isnp = isinstance(fn.value, ast.Name) and fn.value.id not in env
        if isnp:
            return self.plain(at, args, kw, n, env)
        return Any(nodes(b) + [x for a in args for x in nodes(a)])

    SAME = {"array", "asarray", "ascontiguousarray", "tuple", "list", "float", "int", "str", "bool", "reshape", "sorted", "deepcopy", "copy", "double", "unique", "sort", "dict", "reversed"}

    def plain(self, name, args, kw, n, env):
        if name in self.SAME and args:
            if name == "dict" and isinstance(args[0], Obj) or name == "dict" and not args:
                return args[0]
            return args[0]
        if name == "dict":
            o = Obj()
            for k, v in kw.items():
                self.put(o, k, v, NO)
            return o
        if name == "list" or name == "tuple":
            return Lst()
        if name == "enumerate" and args:
            r = Any()
            r.each = Tup([Any(), self.elem(args[0])])
            if isinstance(args[0], (Tup, Lst)):
                cs = self.constant_items(args[0])
                if cs is not None:
                    return Tup([Tup([K(i), c]) for i, c in enumerate(cs)])
            return r
        if name == "zip":
            r = Any()
            r.each = Tup([self.elem(a) for a in args])
            return r
        if name in ("zeros", "empty", "zeros_like", "empty_like"):
            return Lst()
        if name == "getattr" and len(args) >= 2 and isinstance(args[1], K):
            return self.attr(args[0], args[1].v)
        if name in ("len", "range"):
            return Any()
        return Any([x for a in args for x in nodes(a)])
