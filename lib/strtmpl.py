"""File-name templates: which names a string-building function can produce, as text over its own parameters.

A structured walk over the syntax tree keeps, per path, the string variables as lists of parts (literal text,
formatted parameter expressions, repetitions) and the parameter tests taken.  Calls of functions of the package are
walked through with their arguments bound, so a name is the same template whether it is built in place or by helpers."""
import ast
import re
import pyx

CANON = {"gp": "grid_point"}
MAXP = 4000


class Sym:
    """A value that is not a string under construction: canonical text and the parameters in it."""
    def __init__(self, text, leaves=frozenset(), elems=None, const=False, value=None):
        self.text, self.leaves, self.elems, self.const, self.value = text, frozenset(leaves), elems, const, value


class Str:
    def __init__(self, parts):
        out = []
        for q in parts:
            if q[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + q[1])
            elif q != ("lit", ""):
                out.append(q)
        self.parts = tuple(out)

    def leaves(self):
        return leaves_of(self.parts)


def leaves_of(parts):
    out = set()
    for q in parts:
        if q[0] == "fmt":
            out |= q[3]
        elif q[0] == "star":
            out |= leaves_of(q[1]) | q[2]
        elif q[0] == "meth":
            out |= leaves_of(q[2])
    return out


def text_of(parts):
    """Comparable text; {x} is what is inserted."""
    out = []
    for q in parts:
        if q[0] == "lit":
            out.append(q[1])
        elif q[0] == "fmt":
            out.append("{%s:%s}" % (q[2], "" if q[1] in ("d", "i") else q[1]))
        elif q[0] == "star":
            out.append("(%s)*" % text_of(q[1]))
        else:
            out.append("<%s>%s" % (q[1], text_of(q[2])))
    return "".join(out)


class Unknown(Exception):
    pass


class Path:
    __slots__ = ("env", "conds", "ret")

    def __init__(self, env, conds, ret=None):
        self.env, self.conds, self.ret = env, conds, ret

    def fork(self):
        return Path(dict(self.env), self.conds, self.ret)


def after(root, target):
    """Statements that run only after the one holding target: they need no walk (loops are entered once)."""
    out = set()

    def holds(x):
        return any(n is target for n in ast.walk(x))

    def bodies(st):
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(getattr(st, fld, None), list):
                yield getattr(st, fld)
        for h in getattr(st, "handlers", ()):
            yield h.body

    def rec(body):
        for i, st in enumerate(body):
            if holds(st):
                out.update(id(x) for x in body[i + 1:])
                inner = False
                for b in bodies(st):
                    if any(holds(x) for x in b):
                        inner = True
                        rec(b)
                if not inner:
                    for b in bodies(st):
                        out.update(id(x) for x in b)
    rec(root.body)
    return out


def relevant(root, exprs):
    """Names the given expressions depend on inside root, and whether a statement can matter for them."""
    names = {n.id for x in exprs for n in ast.walk(x) if isinstance(n, ast.Name)}
    while True:
        k = len(names)
        for st in ast.walk(root):
            tg, src = [], []
            if isinstance(st, ast.Assign):
                tg, src = st.targets, [st.value]
            elif isinstance(st, (ast.AnnAssign, ast.AugAssign)) and st.value is not None:
                tg, src = [st.target], [st.value]
            elif isinstance(st, ast.For):
                tg, src = [st.target], [st.iter]
            elif isinstance(st, ast.NamedExpr):
                tg, src = [st.target], [st.value]
            if any(isinstance(n, ast.Name) and n.id in names for t in tg for n in ast.walk(t)):
                names |= {n.id for x in src for n in ast.walk(x) if isinstance(n, ast.Name)}
        if len(names) == k:
            return names


class Walker:
    def __init__(self, p):
        self.p, self.depth, self.own = p, 0, set(p.own_funcs())

    # ---------------------------------------------------------------- entry
    def at(self, f, target):
        """[(conds, Str or Sym)] of the expression `target` (an ast node inside f) on every path reaching it."""
        env = {}
        for a in list(f.params) + list(f.kwonly):
            c = CANON.get(a, a)
            env[a] = Sym(c, {c})
        hits = []
        self.past = after(f.node, target)
        self.rel = {id(f.node): relevant(f.node, [target])}
        for pa in self.block(f, f.node.body, [Path(env, ())], target, hits):
            pass
        seen, out = set(), []
        for c, v in hits:
            k = (c, text_of(v.parts) if isinstance(v, Str) else v.text)
            if k not in seen:
                seen.add(k)
                out.append((c, v))
        return out

    # ------------------------------------------------------------ statements
    def block(self, f, body, paths, target=None, hits=None):
        done = []
        for st in body:
            if target is not None and id(st) in self.past:
                break
            nxt = []
            for pa in paths:
                if pa.ret is not None:
                    done.append(pa)
                else:
                    nxt += self.stmt(f, st, pa, target, hits)
            paths = nxt
            if len(paths) > MAXP:
                raise Unknown("too many paths")
        return paths + done

    def probe(self, f, node, pa, target, hits):
        if target is None:
            return
        for n in ast.walk(node):
            if n is target:
                for c, v in self.ev(f, n, pa):
                    hits.append((c, v))

    def matters(self, f, st, target):
        if id(f.node) not in self.rel:
            self.rel[id(f.node)] = relevant(f.node, [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None])
        names = self.rel[id(f.node)]
        for n in ast.walk(st):
            if n is target or isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in names:
                return True
        return False

    def stmt(self, f, st, pa, target, hits):
        if not self.matters(f, st, target):
            return [pa]
        if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            if isinstance(st, ast.If):
                self.probe(f, st.test, pa, target, hits)
                out = []
                for c, pol in self.test(f, st.test, pa):
                    q = pa.fork()
                    q.conds = c
                    out += self.block(f, st.body if pol else st.orelse, [q], target, hits)
                return out
            if isinstance(st, ast.With):
                for it in st.items:
                    self.probe(f, it.context_expr, pa, target, hits)
                    if it.optional_vars is not None:
                        self.bindto(it.optional_vars, Sym("?with", ()), pa)
                return self.block(f, st.body, [pa], target, hits)
            if isinstance(st, ast.For):
                self.probe(f, st.iter, pa, target, hits)
                it = self.ev(f, st.iter, pa)
                out = []
                for c, v in it:
                    q0 = pa.fork()
                    q0.conds = c
                    out += self.loop(f, st, q0, v, target, hits)
                return out
            if isinstance(st, ast.While):
                self.block(f, st.body, [pa.fork()], target, hits)
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        pa.env[n.id] = Sym("?" + n.id, ())
                return [pa]
            if isinstance(st, ast.Try):
                base = pa.fork()
                leaves = set()
                for n in st.body:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in pa.env and isinstance(pa.env[x.id], Sym):
                            leaves |= pa.env[x.id].leaves
                out = self.block(f, st.body, [pa], target, hits)
                live = [q for q in out if q.ret is None]
                out = [q for q in out if q.ret is not None] + (self.block(f, st.orelse, live, target, hits) if st.orelse else live)
                for h in st.handlers:
                    q = base.fork()
                    q.conds = q.conds + (("except(%s)" % ",".join(sorted(leaves)), frozenset(leaves), True),)
                    out += self.block(f, h.body, [q], target, hits)
                if st.finalbody:
                    out = self.block(f, st.finalbody, out, target, hits)
                return out
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return [pa]
        if isinstance(st, ast.Raise):
            self.probe(f, st, pa, target, hits)
            pa.ret = ("raise",)
            return [pa]
        if isinstance(st, ast.Return):
            self.probe(f, st, pa, target, hits)
            out = []
            for c, v in (self.ev(f, st.value, pa) if st.value is not None else [(pa.conds, Sym("None", (), const=True))]):
                q = pa.fork()
                q.conds, q.ret = c, ("ret", v)
                out.append(q)
            return out
        self.probe(f, st, pa, target, hits)
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            out = []
            for c, v in self.ev(f, st.value, pa):
                q = pa.fork()
                q.conds = c
                for t in tg:
                    self.bindto(t, v, q)
                out.append(q)
            return out
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            out = []
            node = ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), st.op, st.value), st)
            for c, v in self.ev(f, node, pa):
                q = pa.fork()
                q.conds = c
                q.env[st.target.id] = v
                out.append(q)
            return out
        return [pa]

    def loop(self, f, st, pa, it, target, hits):
        before = dict(pa.env)
        if isinstance(it, Sym) and it.elems is not None and len(it.elems) <= 3 and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(st)):
            paths = [pa]
            for e in it.elems:
                nxt = []
                for q in paths:
                    self.bindto(st.target, e, q)
                    nxt += self.block(f, st.body, [q], target, hits)
                paths = nxt
            # one repetition per element: written like a general loop, so that a list of one and a list compare alike
            return paths
        q = pa.fork()
        el = Sym("elem(%s)" % it.text, it.leaves) if isinstance(it, Sym) else Sym("?elem", ())
        self.bindto(st.target, el, q)
        res = []
        for r in self.block(f, st.body, [q], target, hits):
            new = pa.fork()
            if r.ret is not None:
                res.append(r)
                continue
            new.conds = r.conds
            for k, v in r.env.items():
                b = before.get(k)
                if v is b:
                    continue
                if isinstance(v, Str) and isinstance(b, Str) and v.parts != b.parts:
                    bt, vt = b.parts, v.parts
                    if vt[:len(bt)] == bt:
                        new.env[k] = Str(bt + (("star", vt[len(bt):], el.leaves),))
                    elif bt and vt[:len(bt) - 1] == bt[:-1] and bt[-1][0] == "lit" and vt[len(bt) - 1][0] == "lit" and vt[len(bt) - 1][1].startswith(bt[-1][1]):
                        rest = (("lit", vt[len(bt) - 1][1][len(bt[-1][1]):]),) + vt[len(bt):]
                        new.env[k] = Str(bt + (("star", Str(rest).parts, el.leaves),))
                    else:
                        new.env[k] = Sym("?" + k, ())
                elif isinstance(v, Str) and isinstance(b, Str):
                    pass
                else:
                    new.env[k] = v if b is None else Sym("?" + k, ())
            res.append(new)
        return res or [pa]

    def bindto(self, t, v, pa):
        if isinstance(t, ast.Name):
            pa.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(v, Sym) and v.elems is not None and i < len(v.elems):
                    self.bindto(x, v.elems[i], pa)
                elif isinstance(v, Sym):
                    self.bindto(x, Sym("%s[%d]" % (v.text, i), v.leaves), pa)
                else:
                    self.bindto(x, Sym("?", ()), pa)

    # ------------------------------------------------------------- conditions
    def test(self, f, node, pa):
        """[(conds, truth)] feasible outcomes."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(c, not b) for c, b in self.test(f, node.operand, pa)]
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur, out = [pa.conds], []
            for i, v in enumerate(node.values):
                nxt = []
                for c in cur:
                    q = pa.fork()
                    q.conds = c
                    for c2, b in self.test(f, v, q):
                        if i == len(node.values) - 1 or b != isand:
                            out.append((c2, b))
                        else:
                            nxt.append(c2)
                cur = nxt
            return out
        neg = False
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            neg = isinstance(node.ops[0], (ast.IsNot, ast.NotEq))
            out = []
            for c, v in self.ev(f, node.left, pa):
                if isinstance(v, Str) or v.elems is not None or (v.const and v.text != "None"):
                    out.append((c, neg))
                    continue
                if v.const:
                    out.append((c, not neg))
                    continue
                out += self.split(c, "%s is None" % v.text, v.leaves, neg)
            return out
        out = []
        for c, v in self.ev(f, node, pa):
            if isinstance(v, Str):
                out += self.split(c, "bool(%s)" % text_of(v.parts), v.leaves(), False)
            elif v.const:
                out.append((c, bool(v.value)))
            else:
                out += self.split(c, v.text, v.leaves, False)
        return out

    def split(self, c, text, leaves, neg):
        """Truth of the (possibly negated) atom given the conditions so far."""
        for t, _, b in c:
            if t == text:
                return [(c, b != neg)]
        return [(c + ((text, frozenset(leaves), b),), b != neg) for b in (True, False)]

    # ------------------------------------------------------------ expressions
    def ev(self, f, n, pa):
        """[(conds, value)]"""
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str):
                return [(pa.conds, Str([("lit", n.value)]))]
            return [(pa.conds, Sym(repr(n.value), (), const=True, value=n.value))]
        if isinstance(n, ast.Name):
            if n.id in pa.env:
                return [(pa.conds, pa.env[n.id])]
            return [(pa.conds, Sym(n.id, ()))]
        if isinstance(n, ast.JoinedStr):
            return self.seq(f, n.values, pa, lambda vs: Str([q for v in vs for q in (v.parts if isinstance(v, Str) else self.one("", v))]))
        if isinstance(n, ast.FormattedValue):
            spec = "".join(x.value for x in n.format_spec.values if isinstance(x, ast.Constant)) if n.format_spec is not None else ""
            return self.seq(f, [n.value], pa, lambda vs: Str(vs[0].parts if isinstance(vs[0], Str) and spec in ("", "s") else self.one(spec, vs[0])))
        if isinstance(n, ast.IfExp):
            out = []
            for c, b in self.test(f, n.test, pa):
                q = pa.fork()
                q.conds = c
                out += self.ev(f, n.body if b else n.orelse, q)
            return out
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.seq(f, [n.left, n.right], pa, self.add)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            return self.seq(f, [n.left, n.right], pa, self.mod)
        if isinstance(n, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in n.elts):
            return self.seq(f, n.elts, pa, lambda vs: Sym("[%s]" % ",".join(self.txt(v) for v in vs), set().union(*[self.lv(v) for v in vs]) if vs else (), elems=vs))
        if isinstance(n, ast.Call):
            return self.call(f, n, pa)
        if isinstance(n, ast.Subscript):
            def sub(vs):
                b, i = vs
                if isinstance(b, Sym) and b.elems is not None and isinstance(i, Sym) and i.const and isinstance(i.value, int) and -len(b.elems) <= i.value < len(b.elems):
                    return b.elems[i.value]
                return Sym("%s[%s]" % (self.txt(b), self.txt(i)), self.lv(b) | self.lv(i))
            return self.seq(f, [n.value, n.slice], pa, sub)
        if isinstance(n, ast.Attribute):
            return self.seq(f, [n.value], pa, lambda vs: Sym("%s.%s" % (self.txt(vs[0]), n.attr), self.lv(vs[0])))
        kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        if kids and len(kids) <= 4 and not isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            ops = "".join(type(x).__name__ for x in ast.walk(n) if isinstance(x, (ast.operator, ast.cmpop, ast.unaryop, ast.boolop)))
            return self.seq(f, kids, pa, lambda vs: Sym("%s(%s)" % (type(n).__name__ + ops, ",".join(self.txt(v) for v in vs)), set().union(*[self.lv(v) for v in vs])))
        lv = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in pa.env:
                lv |= self.lv(pa.env[x.id])
        return [(pa.conds, Sym("?%s" % ast.dump(n)[:80], lv))]

    def txt(self, v):
        return text_of(v.parts) if isinstance(v, Str) else v.text

    def lv(self, v):
        return frozenset(v.leaves() if isinstance(v, Str) else v.leaves)

    def seq(self, f, nodes, pa, build):
        states = [(pa.conds, [])]
        for x in nodes:
            nxt = []
            for c, vs in states:
                q = pa.fork()
                q.conds = c
                for c2, v in self.ev(f, x, q):
                    nxt.append((c2, vs + [v]))
            states = nxt
        return [(c, build(vs)) for c, vs in states]

    def one(self, spec, v):
        s = "" if spec in ("s", "r") else spec
        if isinstance(v, Str):
            if s == "":
                return list(v.parts)
            return [("meth", "format " + s, v.parts)]
        return [("fmt", s, v.text, frozenset(v.leaves))]

    def add(self, vs):
        a, b = vs
        if isinstance(a, Str) and isinstance(b, Str):
            return Str(a.parts + b.parts)
        if isinstance(a, Str) or isinstance(b, Str):
            pa_ = a.parts if isinstance(a, Str) else (("fmt", "", a.text, a.leaves),)
            pb_ = b.parts if isinstance(b, Str) else (("fmt", "", b.text, b.leaves),)
            return Str(tuple(pa_) + tuple(pb_))
        return Sym("(%s+%s)" % (a.text, b.text), a.leaves | b.leaves)

    def mod(self, vs):
        a, b = vs
        if not (isinstance(a, Str) and len(a.parts) == 1 and a.parts[0][0] == "lit"):
            return Sym("(%s%%%s)" % (self.txt(a), self.txt(b)), self.lv(a) | self.lv(b))
        bits = re.split(r"(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])", a.parts[0][1])
        specs = [x for i, x in enumerate(bits) if i % 2 and not x.endswith("%")]
        if isinstance(b, Sym) and b.elems is not None:
            vals = b.elems
        elif len(specs) == 1:
            vals = [b]
        else:
            vals = [Sym("%s[%d]" % (self.txt(b), i), self.lv(b)) for i in range(len(specs))]
        if len(vals) != len(specs):
            return Sym("?", set().union(*[self.lv(v) for v in vals]) if vals else ())
        out, k = [], 0
        for i, x in enumerate(bits):
            if i % 2 == 0:
                out.append(("lit", x))
            elif x.endswith("%"):
                out.append(("lit", "%"))
            else:
                sp = x[1:]
                out += self.one({"s": "", "i": "d"}.get(sp, sp), vals[k])
                k += 1
        return Str(out)

    def call(self, f, n, pa):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id in ("tuple", "list", "str", "int", "float") and len(n.args) == 1 and not n.keywords:
            return self.seq(f, n.args, pa, lambda vs: Str(self.one("", vs[0])) if fn.id == "str" else vs[0])
        if isinstance(fn, ast.Attribute):
            if fn.attr == "join" and len(n.args) == 1:
                def join(vs):
                    s, x = vs
                    if isinstance(s, Str) and isinstance(x, Sym) and x.elems is not None:
                        out = []
                        for i, e in enumerate(x.elems):
                            out += (list(s.parts) if i else []) + (list(e.parts) if isinstance(e, Str) else self.one("", e))
                        return Str(out)
                    return Sym("?join", self.lv(s) | self.lv(x))
                if isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)) and len(n.args[0].generators) == 1 and not n.args[0].generators[0].ifs:
                    g = n.args[0].generators[0]
                    out = []
                    for c, it in self.ev(f, g.iter, pa):
                        q = pa.fork()
                        q.conds = c
                        el = [it.elems] if isinstance(it, Sym) and it.elems is not None else None
                        if el is not None:
                            continue
                        self.bindto(g.target, Sym("elem(%s)" % self.txt(it), self.lv(it)), q)
                        for c2, v in self.ev(f, n.args[0].elt, q):
                            for c3, s in self.ev(f, fn.value, q):
                                if isinstance(v, Str) and isinstance(s, Str) and not s.parts:
                                    out.append((c2, Str([("star", v.parts, self.lv(it))])))
                                else:
                                    out.append((c2, Sym("?join", self.lv(it))))
                    if out:
                        return out
                return self.seq(f, [fn.value, n.args[0]], pa, join)
            if fn.attr == "format" and isinstance(fn.value, ast.Constant) and isinstance(fn.value.value, str) and not n.keywords:
                bits = re.split(r"(\{\d*(?::[^{}]*)?\})", fn.value.value)

                def fmt(vs):
                    out, k = [], 0
                    for i, x in enumerate(bits):
                        if i % 2 == 0:
                            out.append(("lit", x))
                            continue
                        m = re.match(r"\{(\d*)(?::([^{}]*))?\}", x)
                        j = int(m.group(1)) if m.group(1) else k
                        k += 1
                        if j >= len(vs):
                            return Sym("?", ())
                        out += self.one(m.group(2) or "", vs[j])
                    return Str(out)
                return self.seq(f, n.args, pa, fmt)
        g = self.resolve(f, fn, pa)
        if g is not None and self.depth < 6:
            return self.inline(f, n, g, pa)
        if isinstance(fn, ast.Attribute):
            def meth(vs):
                o, rest = vs[0], vs[1:]
                nm = "%s(%s)" % (fn.attr, ",".join(self.txt(v) for v in rest))
                if isinstance(o, Str) and fn.attr in ("rstrip", "lstrip", "strip", "replace", "lower", "upper", "removesuffix"):
                    return Str([("meth", nm, o.parts)])
                return Sym("%s.%s" % (self.txt(o), nm), set().union(*[self.lv(v) for v in vs]))
            return self.seq(f, [fn.value] + [a for a in n.args if not isinstance(a, ast.Starred)], pa, meth)
        nm = ast.unparse(fn)
        args = [a for a in n.args if not isinstance(a, ast.Starred)] + [k.value for k in n.keywords]
        return self.seq(f, args, pa, lambda vs: Sym("%s(%s)" % (nm, ",".join(self.txt(v) for v in vs)), set().union(*[self.lv(v) for v in vs]) if vs else ()))

    def resolve(self, f, fn, pa):
        for e in self.p.events(f):
            if e.kind == "call" and isinstance(e.node, ast.Call) and e.node.func is fn:
                t, complete = self.p.targets(e.t[1], f)
                gs = [g for g, ctor in t if not ctor]
                if len(gs) == 1 and gs[0] in self.own:
                    return gs[0]
        return None

    def inline(self, f, n, g, pa):
        names = list(g.params)
        slots = {}
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred) or i >= len(names):
                return [(pa.conds, Sym("?call", ()))]
            slots[names[i]] = a
        for k in n.keywords:
            if k.arg is None or k.arg not in names + list(g.kwonly):
                return [(pa.conds, Sym("?call", ()))]
            slots[k.arg] = k.value
        order = list(slots)
        out = []
        a = g.node.args
        dflt = dict(zip([x.arg for x in a.posonlyargs + a.args][-len(a.defaults):] if a.defaults else [], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for c, vs in self.seq(f, [slots[k] for k in order], pa, list):
            env = dict(zip(order, vs))
            for x in names + list(g.kwonly):
                if x not in env:
                    if x not in dflt:
                        env[x] = Sym("?" + x, ())
                    else:
                        env[x] = self.ev(g, dflt[x], Path({}, ()))[0][1]
            self.depth += 1
            try:
                for q in self.block(g, g.node.body, [Path(env, c)]):
                    if q.ret is not None and q.ret[0] == "raise":
                        continue
                    v = q.ret[1] if q.ret is not None else Sym("None", (), const=True)
                    out.append((q.conds, v))
            finally:
                self.depth -= 1
        return out
