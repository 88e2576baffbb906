"""Values and path conditions of C functions (structured control flow only).

Every assigned scalar is replaced by the value it holds, so naming and temporaries change nothing.
Terms: ("v",id,name) ("c",x) ("op",o,a[,b]) ("idx",base,index) ("call",name,args) ("mem",b,field)
("addr",x) ("sel",cond,a,b) ("poly",key) for integer index expressions with their atoms.
"""
from cfront import strip, callee, args
from poly import Poly

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%="}


class Ev:
    __slots__ = ("kind", "t", "conds", "line", "loops", "op", "node")

    def __init__(self, kind, t, conds, line, loops, op=None, node=None):
        self.kind, self.t, self.conds, self.line, self.loops, self.op, self.node = kind, t, tuple(conds), line, loops, op, node


def isint(t):
    t = t.replace("const", "").strip()
    return "*" not in t and "[" not in t and not ("double" in t or "float" in t or "complex" in t)


class Walk:
    def __init__(self, fn):
        self.fn = fn
        self.events = []
        self.loops = ()
        self.n = 0
        self.types = {}
        env = {}
        for n, t, i in fn.params:
            env[i] = ("v", i, n)
            self.types[i] = t
        self.stmt(fn.body, env, [])

    # statements return True when control does not continue after them
    def stmt(self, s, env, conds):
        if s is None:
            return False
        k = s.k
        if k == "CompoundStmt":
            mine = list(conds)
            for x in s.kids:
                if self.stmt(x, env, mine):
                    return True
            conds[len(conds):] = mine[len(conds):]
            return False
        if k == "DeclStmt":
            for d in s.kids:
                if d.k == "VarDecl":
                    self.types[d.id] = d.t
                    env[d.id] = ("v", d.id, d.name)
                    ini = [x for x in d.kids if x is not None]
                    if ini and ini[-1].k != "InitListExpr":
                        v = self.ev(ini[-1], env, conds)
                        self.events.append(Ev("store", (("v", d.id, d.name), v), conds, s.line, self.loops, "=", d))
                        if "[" not in d.t:
                            env[d.id] = self.held(v, d.id, d.name)
            return False
        if k == "IfStmt":
            c = self.ev(s.kids[0], env, conds)
            e1, e2 = dict(env), dict(env)
            c1, c2 = conds + [(c, True)], conds + [(c, False)]
            x1 = self.stmt(s.kids[1], e1, c1)
            x2 = self.stmt(s.kids[2], e2, c2) if len(s.kids) > 2 and s.kids[2] is not None else False
            if x1 and x2:
                return True
            if x1:
                env.clear(); env.update(e2)
                conds[len(conds):] = c2[len(conds):]
                return False
            if x2:
                env.clear(); env.update(e1)
                conds[len(conds):] = c1[len(conds):]
                return False
            for i in set(e1) | set(e2):
                a, b = e1.get(i), e2.get(i)
                if a is None or b is None:
                    continue
                env[i] = a if a == b else ("sel", c, a, b)
            return False
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            if k == "ForStmt":
                init, _c, cond, inc, body = (s.kids + [None] * 5)[:5]
                self.stmt(init, env, conds)
            elif k == "WhileStmt":
                cond, body, inc = s.kids[0], s.kids[-1], None
            else:
                body, cond, inc = s.kids[0], s.kids[1], None
            for x in self.assigned(s):
                if x in env:
                    self.n += 1
                    env[x] = ("v", x, env[x][2] if env[x][0] == "v" else "", "l%d" % s.line, self.n)
            loops, self.loops = self.loops, self.loops + (s,)
            inner = list(conds)
            e = dict(env)
            if cond is not None:
                c = self.ev(cond, e, inner)
                if k != "DoStmt":
                    inner.append((c, True))
            self.stmt(body, e, inner)
            if inc is not None:
                self.stmt(inc, e, inner)
            self.loops = loops
            for x in self.assigned(s):
                if x in env:
                    self.n += 1
                    env[x] = ("v", x, env[x][2] if env[x][0] == "v" else "", "x%d" % s.line, self.n)
            return False
        if k in ("ReturnStmt",):
            if s.kids and s.kids[0] is not None:
                v = self.ev(s.kids[0], env, conds)
                self.events.append(Ev("return", v, conds, s.line, self.loops))
            return True
        if k in ("ContinueStmt", "BreakStmt", "GotoStmt"):
            return True
        if k in ("SwitchStmt", "CaseStmt", "DefaultStmt", "LabelStmt"):
            for x in s.kids:
                if x is not None:
                    self.stmt(x, env, conds)
            return False
        if k in ("OMPParallelForDirective", "OMPParallelDirective", "OMPForDirective", "CapturedStmt", "CapturedDecl", "OMPCanonicalLoop", "AttributedStmt"):
            for x in s.kids:
                if x is not None and x.k.endswith("Stmt") or x is not None and x.k == "CapturedDecl":
                    self.stmt(x, env, conds)
            return False
        if k == "NullStmt":
            return False
        self.ev(s, env, conds)
        return False

    def held(self, v, i, name):
        """Memory from an allocator is named after the variable that first holds it."""
        if v[0] == "call" and v[1] in ("malloc", "calloc", "realloc") or v[0] == "?":
            self.n += 1
            return ("v", i, name, "m", self.n)
        return v

    def assigned(self, s):
        out = set()
        for x in s.walk():
            if (x.k == "BinaryOperator" and x.op == "=") or x.k == "CompoundAssignOperator" or (x.k == "UnaryOperator" and x.op in ("++", "--")):
                l = strip(x.kids[0])
                if l.k == "DeclRefExpr":
                    out.add(l.ref)
        return out

    def poly(self, t):
        if t[0] == "poly":
            return t[2]
        if t[0] == "c" and isinstance(t[1], int):
            return Poly.const(t[1])
        return Poly.sym(t)

    def mk(self, p):
        if not p.t:
            return ("c", 0)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if m == ():
                return ("c", c)
            if c == 1 and len(m) == 1:
                return m[0]
        return ("poly", frozenset(p.t.items()), p)

    def index(self, b, i):
        """base[i] with pointer offsets folded."""
        if b[0] == "ptr":
            return ("idx", b[1], self.mk(self.poly(b[2]) + self.poly(i)))
        return ("idx", b, i)

    def ev(self, n, env, conds):
        n = strip(n)
        if n is None:
            return ("?",)
        k = n.k
        if k == "DeclRefExpr":
            if n.refk in ("VarDecl", "ParmVarDecl"):
                return env.get(n.ref, ("v", n.ref, n.name))
            return ("v", n.ref, n.name)
        if k in ("IntegerLiteral", "FloatingLiteral", "CharacterLiteral"):
            try:
                return ("c", int(n.val)) if k == "IntegerLiteral" else ("c", float(n.val))
            except (TypeError, ValueError):
                return ("c", str(n.val))
        if k == "StringLiteral":
            return ("c", str(n.val))
        if k == "ArraySubscriptExpr":
            b, i = self.ev(n.kids[0], env, conds), self.ev(n.kids[1], env, conds)
            return self.index(b, i)
        if k == "MemberExpr":
            return ("mem", self.ev(n.kids[0], env, conds), n.name)
        if k == "CallExpr":
            f = callee(n)
            a = tuple(self.ev(x, env, conds) for x in args(n))
            t = ("call", f or "?", a)
            self.events.append(Ev("call", t, conds, n.line, self.loops, None, n))
            for x in args(n):
                y = strip(x)
                if y.k == "UnaryOperator" and y.op == "&":
                    z = strip(y.kids[0])
                    if z.k == "DeclRefExpr" and z.ref in env:
                        self.n += 1
                        env[z.ref] = ("v", z.ref, z.name, "a", self.n)
            return t
        if k == "ConditionalOperator":
            c = self.ev(n.kids[0], env, conds)
            a = self.ev(n.kids[1], env, conds + [(c, True)])
            b = self.ev(n.kids[2], env, conds + [(c, False)])
            return ("sel", c, a, b)
        if k == "BinaryOperator" and n.op == "=" or k == "CompoundAssignOperator":
            l = strip(n.kids[0])
            r = self.ev(n.kids[1], env, conds)
            o = n.op if k == "CompoundAssignOperator" else "="
            if l.k == "DeclRefExpr":
                tgt = ("v", l.ref, l.name)
                old = env.get(l.ref, tgt)
                self.types.setdefault(l.ref, l.t)
            else:
                tgt = old = self.ev(l, env, conds)
            if o == "/=":
                self.events.append(Ev("div", (old, r), conds, n.line, self.loops, o, n))
            self.events.append(Ev("store", (tgt, r), conds, n.line, self.loops, o, n))
            v = r if o == "=" else self.bin(o[:-1], old, r, n.kids[0].t)
            if l.k == "DeclRefExpr":
                env[l.ref] = self.held(v, l.ref, l.name)
            return v
        if k == "BinaryOperator":
            o = n.op
            a = self.ev(n.kids[0], env, conds)
            if o in ("&&", "||"):
                b = self.ev(n.kids[1], env, conds + [(a, o == "&&")])
                return ("op", o, a, b)
            b = self.ev(n.kids[1], env, conds)
            if o == "/" and not isint(n.t):
                self.events.append(Ev("div", (a, b), conds, n.line, self.loops, o, n))
            if o == ",":
                return b
            return self.bin(o, a, b, n.t)
        if k == "UnaryOperator":
            a = self.ev(n.kids[0], env, conds)
            if n.op in ("++", "--"):
                l = strip(n.kids[0])
                if l.k == "DeclRefExpr":
                    env[l.ref] = self.bin("+" if n.op == "++" else "-", a, ("c", 1), n.t)
                else:
                    self.events.append(Ev("store", (a, ("c", 1)), conds, n.line, self.loops, n.op[0] + "=", n))
                return a
            if n.op == "&":
                if a[0] == "idx":
                    return ("ptr", a[1], a[2])
                return ("addr", a)
            if n.op == "*":
                if a[0] == "addr":
                    return a[1]
                return self.index(a, ("c", 0))
            return ("op", n.op, a)
        if k == "UnaryExprOrTypeTraitExpr":
            return ("c", "sizeof")
        for x in n.kids:
            if x is not None:
                self.ev(x, env, conds)
        return ("?",)

    def bin(self, o, a, b, t):
        if "*" in t or "[" in t:
            if o in ("+", "-"):
                if "?" in (a[0], b[0]):
                    return ("?",)
                base, off = (a, b)
                q = self.poly(off)
                if o == "-":
                    q = -q
                if base[0] == "ptr":
                    return ("ptr", base[1], self.mk(self.poly(base[2]) + q))
                return ("ptr", base, self.mk(q))
        if isint(t) and o in ("+", "-", "*") and "?" not in (a[0], b[0]):
            p, q = self.poly(a), self.poly(b)
            return self.mk(p + q if o == "+" else p - q if o == "-" else p * q)
        return ("op", o, a, b)


def root(t):
    while t[0] in ("idx", "ptr", "addr"):
        t = t[1]
    return t


def sub(t):
    """All sub-terms."""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            if x and x[0] == "poly":
                for m in x[2].t:
                    st.extend(m)
            else:
                st.extend(y for y in x if isinstance(y, tuple))


def show(t):
    k = t[0]
    if k == "v":
        return t[2] or "?"
    if k == "c":
        return str(t[1])
    if k == "op":
        return "%s%s" % (t[1], show(t[2])) if len(t) == 3 else "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "ptr":
        return "(%s + %s)" % (show(t[1]), show(t[2]))
    if k == "poly":
        return " + ".join(sorted("*".join(([str(c)] if c != 1 or not m else []) + [show(x) for x in m]) for m, c in t[2].t.items()))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k == "mem":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "sel":
        return "(%s ? %s : %s)" % tuple(show(x) for x in t[1:])
    return k
