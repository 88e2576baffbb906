"""Control-flow graphs of C functions (all statement kinds, goto/switch included)."""
from cfront import strip, src


class B:
    """One CFG node: kind in expr|decl|branch|nondet|return|join|exit|case."""
    __slots__ = ("i", "kind", "ast", "succ", "key", "line", "par")

    def __init__(self, i, kind, ast=None, key=None, line=0):
        self.i, self.kind, self.ast, self.key, self.line = i, kind, ast, key, line
        self.succ = []
        self.par = None


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.labels = {}
        self.gotos = []
        self.loops = []       # (break target join, continue target join)
        self.switches = []    # stack of (dispatch node, join)
        self.exit = self.new("exit")
        self.entry = self.new("join")
        end = self.stmt(fn.body, self.entry)
        if end is not None:
            r = self.new("return", None, line=fn.line)
            end.succ.append(r)
            r.succ.append(self.exit)
        for g, name in self.gotos:
            g.succ.append(self.labels[name])

    def new(self, kind, ast=None, key=None, line=0):
        b = B(len(self.nodes), kind, ast, key, line or (ast.line if ast is not None else 0))
        self.nodes.append(b)
        return b

    def seq(self, cur, kind, ast):
        b = self.new(kind, ast)
        if cur is not None:
            cur.succ.append(b)
        return b

    def stmt(self, s, cur):
        """Add statement; returns the open end node, or None if control never falls through.
        With cur None the code is only reachable through labels/cases inside."""
        if s is None:
            return cur
        k = s.k
        if k == "CompoundStmt":
            for c in s.kids:
                cur = self.stmt(c, cur)
            return cur
        if k == "DeclStmt":
            return self.seq(cur, "decl", s)
        if k == "NullStmt":
            return cur
        if k == "ReturnStmt":
            b = self.seq(cur, "return", s)
            b.succ.append(self.exit)
            return None
        if k == "IfStmt":
            kids = s.kids
            t, f = self.cond(kids[0], cur, None)
            te = self.stmt(kids[1], t)
            fe = self.stmt(kids[2], f) if len(kids) > 2 and kids[2] is not None else f
            return self.merge([te, fe])
        if k == "ForStmt":
            init, _cv, cond, inc, body = (s.kids + [None] * 5)[:5]
            if init is not None:
                cur = self.stmt(init, cur)
            return self.loop(s, cond, inc, body, cur)
        if k == "WhileStmt":
            return self.loop(s, s.kids[0], None, s.kids[-1], cur)
        if k == "DoStmt":
            body, cond = s.kids[0], s.kids[1]
            head = self.new("join")
            if cur is not None:
                cur.succ.append(head)
            brk, cont = self.new("join"), self.new("join")
            self.loops.append((brk, cont))
            e = self.stmt(body, head)
            self.loops.pop()
            if e is not None:
                e.succ.append(cont)
            t, f = self.cond(cond, cont, None)
            t.succ.append(head)
            f.succ.append(brk)
            return brk
        if k == "BreakStmt":
            if cur is not None:
                cur.succ.append(self.loops[-1][0])
            return None
        if k == "ContinueStmt":
            if cur is not None:
                for br, co in reversed(self.loops):
                    if co is not None:
                        cur.succ.append(co)
                        break
            return None
        if k == "GotoStmt":
            b = self.seq(cur, "join", s)
            b.line = s.line
            self.gotos.append((b, self.goto_name(s)))
            return None
        if k == "LabelStmt":
            b = self.new("join", None, line=s.line)
            if cur is not None:
                cur.succ.append(b)
            self.labels[s.ref] = b
            return self.stmt(s.kids[0] if s.kids else None, b)
        if k == "SwitchStmt":
            d = self.seq(cur, "switch", s.kids[0])
            brk = self.new("join")
            self.loops.append((brk, None))
            self.switches.append([d, False])
            e = self.stmt(s.kids[-1], None)
            sw = self.switches.pop()
            self.loops.pop()
            if e is not None:
                e.succ.append(brk)
            if not sw[1]:
                d.succ.append(brk)
            return brk
        if k in ("CaseStmt", "DefaultStmt"):
            b = self.new("case", s.kids[0] if k == "CaseStmt" else None, line=s.line)
            self.switches[-1][0].succ.append(b)
            if k == "DefaultStmt":
                self.switches[-1][1] = True
            if cur is not None:
                cur.succ.append(b)
            return self.stmt(s.kids[-1], b)
        if k.startswith("OMP") and k.endswith("Directive"):
            body = omp_body(s)
            return self.stmt(body, cur)
        if k in ("CapturedStmt", "AttributedStmt"):
            return self.stmt(s.kids[0] if k == "CapturedStmt" else s.kids[-1], cur)
        if k == "CapturedDecl":
            return self.stmt(s.kids[0], cur)
        return self.seq(cur, "expr", s)

    def goto_name(self, s):
        return s.val

    def merge(self, ends):
        ends = [e for e in ends if e is not None]
        if not ends:
            return None
        j = self.new("join")
        for e in ends:
            e.succ.append(j)
        return j

    def cond(self, c, cur, key):
        """Short-circuit lowering; returns (true end, false end) nodes."""
        cc = c
        while cc is not None and cc.k in ("ParenExpr",) or (cc is not None and cc.k == "ImplicitCastExpr" and len(cc.kids) == 1 and cc.op in ("IntegralToBoolean", "NoOp")):
            cc = cc.kids[0]
        if cc.k == "BinaryOperator" and cc.op in ("&&", "||"):
            t1, f1 = self.cond(cc.kids[0], cur, key)
            if cc.op == "&&":
                t2, f2 = self.cond(cc.kids[1], t1, key)
                return t2, self.merge([f1, f2])
            t2, f2 = self.cond(cc.kids[1], f1, key)
            return self.merge([t1, t2]), f2
        if cc.k == "UnaryOperator" and cc.op == "!":
            t, f = self.cond(cc.kids[0], cur, key)
            return f, t
        b = self.new("branch", c, key=key)
        if cur is not None:
            cur.succ.append(b)
        t, f = self.new("join"), self.new("join")
        b.succ = [t, f]
        return t, f

    def loop(self, s, cond, inc, body, cur):
        brk, cont = self.new("join"), self.new("join")
        head = self.new("join")
        if cond is not None:
            t, f = self.cond(cond, cur, "first")
            t.succ.append(head)
            f.succ.append(brk)
        elif cur is not None:
            cur.succ.append(head)
        self.loops.append((brk, cont))
        e = self.stmt(body, head)
        self.loops.pop()
        if e is not None:
            e.succ.append(cont)
        c2 = cont
        if inc is not None:
            c2 = self.seq(cont, "expr", inc)
        if cond is not None:
            t, f = self.cond(cond, c2, "again")
            t.succ.append(head)
            f.succ.append(brk)
        else:
            c2.succ.append(head)
        return brk


def omp_body(s):
    """The statement an OpenMP directive applies to."""
    for c in reversed(s.kids):
        if c is None:
            continue
        if c.k == "CapturedStmt":
            d = c
            while d is not None and d.k in ("CapturedStmt", "CapturedDecl"):
                d = d.kids[0]
            return d
        if c.k.endswith("Stmt"):
            return c
    return None
