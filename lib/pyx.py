"""Python engine: whole-package index, symbolic terms, events, types and call resolution.

Every function is interpreted abstractly once: local names are replaced by the terms they hold
(so renaming or inlining of locals changes nothing), and each call, store, return and raise is
recorded as an event with the path conditions and loops that enclose it.

Terms are nested tuples:
 ("c",v) ("param",name) ("self",) ("attr",t,name) ("call",f,args,kwargs) ("sub",t,i) ("op",o,..)
 ("ite",c,a,b) ("phi",(..)) ("list"/"tuple"/"set",..) ("dict",((k,v)..)) ("fstr",..) ("comp",kind,elt,iters)
 ("elem",it,uid) ("idx",it,uid) ("rng",args,uid) ("item",k,t) ("key",t,uid) ("val",t,uid) ("slice",a,b,c)
 ("func",qual) ("class",qual) ("mod",name) ("ext",dotted) ("builtin",n) ("undef",) ("lambda",id) ("?",)
"""
import ast, os, builtins
import common
import unroll

SITE = "/opt/venv/lib/python3.12/site-packages"
DEPTH = 14
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__"}


class Func:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name
        self.qual = (outer.qual + ".<locals>." if outer else (cls.qual if cls else module.name) + ".") + node.name
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.params = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        nd = len(a.defaults)
        self.defaults = dict(zip(self.params[len(self.params) - nd:], a.defaults)) if nd else {}
        for k, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[k] = d
        self.decos = [ast.unparse(d) for d in node.decorator_list]
        self.is_property = any(d in ("property", "cached_property", "functools.cached_property") for d in self.decos)
        self.is_setter = any(d.endswith(".setter") for d in self.decos)
        self.is_static = "staticmethod" in self.decos
        self.is_classm = "classmethod" in self.decos
        self.abstract = any("abstractmethod" in d for d in self.decos)
        self.is_method = cls is not None and not self.is_static and outer is None
        self.nested = {}
        self._ev = None

    @property
    def file(self):
        return self.module.rel

    @property
    def short(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def formals(self):
        """Parameters as seen by a caller."""
        return self.params[1:] if self.is_method else list(self.params)

    def __repr__(self):
        return "<%s>" % self.qual


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = module.name + "." + node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.base_exprs = node.bases
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, ispkg):
        self.name, self.path, self.rel, self.ispkg = name, path, rel, ispkg
        self.src = open(path).read()
        self.tree = unroll.expand(ast.parse(self.src))
        self.sym = {}     # name -> ("func",q)|("class",q)|("mod",n)|("ext",d)|("var",node)
        self.vars = {}    # module-level variables: name -> [value nodes]
        self.funcs, self.classes = {}, {}


class Event:
    __slots__ = ("kind", "node", "t", "conds", "loops", "fn", "extra", "order", "trys")

    def __init__(self, kind, node, t, conds, loops, fn, order, extra=None, trys=()):
        self.kind, self.node, self.t, self.conds, self.loops = kind, node, t, conds, loops
        self.fn, self.order, self.extra, self.trys = fn, order, extra, trys

    @property
    def line(self):
        return getattr(self.node, "lineno", None)

    def __repr__(self):
        return "<%s %s:%s>" % (self.kind, self.fn.short, self.line)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or common.REPO
        self.modules = {}
        self.funcs, self.classes = {}, {}
        for base, _, files in sorted(os.walk(os.path.join(self.repo, "phono3py"))):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(base, f)
                    self._add(self._modname(p, self.repo), p, os.path.relpath(p, self.repo))
        self.own_modules = list(self.modules)
        self._ext_cache = {}
        for m in list(self.modules.values()):
            self._index(m)
        self._subs = None
        self._callers = None

    @staticmethod
    def _modname(p, root):
        n = os.path.relpath(p, root)[:-3].replace("/", ".")
        return n[:-9] if n.endswith(".__init__") else n

    def _add(self, name, path, rel):
        m = Module(name, path, rel, path.endswith("__init__.py"))
        self.modules[name] = m
        return m

    def module(self, name):
        """Module by dotted name; phonopy modules are loaded on demand."""
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] != "phonopy" or name in self._ext_cache:
            return None
        p = os.path.join(SITE, name.replace(".", "/"))
        for q in (p + ".py", p + "/__init__.py"):
            if os.path.exists(q):
                m = self._add(name, q, "phonopy:" + name)
                self._index(m)
                return m
        self._ext_cache[name] = None
        return None

    def own(self):
        return [self.modules[n] for n in self.own_modules]

    def own_funcs(self):
        return [f for f in self.funcs.values() if f.module.name in self._ownset]

    @property
    def _ownset(self):
        s = getattr(self, "_os", None)
        if s is None:
            s = self._os = set(self.own_modules)
        return s

    # ---- indexing -----------------------------------------------------
    def _index(self, m):
        def fun(node, cls=None, outer=None):
            f = Func(m, node, cls, outer)
            self.funcs.setdefault(f.qual + ("@setter" if f.is_setter else ""), f)
            for x in ast.walk(node):
                if x is not node and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and _owner(node, x):
                    f.nested[x.name] = fun(x, None, f)
                    f.nested[x.name].selfcls = cls
            return f

        def _owner(top, x):
            # direct nesting only (not inside a further def/class)
            stack = [top]
            while stack:
                n = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if c is x:
                        return True
                    if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                        stack.append(c)
            return False

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = fun(s)
                    m.funcs[s.name] = f
                    m.sym[s.name] = ("func", f.qual)
                elif isinstance(s, ast.ClassDef):
                    c = Class(m, s)
                    self.classes[c.qual] = c
                    m.classes[s.name] = c
                    m.sym[s.name] = ("class", c.qual)
                    for b in s.body:
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = fun(b, c)
                            if f.is_setter:
                                c.setters[b.name] = f
                            else:
                                c.methods[b.name] = f
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            c.attrs.setdefault(b.target.id, []).append((b.annotation, b.value))
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs.setdefault(t.id, []).append((None, b.value))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        tgt = a.name if a.asname else a.name.split(".")[0]
                        m.sym[a.asname or a.name.split(".")[0]] = ("modref", tgt)
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        pk = m.name.split(".")
                        pk = pk[:len(pk) - s.level + (1 if m.ispkg else 0)]
                        base = ".".join(pk + ([s.module] if s.module else []))
                    for a in s.names:
                        m.sym[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    body(getattr(s, "body", []))
                    for h in getattr(s, "handlers", []):
                        body(h.body)
                    body(getattr(s, "orelse", []))
                    body(getattr(s, "finalbody", []))
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.vars.setdefault(n.id, []).append(s.value)
                                m.sym.setdefault(n.id, ("var", m.name, n.id))
        body(m.tree.body)

    def lookup(self, m, name, depth=0):
        """Resolve a module-level name to a term."""
        s = m.sym.get(name)
        if s is None:
            return ("builtin", name) if name in BUILTINS else None
        if s[0] in ("func", "class"):
            return s
        if s[0] == "modref":
            return ("mod", s[1]) if self.module(s[1]) else ("ext", s[1])
        if s[0] == "from":
            return self.from_import(s[1], s[2], depth)
        if s[0] == "var":
            vals = m.vars.get(name, [])
            if len(vals) == 1 and isinstance(vals[0], ast.Constant):
                return ("c", vals[0].value)
            return ("gvar", m.name, name)
        return ("?",)

    def from_import(self, base, name, depth=0):
        bm = self.module(base)
        if bm is None:
            return ("ext", base + "." + name)
        if depth < 8:
            r = self.lookup(bm, name, depth + 1) if name in bm.sym else None
            if r is not None:
                return r
        if self.module(base + "." + name):
            return ("mod", base + "." + name)
        return ("ext", base + "." + name)

    # ---- classes --------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.base_exprs:
            if isinstance(b, ast.Name):
                t = self.lookup(c.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                t = self.lookup(c.module, b.value.id)
                t = self.from_import(t[1], b.attr) if t and t[0] == "mod" else ("ext", "?")
            else:
                t = ("ext", "?")
            out.append(t)
        return out

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            seqs = [list(self.mro(self.classes[t[1]])) for t in self.bases(c) if t and t[0] == "class"]
            c._open = any(not t or (t[0] != "class" and t not in (("ext", "abc.ABC"), ("builtin", "object"), ("ext", "typing.Protocol")))
                          for t in self.bases(c)) or any(getattr(x, "_open", False) for s in seqs for x in s)
            # C3 is approximated by order-preserving concatenation with later duplicates kept
            flat = [x for s in seqs for x in s]
            seen = set()
            res = []
            for x in reversed(flat):
                if x.qual not in seen:
                    seen.add(x.qual)
                    res.append(x)
            c._mro = [c] + res[::-1]
        return c._mro

    def is_open(self, c):
        self.mro(c)
        return c._open

    def subclasses(self, c):
        if self._subs is None or self._subn != len(self.classes):
            self._subs, self._subn = {}, len(self.classes)
            for k in list(self.classes.values()):
                for b in self.mro(k):
                    self._subs.setdefault(b.qual, []).append(k)
        return self._subs.get(c.qual, [c])

    def member(self, c, name):
        """(kind, object, owner) of a member: 'method', 'property', 'attr' or None."""
        for k in self.mro(c):
            if name in k.methods:
                f = k.methods[name]
                return ("property" if f.is_property else "method", f, k)
            if name in k.attrs:
                return ("attr", k.attrs[name], k)
        return None

    def setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def class_funcs(self, c):
        out = []
        for k in self.mro(c):
            out += list(k.methods.values()) + list(k.setters.values())
        for f in list(out):
            out += list(f.nested.values())
        return out

    def family(self, c):
        """c with everything that shares an instance with it: bases, subclasses and their bases."""
        s = {}
        for k in self.subclasses(c):
            for b in self.mro(k):
                s[b.qual] = b
        return list(s.values())

    def attr_stores(self, c):
        """attribute name -> store events self.<name> = term in c's MRO."""
        cache = self.__dict__.setdefault("_as", {})
        if c.qual not in cache:
            d = {}
            for f in self.class_funcs(c):
                for e in self.events(f):
                    if e.kind == "store_attr" and e.t[0] == ("self",):
                        d.setdefault(e.t[1], []).append(e)
            cache[c.qual] = d
        return cache[c.qual]

    # ---- abstract interpretation ------------------------------------------
    def events(self, f):
        if f._ev is None:
            f._ev = []
            it = Interp(self, f)
            it.run()
            f._ev = it.events
            f.end_env = it.end
        return f._ev

    def returns(self, f):
        return [e for e in self.events(f) if e.kind == "return"]

    # ---- types -----------------------------------------------------------
    def ann_types(self, m, node, depth=0):
        """Set of type terms named by an annotation; ("?",) for what is not resolved."""
        if node is None:
            return {("?",)}
        if isinstance(node, ast.Constant):
            if node.value is None:
                return {("none",)}
            if isinstance(node.value, str):
                try:
                    return self.ann_types(m, ast.parse(node.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return {("?",)}
            return {("?",)}
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann_types(m, node.left) | self.ann_types(m, node.right)
        if isinstance(node, ast.Subscript):
            h = ast.unparse(node.value).split(".")[-1]
            if h == "Optional":
                return self.ann_types(m, node.slice) | {("none",)}
            if h == "Union":
                s = set()
                for x in (node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]):
                    s |= self.ann_types(m, x)
                return s
            if h in ("list", "List", "Sequence", "Iterable", "tuple", "Tuple") and not isinstance(node.slice, ast.Tuple):
                return {("seq", frozenset(self.ann_types(m, node.slice)))}
            return self.ann_types(m, node.value)
        if isinstance(node, ast.Name):
            t = self.lookup(m, node.id)
        elif isinstance(node, ast.Attribute):
            s = ast.unparse(node).split(".")
            t = self.lookup(m, s[0])
            for a in s[1:]:
                if t and t[0] == "mod":
                    t = self.from_import(t[1], a)
                elif t and t[0] == "ext":
                    t = ("ext", t[1] + "." + a)
                else:
                    t = ("?",)
        else:
            return {("?",)}
        if t is None:
            return {("?",)}
        if t[0] == "class":
            return {("inst", t[1])}
        if t[0] == "builtin":
            return {("prim", t[1])}
        if t[0] == "ext":
            return {("extinst", t[1])}
        if t[0] == "gvar" and depth < 6:
            gm = self.module(t[1])
            vals = gm.vars.get(t[2], []) if gm else []
            if len(vals) == 1 and isinstance(vals[0], (ast.Subscript, ast.BinOp, ast.Name, ast.Attribute)):
                return self.ann_types(gm, vals[0], depth + 1)
        return {("?",)}

    def typeof(self, t, f, depth=0, seen=()):
        """Set of types of a term of function f. Contains ("?",) when incomplete."""
        key = (t, f.qual)
        cache = self.__dict__.setdefault("_tc", {})
        if key in cache:
            return cache[key]
        if depth > 12 or key in seen:
            return {("?",)}
        r = self._typeof(t, f, depth, seen + (key,))
        if depth == 0 or ("?",) not in r:
            cache[key] = r
        return r

    def narrow(self, t, f, conds):
        """Types of t under isinstance tests among the conditions."""
        ts = self.typeof(t, f)
        for c, b in conds:
            if c[0] == "call" and c[1] == ("builtin", "isinstance") and len(c[2]) == 2 and c[2][0] == t:
                ks = c[2][1][1] if c[2][1][0] == "tuple" else (c[2][1],)
                kt = [self.typeof(k, f) for k in ks]
                if not all(len(x) == 1 and list(x)[0][0] == "class" for x in kt):
                    continue
                kc = [self.classes[list(x)[0][1]] for x in kt]
                is_ = lambda x: x[0] == "inst" and any(k in self.mro(self.classes[x[1]]) for k in kc)
                if b:
                    n = {x for x in ts if is_(x)}
                    ts = n or {("inst", k.qual) for k in kc}
                else:
                    ts = {x for x in ts if not is_(x)} or {("?",)}
        return ts

    def _typeof(self, t, f, depth, seen):
        T = lambda x, g=f: self.typeof(x, g, depth + 1, seen)
        k = t[0]
        if k == "self":
            c = f.cls or getattr(f, "selfcls", None)
            return {("inst", c.qual)} if c else {("?",)}
        if k == "c":
            return {("none",)} if t[1] is None else {("prim", type(t[1]).__name__)}
        if k in ("func", "class", "mod", "ext", "builtin"):
            return {t}
        if k in ("phi",):
            s = set()
            for x in t[1]:
                if x != ("undef",):
                    s |= T(x)
            return s
        if k == "ite":
            return T(t[2]) | T(t[3])
        if k == "param":
            g = f
            while t[1] not in g.params + g.kwonly + [g.vararg, g.kwarg] and g.outer:
                g = g.outer
            a = g.ann.get(t[1])
            if a is not None:
                return self.ann_types(g.module, a)
            return {("?",)}
        if k in ("list", "tuple", "set", "dict", "fstr", "comp"):
            return {("prim", "str" if k == "fstr" else k if k != "comp" else "list")}
        if k == "attr":
            out = set()
            for bt in T(t[1]):
                out |= self.attr_type(bt, t[2], f, depth, seen)
            return out or {("?",)}
        if k == "call":
            out = set()
            if t[1] == ("builtin", "super"):
                c = f.cls or getattr(f, "selfcls", None)
                return {("super", c.qual)} if c and not t[2] else {("?",)}
            for ct in T(t[1]):
                if ct[0] == "class":
                    out.add(("inst", ct[1]))
                elif ct[0] in ("func", "bound"):
                    out |= self.ret_type(self.funcs[ct[1]], depth, seen)
                elif ct[0] == "ext":
                    out.add(("extinst", ct[1] + "()"))
                else:
                    out.add(("?",))
            return out or {("?",)}
        if k == "item" or k == "sub" and t[2][0] == "c" and isinstance(t[2][1], int) and not isinstance(t[2][1], bool):
            i, x = (t[1], t[2]) if k == "item" else (t[2][1], t[1])
            return self.item_type(i, x, f, depth, seen)
        if k == "elem":
            out = set()
            for bt in T(t[1]):
                out |= set(bt[1]) if bt[0] == "seq" else {("?",)}
            return out or {("?",)}
        if k == "op" and t[1] in ("==", "!=", "<", ">", "<=", ">=", "in", "not in", "is", "is not", "not"):
            return {("prim", "bool")}
        return {("?",)}

    def item_type(self, i, x, f, depth, seen):
        """Type of element i of a tuple-valued term."""
        out = set()
        for a in alts(x):
            if a[0] in ("tuple", "list"):
                if -len(a[1]) <= i < len(a[1]) and not any(y[0] == "star" for y in a[1]):
                    out |= self.typeof(a[1][i], f, depth + 1, seen)
                    continue
            elif a[0] == "call":
                done = False
                for ct in self.typeof(a[1], f, depth + 1, seen):
                    if ct[0] not in ("func", "bound"):
                        out.add(("?",))
                        done = True
                        continue
                    g = self.funcs[ct[1]]
                    n = g.node.returns
                    if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1].lower() == "tuple" and \
                            isinstance(n.slice, ast.Tuple) and i < len(n.slice.elts):
                        r = self.ann_types(g.module, n.slice.elts[i])
                        if ("?",) not in r:
                            out |= r
                            done = True
                            continue
                    if depth > 8:
                        return {("?",)}
                    for e in self.returns(g):
                        done = True
                        out |= self.item_type(i, e.t, g, depth + 1, seen) if e.t[0] in ("tuple", "list", "call") else {("?",)}
                if done:
                    continue
            out.add(("?",))
        return out or {("?",)}

    def attr_type(self, bt, name, f, depth=0, seen=()):
        if bt[0] == "mod":
            t = self.from_import(bt[1], name)
            return {t} if t else {("?",)}
        if bt[0] == "ext":
            return {("ext", bt[1] + "." + name)}
        if bt[0] == "super":                    # next class in the method resolution order of any receiver
            c0, out = self.classes[bt[1]], set()
            for k in [c0] + list(self.subclasses(c0)):
                m = self.mro(k)
                for b in m[m.index(c0) + 1:]:
                    if name in b.methods:
                        g = b.methods[name]
                        out |= self.ret_type(g, depth, seen) if g.is_property else {("bound", self._fq(g))}
                        break
                else:
                    out.add(("?",))
            return out
        if bt[0] == "class":
            m = self.member(self.classes[bt[1]], name)
            if m and m[0] == "method":
                return {("func", self._fq(m[1]))}
            return {("?",)}
        if bt[0] != "inst":
            return {("?",)}
        c = self.classes[bt[1]]
        m = self.member(c, name)
        if m and m[0] == "method":
            return {("bound", self._fq(m[1]))}
        if m and m[0] == "property":
            g = m[1]
            if g.cls is not None and g.cls is not c and depth <= 8:    # inherited: evaluate with the receiver's class
                rs = [e.t for e in self.returns(g)]
                if rs and all(t[0] == "attr" and t[1] == ("self",) for t in rs):
                    out = set()
                    for t in rs:
                        out |= self.attr_type(bt, t[2], f, depth + 1, seen)
                    return out
            return self.ret_type(g, depth, seen)
        out = set()
        if m and m[0] == "attr":
            for ann, val in m[1]:
                if ann is not None:
                    out |= self.ann_types(m[2].module, ann)
                elif isinstance(val, ast.Constant) and val.value is None:
                    out.add(("none",))
                else:
                    out.add(("?",))
        cache = self.__dict__.setdefault("_sta", {})
        if depth > 10:
            return {("?",)}
        for e in self.attr_stores(c).get(name, []):
            if e.extra is not None:    # annotated store
                out |= self.ann_types(e.fn.module, e.extra)
            else:
                out |= self.typeof(e.t[2], e.fn, depth + 1, seen)
        return out or {("?",)}

    def _fq(self, f):
        return f.qual

    def ret_type(self, g, depth=0, seen=()):
        if g.node.returns is not None:
            r = self.ann_types(g.module, g.node.returns)
            if ("?",) not in r:
                return r
        if depth > 8:
            return {("?",)}
        if g.module.name not in self._ownset:
            # phonopy: inferred from its source too
            pass
        out = set()
        for e in self.returns(g):
            out |= self.typeof(e.t, g, depth + 1, seen)
        return out or {("none",)}

    # ---- calls ------------------------------------------------------------
    def targets(self, callee, f):
        """([(Func, is_constructor)], complete)"""
        out, complete = [], True
        for ct in self.typeof(callee, f):
            if ct[0] in ("func", "bound"):
                out.append((self.funcs[ct[1]], False))
                if ct[0] == "bound" and callee[0] == "attr" and not (callee[1][0] == "call" and callee[1][1] == ("builtin", "super")):
                    for bt in self.typeof(callee[1], f):     # overriding methods of subclasses
                        if bt[0] == "inst":
                            for k in self.subclasses(self.classes[bt[1]]):
                                h = k.methods.get(callee[2])
                                if h is not None and not h.is_property and (h, False) not in out:
                                    out.append((h, False))
            elif ct[0] == "class":
                m = self.member(self.classes[ct[1]], "__init__")
                if m and m[0] == "method":
                    out.append((m[1], True))
                elif self.is_open(self.classes[ct[1]]):
                    complete = False
            elif ct[0] == "none":
                pass
            else:
                complete = False
        return out, complete

    def is_unbound(self, callee, f, g):
        """Method g called through its class (self passed explicitly)."""
        return callee[0] == "attr" and g.is_method and any(x[0] == "class" for x in self.typeof(callee[1], f)) \
            and not g.is_classm

    def bind(self, g, args, kwargs, unbound=False):
        """Match actuals to formals. -> (dict formal->term, list of error strings, exact)"""
        formals = list(g.params) if unbound or not g.is_method else g.params[1:]
        d, errs, exact = {}, [], True
        i = 0
        for a in args:
            if a[0] == "star":
                exact = False
                break
            if i < len(formals):
                d[formals[i]] = a
            elif g.vararg is None:
                errs.append("too many positional arguments (takes %d)" % len(formals))
                break
            i += 1
        names = [x for x in formals if x not in g.posonly] + g.kwonly
        for k, v in kwargs:
            if k is None:
                exact = False
                continue
            if k in names:
                if k in d:
                    errs.append("argument %r given twice" % k)
                d[k] = v
            elif g.kwarg is None:
                errs.append("unexpected keyword argument %r" % k)
        if exact:
            for k in formals + g.kwonly:
                if k not in d and k not in g.defaults:
                    errs.append("missing argument %r" % k)
        return d, errs, exact

    def call_sites(self):
        """Func -> list of (event, bound dict, exact)."""
        if self._callers is None:
            self._callers = {}
            for f in self.own_funcs():
                for e in self.events(f):
                    if e.kind == "call":
                        tg, _ = self.targets(e.t[1], f)
                        for g, ctor in tg:
                            d, errs, exact = self.bind(g, e.t[2], e.t[3], self.is_unbound(e.t[1], f, g))
                            self._callers.setdefault(g.qual, []).append((e, d, exact))
        return self._callers


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def tdepth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([tdepth(x) for x in t if isinstance(x, tuple)] or [0])


_dep = {}


def clip(t):
    d = _dep.get(t)
    if d is None:
        d = tdepth(t)
        if len(_dep) < 500000:
            _dep[t] = d
    return t if d <= 40 else ("?",)


class Env(dict):
    def copy(self):
        return Env(self)


def join_terms(a, b):
    if a == b:
        return a
    xs = []
    for t in (a, b):
        for x in (t[1] if t[0] == "phi" else (t,)):
            if x not in xs:
                xs.append(x)
    if len(xs) > 6:
        keep = [x for x in xs if x == ("undef",)]
        return ("phi", tuple(keep + [("?",)]))
    return ("phi", tuple(xs)) if len(xs) > 1 else xs[0]


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = Env()
    for k in set(a) | set(b):
        r[k] = join_terms(a.get(k, ("undef",)), b.get(k, ("undef",)))
    return r


class Interp:
    def __init__(self, proj, f):
        self.p, self.f = proj, f
        self.events, self.order, self.rec = [], 0, True
        self.loops, self.trys = (), ()
        self.uid = 0
        self.end = None
        self.localnames = set()
        for n in walk_scope(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.localnames.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                self.localnames.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.localnames.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.localnames.add(n.name)
        for n in walk_scope(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.localnames -= set(n.names)
        for n in f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x]:
            self.localnames.add(n)

    def run(self):
        f = self.f
        env = Env()
        for i, n in enumerate(f.params):
            env[n] = ("self",) if (i == 0 and f.is_method) else ("param", n)
        for n in f.kwonly:
            env[n] = ("param", n)
        for n in (f.vararg, f.kwarg):
            if n:
                env[n] = ("param", n)
        self.outer_env = None
        if f.outer is not None:
            self.p.events(f.outer)
            self.outer_env = getattr(f.outer, "all_env", {})
        self.all_env = {}
        f.all_env = self.all_env
        env, conds = self.block(f.node.body, env, ())
        self.end = env
        if env is not None:
            self.emit("return", f.node.body[-1], ("c", None), conds, extra="implicit")

    def emit(self, kind, node, t, conds, extra=None):
        if self.rec:
            self.order += 1
            self.events.append(Event(kind, node, t, conds, self.loops, self.f, self.order, extra, self.trys))

    # -- statements: return (env or None when dead, conds)
    def block(self, stmts, env, conds):
        for s in stmts:
            if env is None:
                break
            env, conds = self.stmt(s, env, conds)
        return env, conds

    def setname(self, env, n, t):
        env[n] = t
        old = self.all_env.get(n)
        self.all_env[n] = t if old is None else join_terms(old, t)

    def assign(self, tgt, t, env, conds, ann=None):
        if isinstance(tgt, ast.Name):
            self.setname(env, tgt.id, t)
            self.emit("store_name", tgt, (tgt.id, t), conds)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = any(isinstance(x, ast.Starred) for x in tgt.elts)
            for i, x in enumerate(tgt.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("?",), env, conds)
                elif t[0] in ("tuple", "list") and not star and len(t[1]) == len(tgt.elts):
                    self.assign(x, t[1][i], env, conds)
                else:
                    self.assign(x, ("?",) if star else item(i, t), env, conds)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value, env, conds)
            self.emit("store_attr", tgt, (b, tgt.attr, t), conds, extra=ann)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value, env, conds)
            i = self.ev(tgt.slice, env, conds)
            self.emit("store_sub", tgt, (b, i, t), conds)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, ("?",), env, conds)

    def stmt(self, s, env, conds):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, conds)
            if isinstance(s.value, ast.Call) and is_exit(s.value):
                return None, conds
        elif isinstance(s, ast.Assign):
            t = self.ev(s.value, env, conds)
            for tg in s.targets:
                self.assign(tg, t, env, conds)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, conds), env, conds, ann=s.annotation)
            elif isinstance(s.target, ast.Attribute):
                # declaration only: recorded as a typed store of nothing
                b = self.ev(s.target.value, env, conds)
                self.emit("decl_attr", s.target, (b, s.target.attr, ("undef",)), conds, extra=s.annotation)
        elif isinstance(s, ast.AugAssign):
            o = BIN[type(s.op)]
            rhs = self.ev(s.value, env, conds)
            if isinstance(s.target, ast.Name):
                old = self.name(s.target, env, conds)
                self.emit("aug_name", s, (s.target.id, o, old, rhs), conds)
                self.setname(env, s.target.id, clip(("op", o, old, rhs)))
            elif isinstance(s.target, ast.Attribute):
                b = self.ev(s.target.value, env, conds)
                self.emit("aug_attr", s, (b, s.target.attr, o, rhs), conds)
            else:
                b = self.ev(s.target.value, env, conds)
                i = self.ev(s.target.slice, env, conds)
                self.emit("aug_sub", s, (b, i, o, rhs), conds)
        elif isinstance(s, ast.If):
            t = self.ev(s.test, env, conds)
            self.emit("if", s, t, conds)
            e1, c1 = self.block(s.body, env.copy(), conds + ((t, True),))
            e2, c2 = self.block(s.orelse, env.copy(), conds + ((t, False),))
            if e1 is None and e2 is None:
                return None, conds
            if e1 is None:
                return e2, c2
            if e2 is None:
                return e1, c1
            return join_env(e1, e2), conds
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, env, conds)
        elif isinstance(s, ast.While):
            return self.loop(s, env, conds)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                t = self.ev(it.context_expr, env, conds)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, t, env, conds)
            return self.block(s.body, env, conds)
        elif isinstance(s, ast.Try):
            sv = self.trys
            self.trys = sv + (s,)
            pre = env.copy()
            e1, c1 = self.block(s.body, env, conds)
            self.trys = sv
            # an exception may strike anywhere: names bound in the body may or may not be set
            mid = join_env(pre, e1) if e1 is not None else self.may(pre, s.body)
            if e1 is not None and s.orelse:
                e1, c1 = self.block(s.orelse, e1, c1)
            out = e1
            for h in s.handlers:
                eh = mid.copy()
                if h.name:
                    self.setname(eh, h.name, ("exc",))
                self.emit("except", h, ("?",), conds, extra=s)
                eh, _ = self.block(h.body, eh, conds + ((("exc", id(h)), True),))
                out = join_env(out, eh) if eh is not None else out
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, mid.copy(), conds)
                    return None, conds
                return self.block(s.finalbody, out, conds)
            return out, (c1 if not s.handlers else conds)
        elif isinstance(s, ast.Return):
            t = self.ev(s.value, env, conds) if s.value is not None else ("c", None)
            self.emit("return", s, t, conds)
            return None, conds
        elif isinstance(s, ast.Raise):
            t = self.ev(s.exc, env, conds) if s.exc is not None else ("reraise",)
            if s.cause is not None:
                self.ev(s.cause, env, conds)
            self.emit("raise", s, t, conds)
            return None, conds
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.emit("break" if isinstance(s, ast.Break) else "continue", s, ("?",), conds)
            if self.loopstack:
                top = self.loopstack[-1]
                k = "brk" if isinstance(s, ast.Break) else "cont"
                top[k] = join_env(top[k], env)
            return None, conds
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = ("undef",)
                else:
                    self.emit("delete", t, self.ev(t, env, conds), conds)
        elif isinstance(s, ast.Assert):
            t = self.ev(s.test, env, conds)
            self.emit("assert", s, t, conds)
            return env, conds + ((t, True),)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.setname(env, s.name, ("func", self.f.nested[s.name].qual) if s.name in self.f.nested else ("?",))
        elif isinstance(s, ast.ClassDef):
            self.setname(env, s.name, ("?",))
        elif isinstance(s, ast.Import):
            for a in s.names:
                n = a.name if a.asname else a.name.split(".")[0]
                self.setname(env, a.asname or a.name.split(".")[0], ("mod", n) if self.p.module(n) else ("ext", n))
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                self.setname(env, a.asname or a.name, self.p.from_import(s.module or "", a.name))
        return env, conds

    def may(self, pre, body):
        r = pre.copy()
        for n in [x for st in body for x in ast.walk(st)]:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r[n.id] = join_terms(r.get(n.id, ("undef",)), ("?",))
        return r

    loopstack = None

    def loop(self, s, env, conds):
        if self.loopstack is None:
            self.loopstack = []
        isfor = not isinstance(s, ast.While)
        if isfor:
            it = self.ev(s.iter, env, conds)
        rec = self.rec
        sv_loops = self.loops
        pre = env.copy()
        final = None
        for rnd in (0, 1):
            self.rec = rec and rnd == 1
            e = env.copy()
            if rnd == 1 and final is not None:
                e = join_env(pre, final)
                for k in list(e):   # values changing every round are not unrolled twice
                    if k in pre and e[k] != pre[k] and tdepth(e[k]) > 24:
                        e[k] = join_terms(pre[k], ("?",))
            uid = (s.lineno, s.col_offset)
            c = conds
            if isfor:
                self.loops = sv_loops + ((it, s),)
                self.bindloop(s.target, it, e, conds, uid)
            else:
                t = self.ev(s.test, e, conds)
                self.loops = sv_loops + ((t, s),)
                c = conds + ((t, True),)
            self.loopstack.append(dict(brk=None, cont=None))
            eb, _ = self.block(s.body, e, c)
            top = self.loopstack.pop()
            eb = join_env(eb, top["cont"])
            final = eb
        self.rec = rec
        self.loops = sv_loops
        infinite = not isfor and isinstance(s.test, ast.Constant) and s.test.value
        out = None if infinite else join_env(pre, final)
        if s.orelse and out is not None:
            out, _ = self.block(s.orelse, out, conds)
        out = join_env(out, top["brk"])
        return out, conds

    def bindloop(self, tgt, it, env, conds, uid):
        def call_of(t, n):
            return t[0] == "call" and t[1] == ("builtin", n)

        def el(t):
            if call_of(t, "range"):
                return ("rng", t[2], uid)
            if call_of(t, "enumerate") and t[2]:
                return ("tuple", (("idx", t[2][0], uid), el(t[2][0])))
            if call_of(t, "zip"):
                return ("tuple", tuple(el(x) for x in t[2]))
            if call_of(t, "reversed") and t[2]:
                return el(t[2][0])
            if t[0] == "call" and t[1][0] == "attr" and not t[2]:
                if t[1][2] == "items":
                    return ("tuple", (("key", t[1][1], uid), ("val", t[1][1], uid)))
                if t[1][2] == "keys":
                    return ("key", t[1][1], uid)
                if t[1][2] == "values":
                    return ("val", t[1][1], uid)
            return ("elem", t, uid)
        self.assign(tgt, el(it), env, conds)

    # -- expressions
    def name(self, n, env, conds):
        if n.id in env:
            t = env[n.id]
            if t == ("undef",) or (t[0] == "phi" and ("undef",) in t[1]):
                self.emit("maybe_undef", n, (n.id, t), conds)
            return t
        if n.id in self.localnames:
            self.emit("undef", n, (n.id,), conds)
            return ("undef",)
        if self.outer_env is not None:
            if n.id in self.outer_env:
                return self.outer_env[n.id]
            g = self.f.outer
            while g is not None:
                if n.id in g.params + g.kwonly:
                    return ("self",) if g.is_method and n.id == g.params[0] else ("param", n.id)
                g = g.outer
        t = self.p.lookup(self.f.module, n.id)
        if t is None:
            self.emit("undef_global", n, (n.id,), conds)
            return ("?",)
        return t

    def ev(self, n, env, conds):
        return clip(self._ev(n, env, conds))

    def _ev(self, n, env, conds):
        E = lambda x: self.ev(x, env, conds)
        if n is None:
            return ("c", None)
        if isinstance(n, ast.Constant):
            return ("c", n.value) if not isinstance(n.value, (bytes, complex)) else ("c", repr(n.value))
        if isinstance(n, ast.Name):
            return self.name(n, env, conds)
        if isinstance(n, ast.Attribute):
            b = E(n.value)
            if b[0] == "mod":
                return self.p.from_import(b[1], n.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + n.attr)
            t = ("attr", b, n.attr)
            self.emit("load_attr", n, t, conds)
            return t
        if isinstance(n, ast.Call):
            fn = E(n.func)
            args = tuple(("star", E(a.value)) if isinstance(a, ast.Starred) else E(a) for a in n.args)
            kw = tuple((k.arg, E(k.value)) for k in n.keywords)
            t = ("call", fn, args, kw)
            self.emit("call", n, t, conds)
            return t
        if isinstance(n, ast.Subscript):
            b, i = E(n.value), E(n.slice)
            t = sub(b, i)
            self.emit("load_sub", n, t, conds, extra=(b, i))
            return t
        if isinstance(n, ast.Slice):
            return ("slice", E(n.lower), E(n.upper), E(n.step))
        if isinstance(n, ast.BinOp):
            t = ("op", BIN[type(n.op)], E(n.left), E(n.right))
            self.emit("binop", n, t, conds)
            return t
        if isinstance(n, ast.UnaryOp):
            o = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~"}[type(n.op)]
            x = E(n.operand)
            if x[0] == "c" and o == "neg" and isinstance(x[1], (int, float)):
                return ("c", -x[1])
            return ("op", o, x)
        if isinstance(n, ast.Compare):
            l = E(n.left)
            parts = []
            for o, c in zip(n.ops, n.comparators):
                r = E(c)
                parts.append(("op", CMP[type(o)], l, r))
                if isinstance(o, (ast.In, ast.NotIn)):
                    self.emit("compare", n, parts[-1], conds)
                l = r
            return parts[0] if len(parts) == 1 else ("op", "and") + tuple(parts)
        if isinstance(n, ast.BoolOp):
            o = "and" if isinstance(n.op, ast.And) else "or"
            c, xs = conds, []
            for v in n.values:
                x = self.ev(v, env, c)
                xs.append(x)
                c = c + ((x, o == "and"),)
            return ("op", o) + tuple(xs)
        if isinstance(n, ast.IfExp):
            t = E(n.test)
            a = self.ev(n.body, env, conds + ((t, True),))
            b = self.ev(n.orelse, env, conds + ((t, False),))
            return ("ite", t, a, b)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            k = {ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[type(n)]
            return (k, tuple(("star", E(x.value)) if isinstance(x, ast.Starred) else E(x) for x in n.elts))
        if isinstance(n, ast.Dict):
            return ("dict", tuple((("star",) if k is None else E(k), E(v)) for k, v in zip(n.keys, n.values)))
        if isinstance(n, ast.JoinedStr):
            return ("fstr", tuple(E(v) for v in n.values))
        if isinstance(n, ast.FormattedValue):
            return ("fmt", E(n.value), ast.unparse(n.format_spec) if n.format_spec else "")
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = env.copy()
            sv = self.localnames
            self.localnames = set(sv)
            c = conds
            sl = self.loops
            its = []
            for g in n.generators:
                it = self.ev(g.iter, e, c)
                its.append(it)
                self.loops = self.loops + ((it, n),)
                rec, self.rec = self.rec, False
                self.bindloop(g.target, it, e, c, (n.lineno, n.col_offset))
                self.rec = rec
                for i in g.ifs:
                    t = self.ev(i, e, c)
                    c = c + ((t, True),)
            kind = type(n).__name__
            if isinstance(n, ast.DictComp):
                el = ("tuple", (self.ev(n.key, e, c), self.ev(n.value, e, c)))
            else:
                el = self.ev(n.elt, e, c)
            self.loops = sl
            self.localnames = sv
            return ("comp", kind, el, tuple(its))
        if isinstance(n, ast.Lambda):
            e = env.copy()
            for a in n.args.args:
                e[a.arg] = ("?",)
            b = self.ev(n.body, e, conds)
            return ("lambda", b)
        if isinstance(n, ast.NamedExpr):
            t = E(n.value)
            self.setname(env, n.target.id, t)
            return t
        if isinstance(n, ast.Starred):
            return ("star", E(n.value))
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            t = E(n.value) if n.value is not None else ("c", None)
            self.emit("yield", n, t, conds)
            return ("?",)
        return ("?",)


def item(i, t):
    if t[0] == "phi":
        r = None
        for x in t[1]:
            y = item(i, x)
            r = y if r is None else join_terms(r, y)
        return r
    if t[0] in ("tuple", "list") and i < len(t[1]) and not any(x[0] == "star" for x in t[1]):
        return t[1][i]
    if t[0] == "ite":
        return ("ite", t[1], item(i, t[2]), item(i, t[3]))
    return ("item", i, t)


def sub(b, i):
    if i[0] == "c" and isinstance(i[1], int) and i[1] >= 0 and b[0] in ("tuple", "list") and i[1] < len(b[1]) \
            and not any(x[0] == "star" for x in b[1]):
        return b[1][i[1]]
    return ("sub", b, i)


def walk_scope(node):
    """Nodes of a function without those of nested scopes (comprehension targets excluded)."""
    out = [node]
    stack = list(node.body) + list(node.args.defaults) if hasattr(node, "body") else []
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def is_exit(c):
    f = c.func
    return (isinstance(f, ast.Attribute) and f.attr in ("exit", "_exit") and isinstance(f.value, ast.Name) and f.value.id in ("sys", "os")) \
        or (isinstance(f, ast.Name) and f.id in ("exit", "quit"))


def subterms(t):
    """All sub-terms of a term."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def alts(t):
    """Alternatives a term may be (phi / conditional expression unfolded)."""
    if t[0] == "phi":
        for x in t[1]:
            yield from alts(x)
    elif t[0] == "ite":
        yield from alts(t[2])
        yield from alts(t[3])
    else:
        yield t


def show(t, d=0):
    k = t[0]
    if d > 6:
        return "..."
    S = lambda x: show(x, d + 1)
    if k == "c":
        return repr(t[1])
    if k == "self":
        return "self"
    if k == "param":
        return t[1]
    if k == "attr":
        return S(t[1]) + "." + t[2]
    if k == "call":
        return S(t[1]) + "(" + ", ".join([S(a) for a in t[2]] + ["%s=%s" % (n, S(v)) for n, v in t[3]]) + ")"
    if k == "sub":
        return S(t[1]) + "[" + S(t[2]) + "]"
    if k == "op":
        return "(" + (" " + t[1] + " ").join(S(x) for x in t[2:]) + ")" if len(t) > 3 else t[1] + " " + S(t[2])
    if k in ("func", "class", "mod", "ext", "builtin"):
        return t[1].split(".")[-1]
    if k == "gvar":
        return t[2]
    if k == "phi":
        return "{" + " | ".join(S(x) for x in t[1]) + "}"
    if k == "ite":
        return "(%s if %s else %s)" % (S(t[2]), S(t[1]), S(t[3]))
    if k in ("list", "tuple", "set"):
        return "[" + ", ".join(S(x) for x in t[1]) + "]"
    if k == "slice":
        return ":".join("" if x == ("c", None) else S(x) for x in t[1:])
    if k in ("elem", "idx", "key", "val"):
        return "%s(%s)" % (k, S(t[1]))
    if k == "rng":
        return "range(%s)" % ", ".join(S(x) for x in t[1])
    if k == "item":
        return "%s#%d" % (S(t[2]), t[1])
    if k == "star":
        return "*" + (S(t[1]) if len(t) > 1 else "")
    return k


_proj = None


def project():
    global _proj
    if _proj is None:
        _proj = Project()
    return _proj
