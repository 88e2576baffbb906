"""P22: interfaces of the grid library (gfortran's resolved bind(c) interfaces against clang's declarations and definitions).

gfortran prints the C prototypes its interface blocks stand for; each is compared argument by argument with the C definition: binding name, count, order, kind, passing by value or reference, constness, result. Array shapes are compared reversed. Headers are compared with definitions by name, and every public C entry must hand each parameter to the callee's parameter or structure member of that name and use the implementation of its own name."""
import glob
import os
import re
import subprocess
import tempfile
import cfront
from common import Broken, REPO

K64 = {"long", "int64_t", "long long", "ptrdiff_t", "intptr_t"}


def norm_kind(t):
    t = t.replace("const", "").strip()
    return {"long": "int64", "int64_t": "int64", "long long": "int64", "int": "int32", "int32_t": "int32", "char": "char", "signed char": "char", "double": "double", "float": "float", "short": "int16", "size_t": "uint64", "unsigned long": "uint64"}.get(t, t)


def ctype(t):
    """(kind, inner dims, pointer?, const?) of a C parameter type."""
    dims = tuple(int(x) for x in re.findall(r"\[(\d+)\]", t))
    ptr = "*" in t or "[" in t
    base = t.split("*")[0].split("(")[0].split("[")[0]
    return norm_kind(base), dims, ptr, "const" in base


def fortran(R, path):
    """name -> (result, [(name, kind, ptr, const)], line) from gfortran; plus shapes from the declarations."""
    with tempfile.TemporaryDirectory() as d:
        a = subprocess.run(["gfortran", "-fc-prototypes", "-fsyntax-only", "-J", d, path], capture_output=True, text=True)
        b = subprocess.run(["gfortran", "-fdump-fortran-original", "-fsyntax-only", "-J", d, path], capture_output=True, text=True)
    if a.returncode or b.returncode:
        raise Broken("gfortran failed on %s: %s" % (path, (a.stderr or b.stderr)[-500:]))
    out = {}
    for m in re.finditer(r"^(\w[\w ]*?)\s*(\**)\s*(\w+) \((.*)\);", a.stdout, re.M):
        ps = []
        for x in m.group(4).split(", "):
            mm = re.match(r"(const )?([\w ]+?)\s*(\**)\s*(\w+)$", x.strip())
            if mm:
                ps.append((mm.group(4), norm_kind(mm.group(2)), bool(mm.group(3)), bool(mm.group(1)), mm.group(2)))
        out[m.group(3)] = (norm_kind(m.group(1)), ps)
    access = {}
    for m in re.finditer(r"binding_label: '(\w+)'.*\n.*\n\s*attributes: \(([^\n]*)\)", b.stdout):
        access[m.group(1)] = m.group(2)
    return out, access


def shapes(path):
    """(procedure, dummy) -> tuple of dimension texts, in declared order."""
    src = open(path).read()
    lines = []
    for ln in src.split("\n"):
        ln = re.sub(r"!.*", "", ln).rstrip().lower()
        if lines and lines[-1][0].endswith("&"):
            lines[-1] = (lines[-1][0][:-1] + ln.lstrip().lstrip("&"), lines[-1][1])
        else:
            lines.append((ln, src[:src.find(ln)].count("\n")))
    out, where, cur = {}, {}, None
    no = 0
    for ln, _ in lines:
        s = ln.strip()
        m = re.match(r"(?:[\w()= ]*\s)?(subroutine|function)\s+(\w+)\s*\(", s)
        if m and not s.startswith("end"):
            cur = m.group(2)
            b = re.search(r"name\s*=\s*[\"'](\w+)[\"']", s)
            where[cur] = b.group(1) if b else cur
        elif s.startswith("end ") and cur and cur in s or s in ("end subroutine", "end function"):
            cur = None
        elif cur and "::" in s:
            left, right = s.split("::", 1)
            dm = re.search(r"dimension\s*\(([^)]*)\)", left)
            for nm, dims in re.findall(r"(\w+)\s*(?:\(([^)]*)\))?\s*(?:,|$)", right):
                ds = dims or (dm.group(1) if dm else "")
                if ds:
                    out[(where[cur], nm)] = tuple(x.strip() for x in ds.split(","))
    return out


def run(R):
    R.explanation = ("The prototypes gfortran derives from the bind(c) interface blocks are compared with clang's declarations of the "
                     "grid library, header declarations with definitions, and each public definition with the routine it forwards to.")
    R.assumptions = ["a Fortran subroutine may discard the status a C function returns"]
    cp = cfront.load("default")
    tus = {os.path.basename(t.file): t for t in cp.tus}
    entries = {}
    for t in cp.tus:
        for n, f in t.funcs.items():
            if n.startswith("gridsys_") and not f.static:
                entries[n] = (f, t)
    R.count("public C entries", len(entries))
    R.require("public C entries", 12)
    headers = {}
    for t in cp.tus:
        for n, f in t.protos.items():
            if n.startswith("gridsys_") and f.file.endswith(".h"):
                headers.setdefault(n, f)
    for n, h in headers.items():
        R.count("header declarations")
        if n not in entries:
            R.report("missing-definition", h.file, n, "declared for users but defined nowhere", h.line)
            continue
        f = entries[n][0]
        names(R, "header-order", f, n, [x[0] for x in h.params], "header")
        for i, (a, b) in enumerate(zip(h.params, f.params)):
            if ctype(a[1]) != ctype(b[1]):
                R.report("header-type", h.file, "%s: %s" % (n, b[0]), "argument %d is '%s' in the header and '%s' in the definition" % (i + 1, a[1], b[1]), h.line)
    files = sorted(glob.glob(os.path.join(REPO, "fortran", "*.f90")))
    if not files:
        raise Broken("no Fortran interface file")
    seen = 0
    for path in files:
        rel = os.path.relpath(path, REPO)
        protos, access = fortran(R, path)
        shp = shapes(path)
        private = bool(re.search(r"^\s*private\s*(!.*)?$", open(path).read(), re.M | re.I))
        seen += len(protos)
        for n, (ret, ps) in protos.items():
            if n not in entries:
                R.report("no-such-entry", rel, n, "the interface binds to '%s', which the library does not define" % n)
                continue
            R.count("Fortran interfaces")
            f = entries[n][0]
            if "PRIVATE" in access.get(n, "") or n in access and "PUBLIC" not in access[n] and private:
                R.report("not-public", rel, n, "the interface is private to the module, so no program can call it")
            if len(ps) != len(f.params):
                R.report("argument-count", rel, n, "%d arguments for the C entry's %d" % (len(ps), len(f.params)))
                continue
            names(R, "argument-order", f, n, [x[0] for x in ps], rel)
            cret = norm_kind(f.ret)
            if ret != cret and not (ret == "void" and cret == "int64"):
                R.report("result-kind", rel, n, "the interface gives %s, the C entry returns %s" % (ret, cret))
            for i, (a, b) in enumerate(zip(ps, f.params)):
                R.count("Fortran arguments")
                kind, dims, ptr, const = ctype(b[1])
                con = "%s: %s" % (n, a[0])
                if a[1] != kind:
                    R.report("argument-kind", rel, con, "argument %d is %s in the interface and %s in C" % (i + 1, a[1], kind))
                if a[2] != ptr:
                    R.report("by-value", rel, con, "argument %d is passed by %s, C expects %s" % (i + 1, "reference" if a[2] else "value", "a pointer" if ptr else "a value"))
                elif ptr and a[3] and not const:
                    R.report("constness", rel, con, "argument %d is intent(in), but the C entry writes it" % (i + 1))
                elif ptr and not a[3] and const:
                    R.report("constness", rel, con, "argument %d is writable in the interface and const in C" % (i + 1))
                sh = shp.get((n, a[0]))
                if sh is None or not ptr:
                    continue
                if len(sh) != len(dims) + 1:
                    R.report("array-shape", rel, con, "rank %d in the interface, %d in C" % (len(sh), len(dims) + 1))
                elif tuple(reversed(sh[:-1])) != tuple(str(x) for x in dims):
                    R.report("array-shape", rel, con, "shape (%s) does not match C's trailing dimensions %s" % (", ".join(sh), list(dims)))
    R.require("Fortran interfaces", 10)
    forward(R, cp, entries)


def names(R, rule, f, n, given, where):
    """A name of the definition standing at another position of the declaration."""
    mine = [x[0].lower() for x in f.params]
    for i, g in enumerate(given):
        g = (g or "").lower()
        if g and i < len(mine) and mine[i] != g and g in mine and mine.count(g) == 1:
            R.report(rule, where, "%s: %s" % (n, g), "'%s' is argument %d here and argument %d of the definition in %s" % (g, i + 1, mine.index(g) + 1, f.file))


def suffix(n):
    return n.split("_", 1)[1].lower() if "_" in n else n.lower()


def forward(R, cp, entries):
    every = {}
    for f in cp.all_funcs():
        if not f.name.startswith(("gridsys_", "ph3py_", "phpy_", "recgrid_")):
            every.setdefault(suffix(f.name), []).append(f)
    fields = {}
    for n, (f, t) in entries.items():
        params = [x[0] for x in f.params]
        used, called, results = set(), set(), []
        local = {}                              # plain copies of parameters
        for x in f.body.walk():
            if x.k == "DeclRefExpr" and x.name in params:
                used.add(x.name)
            if x.k == "VarDecl" and x.kids:
                s = cfront.strip(x.kids[-1])
                if s is not None and s.k == "DeclRefExpr" and s.name in params:
                    local[x.name] = s.name
        for q in params:
            R.count("parameters of entries")
            if q not in used:
                R.report("parameter-unused", f.file, "%s: %s" % (n, q), "the argument has no effect", f.line)

        def source(e):
            e = cfront.strip(e)
            while e is not None and e.k in ("ArraySubscriptExpr",):
                e = cfront.strip(e.kids[0])
            if e is not None and e.k == "DeclRefExpr":
                return local.get(e.name, e.name) if local.get(e.name, e.name) in params else None
            return None
        stack = [(f.body, None)]
        while stack:
            x, up = stack.pop()
            for c in x.kids:
                if c is not None:
                    stack.append((c, x))
            if x.k == "CallExpr":
                g = cp.resolve(cfront.callee(x) or "", f.file)
                if g is None:
                    continue
                called.add(g.name)
                R.count("forwarding calls")
                gp = [y[0] for y in g.params]
                for a, y in zip(cfront.args(x), gp):
                    s = source(a)
                    if s is None or s == y:
                        continue
                    if s in gp and y in params:
                        R.report("crossed-forward", f.file, "%s: %s" % (n, s), "'%s' is handed to %s as '%s'" % (s, g.name, y), x.line)
                if g.ret.strip() not in ("void",) and up is not None and up.k == "CompoundStmt" and f.ret.strip() != "void":
                    R.report("result-discarded", f.file, "%s: %s" % (n, g.name), "the result of %s is dropped" % g.name, x.line)
            if x.k == "BinaryOperator" and x.op == "=":
                l = cfront.strip(x.kids[0])
                while l is not None and l.k == "ArraySubscriptExpr":
                    l = cfront.strip(l.kids[0])
                s = source(x.kids[1])
                if l is not None and l.k == "MemberExpr" and s:
                    fields.setdefault(l.name, []).append((s, n, f, x.line, params))
        own = every.get(suffix(n), [])
        same = [g for g in own if [ctype(y[1])[0] for y in g.params][:len(f.params)] == [ctype(y[1])[0] for y in f.params]]
        if same:
            R.count("namesake implementations")
            reach = set(called)
            work = list(called)
            while work:
                g = cp.resolve(work.pop(), f.file)
                if g is None or g.body is None:
                    continue
                for x in g.body.walk():
                    if x.k == "CallExpr":
                        c = cfront.callee(x)
                        if c and c not in reach:
                            reach.add(c)
                            work.append(c)
            if called and not any(g.name in reach for g in same):
                R.report("wrong-routine", f.file, n, "calls %s and never %s" % (", ".join(sorted(called)), same[0].name), f.line)
    for fld, xs in fields.items():
        for s, n, f, line, params in xs:
            R.count("members filled")
            others = [y[0] for y in xs if y[1] != n]
            if s != fld and fld in params:
                R.report("crossed-member", f.file, "%s: %s" % (n, fld), "member '%s' is filled from '%s' although '%s' is given" % (fld, s, fld), line)
            elif len(others) >= 2 and len(set(others)) == 1 and others[0] != s and others[0] in params:
                R.report("crossed-member", f.file, "%s: %s" % (n, fld), "member '%s' is filled from '%s'; the other entries fill it from '%s'" % (fld, s, others[0]), line)
