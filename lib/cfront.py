"""C front end: clang's typed AST (JSON) lowered to compact nodes.

Every .c file of /repo/c is parsed on every run, in each build configuration,
with -fopenmp so that the parallel loops are in the tree.
"""
import json, os, re, subprocess, sys, glob
from concurrent.futures import ProcessPoolExecutor
from common import REPO, Broken

CONFIGS = {
    "default": ["-DNO_INCLUDE_LAPACKE", "-DTHM_EPSILON=1e-10"],
    "lapacke": ["-DTHM_EPSILON=1e-10"],
    "mtblas": ["-DTHM_EPSILON=1e-10", "-DMULTITHREADED_BLAS"],
}


class N:
    """AST node."""
    __slots__ = ("k", "t", "kids", "line", "name", "op", "ref", "refk", "val", "ex", "id")

    def __init__(self, k):
        self.k = k; self.t = ""; self.kids = []; self.line = 0
        self.name = None; self.op = None; self.ref = None; self.refk = None
        self.val = None; self.ex = None; self.id = None

    def __repr__(self):
        return "N(%s,%s,%s,l%s)" % (self.k, self.name, self.op, self.line)

    def walk(self):
        yield self
        for c in self.kids:
            if c is not None:
                yield from c.walk()


class Func:
    __slots__ = ("name", "params", "body", "ret", "static", "file", "line", "config", "id", "variadic")


class TU:
    __slots__ = ("file", "funcs", "protos", "globals", "records", "config", "pragmas")


def _ty(d):
    t = d.get("type")
    if not t:
        return ""
    return t.get("desugaredQualType") or t.get("qualType") or ""


class Lower:
    def __init__(self, path, src_lines):
        self.file = path
        self.cur_file = None
        self.line = 0
        self.src = src_lines

    def loc(self, d):
        if not d:
            return
        if "expansionLoc" in d:
            if "spellingLoc" in d:
                self._pos(d["spellingLoc"])
            return self._pos(d["expansionLoc"])
        return self._pos(d)

    def _pos(self, d):
        if "file" in d:
            self.cur_file = d["file"]
        if "line" in d:
            self.line = d["line"]
        if "includedFrom" in d and False:
            pass
        return self.line

    def node(self, d):
        """Lower one dict, keeping clang's delta-encoded locations in order."""
        if not d or ("kind" not in d and "inner" not in d):
            return None
        line = None
        if "loc" in d:
            line = self.loc(d["loc"])
        r = d.get("range")
        if r:
            l2 = self.loc(r.get("begin"))
            self.loc(r.get("end"))
            line = line or l2
        n = N(d.get("kind", "OMPClause"))
        n.line = line or self.line
        n.t = _ty(d)
        n.id = d.get("id")
        n.name = d.get("name")
        k = n.k
        if k == "DeclRefExpr":
            rd = d.get("referencedDecl", {})
            n.ref = rd.get("id"); n.refk = rd.get("kind"); n.name = rd.get("name")
        elif k in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator"):
            n.op = d.get("opcode")
            if k == "UnaryOperator":
                n.ex = d.get("isPostfix")
            if k == "CompoundAssignOperator":
                n.ex = (d.get("computeLHSType") or {}).get("desugaredQualType") or (d.get("computeLHSType") or {}).get("qualType")
        elif k in ("IntegerLiteral", "FloatingLiteral", "CharacterLiteral", "StringLiteral"):
            n.val = d.get("value")
        elif k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr",
                   "CXXFunctionalCastExpr"):
            n.op = d.get("castKind")
        elif k == "MemberExpr":
            n.ex = d.get("isArrow")
            n.ref = d.get("referencedMemberDecl")
        elif k == "UnaryExprOrTypeTraitExpr":
            n.op = d.get("name")
            a = d.get("argType")
            n.ex = (a.get("desugaredQualType") or a.get("qualType")) if a else None
        elif k == "VarDecl":
            n.ex = d.get("storageClass")
        elif k == "FunctionDecl":
            n.ex = d.get("storageClass")
        elif k == "IfStmt":
            n.ex = d.get("hasElse", False)
        elif k == "GotoStmt":
            n.val = d.get("targetLabelDeclId")
        elif k == "LabelStmt":
            n.ref = d.get("declId")
        elif k in ("RecordDecl", "FieldDecl", "TypedefDecl"):
            n.ex = d.get("tagUsed")
        elif k == "CXXConstructExpr":
            n.ex = d.get("ctorType", {}).get("qualType")
        for c in d.get("inner", ()):
            n.kids.append(self.node(c))
        # Array filler etc. are irrelevant here.
        return n


def _lower_file(job):
    path, flags, cxx = job
    if cxx:
        cmd = ["clang++", "-std=c++17", "-fsyntax-only"] + flags + ["-Xclang", "-ast-dump=json",
               "-Xclang", "-ast-dump-filter=" + cxx, path]
    else:
        cmd = ["clang", "-fsyntax-only", "-w", "-fopenmp", "-idirafter", os.path.join(os.path.dirname(os.path.abspath(__file__)), "include")] + flags + ["-Xclang", "-ast-dump=json", path]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path))
    if p.returncode != 0:
        return ("error", path, p.stderr[-2000:])
    src = open(path, errors="replace").read().split("\n")
    tu = TU()
    tu.file = os.path.relpath(path, REPO)
    tu.funcs, tu.protos, tu.globals, tu.records = {}, {}, {}, {}
    tu.pragmas = _pragmas(src)
    dec = json.JSONDecoder()
    txt = p.stdout
    pos = 0
    tops = []
    while True:
        while pos < len(txt) and txt[pos] in " \n\r\t":
            pos += 1
        if pos >= len(txt):
            break
        if txt[pos] != "{":
            pos = txt.find("\n", pos)
            if pos < 0:
                break
            continue
        obj, pos = dec.raw_decode(txt, pos)
        tops.append(obj)
    for obj in tops:
        lo = Lower(path, src)
        lo.cur_file = path
        inner = obj.get("inner", []) if obj.get("kind") == "TranslationUnitDecl" else [obj]
        for d in inner:
            _top(d, lo, tu, path, cxx)
    return ("ok", tu)


def _top(d, lo, tu, path, cxx):
    k = d.get("kind")
    # keep location state in order even for skipped declarations
    if k not in ("FunctionDecl", "VarDecl", "RecordDecl", "TypedefDecl"):
        _skip(d, lo)
        return
    n = lo.node(d)
    f = lo.cur_file or path
    infile = os.path.abspath(os.path.join(os.path.dirname(path), f)) if not os.path.isabs(f) else f
    own = os.path.dirname(os.path.abspath(infile)) == os.path.dirname(path)
    if k == "FunctionDecl":
        body = None
        params = []
        for c in n.kids:
            if c is None:
                continue
            if c.k == "ParmVarDecl":
                params.append((c.name, c.t, c.id))
            elif c.k == "CompoundStmt":
                body = c
        fn = Func()
        fn.name, fn.params, fn.body = n.name, params, body
        fn.ret = n.t.split("(")[0].strip()
        fn.static = n.ex == "static"
        fn.file, fn.line, fn.id = os.path.relpath(infile, REPO), n.line, n.id
        if body is not None:
            if own:
                tu.funcs[n.name] = fn
        elif own:
            tu.protos.setdefault(n.name, fn)
    elif k == "VarDecl" and own:
        tu.globals[n.name] = n
    elif k == "RecordDecl" and own:
        tu.records[n.id] = n


def _skip(d, lo):
    if not d:
        return
    if "loc" in d:
        lo.loc(d["loc"])
    r = d.get("range")
    if r:
        lo.loc(r.get("begin")); lo.loc(r.get("end"))
    for c in d.get("inner", ()):
        _skip(c, lo)


def _pragmas(src):
    """line number of '#pragma omp' -> full text with continuations joined."""
    out = {}
    i = 0
    while i < len(src):
        if re.match(r"\s*#\s*pragma\s+omp", src[i]):
            txt, j = src[i], i
            while txt.rstrip().endswith("\\") and j + 1 < len(src):
                j += 1
                txt = txt.rstrip()[:-1] + " " + src[j]
            out[i + 1] = re.sub(r"/\*.*?\*/|//.*", " ", txt)
            i = j
        i += 1
    return out


def parse_clauses(txt):
    """'#pragma omp parallel for private(a,b) ...' -> (directive words, {clause:[args]})."""
    t = re.sub(r"^\s*#\s*pragma\s+omp\s+", "", txt)
    words, clauses = [], {}
    i = 0
    while i < len(t):
        m = re.match(r"\s*,?\s*([A-Za-z_]+)\s*", t[i:])
        if not m:
            i += 1
            continue
        w = m.group(1)
        i += m.end()
        if i < len(t) and t[i] == "(":
            depth, j = 1, i + 1
            while j < len(t) and depth:
                depth += {"(": 1, ")": -1}.get(t[j], 0)
                j += 1
            arg = t[i + 1:j - 1]
            i = j
            clauses.setdefault(w, []).append(arg.strip())
        elif w in ("parallel", "for", "simd", "critical", "atomic", "single", "sections", "task", "master",
                   "barrier", "ordered", "teams", "distribute", "target", "loop"):
            words.append(w)
        else:
            clauses.setdefault(w, []).append("")
    return words, clauses


def clause_names(clauses, name):
    out = []
    for a in clauses.get(name, []):
        a = a.split(":", 1)[-1]
        out += [x.strip() for x in a.split(",") if x.strip()]
    return out


_cache = {}


def load(config="default", files=None):
    """All translation units of c/*.c in one configuration."""
    key = (config, tuple(files or ()))
    if key in _cache:
        return _cache[key]
    cdir = os.path.join(REPO, "c")
    fs = sorted(glob.glob(os.path.join(cdir, "*.c")))
    if files:
        fs = [f for f in fs if os.path.basename(f) in files]
    if not fs:
        raise Broken("no C sources under %s" % cdir)
    jobs = [(f, CONFIGS[config], False) for f in fs]
    tus = []
    ck = _dev_cache("k" + repr(key))
    if ck and os.path.exists(ck):
        import pickle
        _cache[key] = Program(pickle.load(open(ck, "rb")), config)
        return _cache[key]
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(_lower_file, jobs):
            if r[0] != "ok":
                raise Broken("clang failed on %s: %s" % (r[1], r[2]))
            tus.append(r[1])
    if ck:
        import pickle
        pickle.dump(tus, open(ck, "wb"))
    _cache[key] = Program(tus, config)
    return _cache[key]


def _dev_cache(tag):
    """Parse cache for development runs only (VERIF_CACHE set); checks parse afresh."""
    d = os.environ.get("VERIF_CACHE")
    if not d:
        return None
    import hashlib
    h = hashlib.sha256(open(os.path.abspath(__file__), "rb").read() + tag.encode())
    for f in sorted(glob.glob(os.path.join(REPO, "c", "*.*"))):
        h.update(open(f, "rb").read())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, h.hexdigest()[:24])


NB_INC = None


def load_wrappers(lapacke=False):
    if ("wrap", lapacke) in _cache:
        return _cache["wrap", lapacke]
    inc = []
    for pat in ("/opt/venv/lib/python3*/site-packages/nanobind/include", "/opt/venv*/lib/python3*/site-packages/nanobind/include"):
        inc += glob.glob(pat)
    pyinc = sorted(glob.glob("/usr/include/python3.1[0-9]"))
    if not inc or not pyinc:
        raise Broken("nanobind or Python headers not found")
    ck = _dev_cache("w%d" % lapacke)
    if ck and os.path.exists(ck):
        import pickle
        _cache["wrap", lapacke] = pickle.load(open(ck, "rb"))
        return _cache["wrap", lapacke]
    flags = ([] if lapacke else ["-DNO_INCLUDE_LAPACKE"]) + ["-I" + inc[0], "-I" + pyinc[-1]]
    out = {}
    cdir = os.path.join(REPO, "c")
    jobs = []
    for f in ("_phono3py.cpp", "_phononcalc.cpp", "_recgrid.cpp"):
        path = os.path.join(cdir, f)
        # one filtered dump per family of functions defined in the file
        names = re.findall(r"^(?:static\s+)?[A-Za-z_][\w:<>\s]*[\s*&]+(\w+)\s*\([^;{}]*\)\s*\{", open(path).read(), re.M)
        pre = {"py_"} | {n for n in names if not n.startswith("py_") and n not in ("NB_MODULE", "if", "for", "while", "switch")}
        jobs += [(path, flags, q) for q in sorted(pre)]
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(_lower_file, jobs):
            if r[0] != "ok":
                raise Broken("clang++ failed on %s: %s" % (r[1], r[2]))
            key = os.path.basename(r[1].file)[:-4]
            if key in out:
                for n, f in r[1].funcs.items():
                    out[key].funcs.setdefault(n, f)
            else:
                out[key] = r[1]
    if ck:
        import pickle
        pickle.dump(out, open(ck, "wb"))
    _cache["wrap", lapacke] = out
    return out


class Program:
    def __init__(self, tus, config):
        self.tus, self.config = tus, config
        self.funcs = {}
        self.static = {}
        self.globals = {}
        for tu in tus:
            for n, f in tu.funcs.items():
                if f.static:
                    self.static[(tu.file, n)] = f
                else:
                    self.funcs[n] = f
            for g, v in tu.globals.items():
                self.globals[(tu.file, g)] = v
        self.pragmas = {tu.file: tu.pragmas for tu in tus}

    def all_funcs(self):
        return list(self.funcs.values()) + list(self.static.values())

    def resolve(self, name, file):
        return self.static.get((file, name)) or self.funcs.get(name)


# ---------------------------------------------------------------- helpers
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "ConstantExpr", "CXXReinterpretCastExpr",
         "CXXStaticCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
         "CXXBindTemporaryExpr")


def strip(n):
    while n is not None and n.k in CASTS and n.kids:
        n = n.kids[-1]
    return n


def callee(n):
    """Name of the function called by a CallExpr, or None."""
    c = strip(n.kids[0])
    if c is not None and c.k == "DeclRefExpr" and c.refk == "FunctionDecl":
        return c.name
    return None


def args(n):
    return n.kids[1:]


def src(n):
    """Readable reconstruction of an expression (for messages and structural keys)."""
    if n is None:
        return ""
    k = n.k
    if k in CASTS:
        return src(n.kids[-1]) if n.kids else ""
    if k == "DeclRefExpr":
        return n.name or "?"
    if k in ("IntegerLiteral", "FloatingLiteral", "CharacterLiteral", "StringLiteral"):
        return str(n.val)
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s %s %s)" % (src(n.kids[0]), n.op, src(n.kids[1]))
    if k == "UnaryOperator":
        return (src(n.kids[0]) + n.op) if n.ex else (n.op + src(n.kids[0]))
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (src(n.kids[0]), src(n.kids[1]))
    if k == "MemberExpr":
        return "%s%s%s" % (src(n.kids[0]), "->" if n.ex else ".", n.name)
    if k == "CallExpr":
        return "%s(%s)" % (src(n.kids[0]), ", ".join(src(a) for a in n.kids[1:]))
    if k == "UnaryExprOrTypeTraitExpr":
        return "sizeof(%s)" % (n.ex or (src(n.kids[0]) if n.kids else ""))
    if k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(src(x) for x in n.kids[:3])
    return "%s(%s)" % (k, ", ".join(src(x) for x in n.kids))
