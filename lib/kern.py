"""Kernel entry points: what each nanobind wrapper declares and how it reads its array arguments."""
import os, re
import cfront
from common import REPO, Broken

MODS = {"_phono3py": "phono3py._phono3py", "_phononcalc": "phono3py._phononcalc", "_recgrid": "phono3py._recgrid"}


class Kernel:
    def __init__(self, mod, name, fn):
        self.mod, self.name, self.fn = mod, name, fn
        self.formals = [p[0] for p in fn.params]
        self.roles = [p[3:] if p.startswith("py_") else p for p in self.formals]
        self.ctype = [p[1] for p in fn.params]
        self.array = ["ndarray" in t for t in self.ctype]
        self.elem = {}       # formal -> set of element types the buffer is read as
        self.written = set()


def elem_of(t):
    t = t.replace("const", "").strip()
    t = re.sub(r"\(\s*\*?\s*\)", "", t)
    t = re.sub(r"\[\d*\]", "", t).replace("*", "").strip()
    return {"long": "int64", "int64_t": "int64", "double": "double", "char": "char", "int": "int32", "long long": "int64",
            "unsigned char": "char", "bool": "char"}.get(t, "cdouble" if "complex" in t else t)


CONV = {}


def _conv(w):
    """Conversion helpers of a wrapper module: name -> element type of the buffer they read."""
    out = {}
    for n, f in w.funcs.items():
        if len(f.params) == 1 and "ndarray" in f.params[0][1]:
            ts = set()
            for x in f.body.walk():
                if x.k in ("CStyleCastExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr") and _is_data(x, f.params[0][0]):
                    ts.add(elem_of(x.t))
            if ts:
                out[n] = ts
    return out


def _is_data(cast, pname):
    c = cfront.strip(cast)
    return c is not None and c.k == "CXXMemberCallExpr" and any(
        y.k == "MemberExpr" and y.name == "data" for y in c.walk()) and any(
        y.k == "DeclRefExpr" and y.name == pname for y in c.walk())


_k = None


def kernels():
    global _k
    if _k is not None:
        return _k
    out = {}
    ws = cfront.load_wrappers(lapacke=True)
    for key, mod in MODS.items():
        txt = open(os.path.join(REPO, "c", key + ".cpp")).read()
        txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
        txt = re.sub(r"//[^\n]*", "", txt)
        w = ws[key]
        conv = _conv(w)
        for name, fn in re.findall(r'm\s*\.\s*def\s*\(\s*"(\w+)"\s*,\s*&?\s*(\w+)', txt):
            f = w.funcs.get(fn)
            if f is None:
                raise Broken("wrapper %s of kernel %s not found" % (fn, name))
            k = Kernel(mod, name, f)
            for p, isarr in zip(k.formals, k.array):
                if not isarr:
                    continue
                ts = set()
                for x in f.body.walk():
                    if x.k in ("CStyleCastExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr") and "*" in x.t and _is_data(x, p):
                        ts.add(elem_of(x.t))
                    elif x.k == "CallExpr" and cfront.callee(x) in conv and any(
                            y.k == "DeclRefExpr" and y.name == p for a in cfront.args(x) for y in a.walk()):
                        ts |= conv[cfront.callee(x)]
                k.elem[p] = ts
            out[(mod, name)] = k
    if len(out) < 30:
        raise Broken("only %d kernels registered" % len(out))
    _k = out
    return out


def kernel_of(callee):
    """Kernel called by a Python callee term ("ext", "phono3py._phono3py.name")."""
    if callee[0] == "ext":
        m, _, n = callee[1].rpartition(".")
        return kernels().get((m, n))
    return None
