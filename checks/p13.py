"""P13: round trip through phono3py.yaml (dataflow relation between data and places of the file, for the writer and for the loader, composed in small models of what is present).

One dataflow pass over the functions that build the lines of the file tells, for each line, its place in the file, the datum put there and the tests under which it is; one over the loader tells which place each datum is read from and under which tests. The two relations are composed for every combination of dataset formats of the anharmonic and harmonic supercells, with and without forces, cutoff and duplicates: each datum of the dataset, cells, matrices, calculator and non-analytical-term parameters that is present must be written, in full precision and with an index base the loader undoes, and must be read back into the same datum and no other. Data are handed over unchanged between the file object and the calculation object on saving and loading."""
import itertools
import re
import pyx
import roundtrip as R
from common import Broken

FIELDS = ("unitcell", "primitive", "supercell", "supercell_matrix", "primitive_matrix", "phonon_supercell", "phonon_supercell_matrix",
          "nac_params", "dataset", "phonon_dataset", "calculator")
PAIR = ("number", "displacement", "pair_distance")
MIN_DIGITS = {"displacement": 10, "displacements": 10, "forces": 10, "born": 10, "dielectric": 10, "primitive_matrix": 10}


def strip(path):
    path = tuple(path)
    while path and path[-1] == "*":
        path = path[:-1]
    return path


class Model:
    """What is present in the data."""
    def __init__(self, name, present, settings):
        self.name, self.settings = name, settings
        self.leaves = set(present)
        self.present = {p[:i] for p in present for i in range(len(p) + 1)} | {p + ("*",) * k for p in present for k in range(4)}


def pairs(pre, forces, cutoff, energies):
    a = (pre, "first_atoms", "*")
    out = [a + ("number",), a + ("displacement",)] + [a + ("second_atoms", "*", k) for k in PAIR]
    if forces:
        out += [a + ("forces",), a + ("second_atoms", "*", "forces")]
        if energies:
            out += [a + ("supercell_energy",), a + ("second_atoms", "*", "supercell_energy")]
    if cutoff:
        out += [a + ("second_atoms", "*", "included"), (pre, "cutoff_distance"), (pre, "duplicates")]
    return out


def singles(pre, forces):
    a = (pre, "first_atoms", "*")
    return [a + ("number",), a + ("displacement",)] + ([a + ("forces",), a + ("supercell_energy",)] if forces else [])


def type2(pre, forces):
    return [(pre, "displacements")] + ([(pre, "forces"), (pre, "supercell_energies")] if forces else [])


def models():
    base = [("unitcell",), ("primitive",), ("supercell",), ("supercell_matrix",), ("primitive_matrix",), ("calculator",),
            ("nac_params", "born"), ("nac_params", "dielectric"), ("nac_params", "factor")]
    fc3 = {"pairs with forces": pairs("dataset", True, False, True), "pairs with forces and a cutoff": pairs("dataset", True, True, True),
           "pairs with forces without energies": pairs("dataset", True, False, False),
           "pairs without forces": pairs("dataset", False, False, False), "pairs without forces with a cutoff": pairs("dataset", False, True, False),
           "snapshots with forces": type2("dataset", True), "snapshots without forces": type2("dataset", False)}
    fc2 = {"no harmonic supercell": None, "harmonic supercell without displacements": [], "harmonic displacements with forces": singles("phonon_dataset", True),
           "harmonic displacements without forces": singles("phonon_dataset", False), "harmonic snapshots with forces": type2("phonon_dataset", True),
           "harmonic snapshots without forces": type2("phonon_dataset", False)}
    for (n3, d3), (n2, d2) in itertools.product(fc3.items(), fc2.items()):
        ph = [] if d2 is None else d2 + [("phonon_supercell_matrix",), ("phonon_supercell",), ("phonon_primitive",)]
        for fs in (True, False):
            yield Model("%s, %s%s" % (n3, n2, "" if fs else ", forces not asked for"), base + d3 + ph,
                        {"force_sets": fs, "displacements": True, "born_effective_charge": True, "dielectric_constant": True, "force_constants": False})


class Truth:
    """Tests evaluated in a model; None where they are not decided."""
    def __init__(self, model, interp, places=None):
        self.m, self.I, self.places = model, interp, places

    def atom(self, a):
        k = a[0]
        if k == "any":
            vals = [self.all(s) for s in a[1]]
            return True if True in vals else None if None in vals else False
        if k == "val":
            v = self.I.tests.get(a[1])
            if v is None:
                return None
            hold = [(w, self.all(c)) for w, c in R.alts(v)]
            last = max([i for i, (w, t) in enumerate(hold) if t is True], default=-1)
            live = [w for i, (w, t) in enumerate(hold) if i == last or t is None and i > last]
            rs = {self.value(w, a[2]) for w in live} if live else {a[2] == "none"}
            return rs.pop() if len(rs) == 1 else None
        if k == "free":
            return None
        n = R.Node(a[1], a[2])
        if k == "in":
            if a[1] == "s":
                return a[3] in self.m.settings if not a[2] else None
            return self.there(n.sub(a[3]))
        if k == "none":
            return None if any(x.startswith(".") for x in a[2]) else not self.there(n)
        if k == "truth":
            if a[1] == "s":
                return self.m.settings.get(a[2][-1]) if a[2] else None
            return None if any(x.startswith(".") for x in a[2]) else self.there(n)
        if k == "is":
            ts = set(a[3])
            if a[1] == "d":
                if a[2] and a[2][-1] == "duplicates":
                    return "list" in ts or "ndarray" in ts or "tuple" in ts
                return None
            kids = {p[len(a[2])] for p in self.places if len(p) > len(a[2]) and p[:len(a[2])] == a[2]}
            if not kids:
                return None
            if ts <= {"dict", "list", "tuple", "str", "float", "int"}:
                return "list" in ts if "*" in kids else "dict" in ts
        return None

    def value(self, w, kind):
        """Is a value None, or true?"""
        if isinstance(w, R.K):
            return bool(w.v) if kind == "truth" else (w.v is None) == (kind == "none")
        if isinstance(w, R.Node):
            r = self.there(w)
        elif isinstance(w, R.Any):
            if not w.nodes:
                return None
            r = all(self.there(n) for n in w.nodes)
        else:
            r = True
        return (not r) if kind == "none" else r

    def there(self, n):
        if n.side == "d":
            return n.path in self.m.present
        if n.side == "y":
            return n.path in self.places
        return True

    def all(self, conds):
        r = True
        for a, b in conds:
            v = self.atom(a)
            if v is None:
                r = None if r is True else r
            elif v != b:
                return False
        return r


LINE = re.compile(r"^(\s*)((?:- )*)(?:([A-Za-z_][\w]*):(?=\s|$))?(.*)$", re.S)


def head(parts):
    """Literal text up to the first value inserted, and the values."""
    text, holes, rest = "", [], []
    for q in parts:
        if isinstance(q, str):
            rest.append(q)
            if not holes:
                text += q
        else:
            holes.append(q)
            rest.append("\x00")
    return "".join(rest), holes


class Written:
    def __init__(self, place, node, spec, conds):
        self.place, self.node, self.spec, self.conds = place, node, spec, conds


class Writer:
    """The lines in order."""
    def __init__(self, lines):
        self.lines = []
        for v, c in lines:
            if isinstance(v, R.K) and isinstance(v.v, str):
                v = R.Str([v.v])
            if isinstance(v, R.Str):
                self.lines.append((v, c))
            else:
                self.lines.append((R.Str([(v, "")]), c))

    def places(self, truth):
        """→ (all places, data written)"""
        stack, places, data = [], {()}, []

        def push(col, kind, path):
            stack.append((col, kind, path))
            for i in range(len(path) + 1):
                places.add(path[:i])
        for v, c in self.lines:
            t = truth.all(c)
            if t is False:
                continue
            text, holes = head(v.parts)
            if not text.strip(" \n"):
                if text.startswith("\x00") or "\x00" in text:
                    pass
                else:
                    continue
            m = LINE.match(text)
            col, dashes, key, rest = len(m.group(1)), m.group(2), m.group(3), m.group(4)
            if text.strip() == "-" or (not dashes and text[col:col + 1] == "-"):
                dashes, rest = "- ", text[col + 1:]
            if not dashes and key is None:        # content copied from elsewhere
                while stack and stack[-1][0] >= max(col, 1) and text.startswith(" "):
                    stack.pop()
                base = stack[-1][2] if stack else ()
                for h, spec in holes:
                    for n in R.nodes(h):
                        data.append(Written(base, n, spec, c))
                continue
            for _ in range(dashes.count("-")):
                while stack and (stack[-1][0] > col or stack[-1][1] == "item" and stack[-1][0] >= col):
                    stack.pop()
                push(col, "item", (stack[-1][2] if stack else ()) + ("*",))
                col += 2
            if key is not None:
                while stack and stack[-1][0] >= col:
                    stack.pop()
                push(col, "key", (stack[-1][2] if stack else ()) + (key,))
            base = stack[-1][2] if stack else ()
            body = rest.split("#")[0] if "#" in rest else rest
            shown = body.count("\x00")
            skip = text[:len(text) - len(rest)].count("\x00")
            for h, spec in holes[skip:skip + shown]:
                for n in R.nodes(h):
                    data.append(Written(base, n, spec, c))
        return places, data


class Read:
    def __init__(self, data, node, value):
        self.data, self.node, self.value = data, node, value


def read_back(v, truth, path, out):
    """Data read in a model: the last alternative whose tests hold."""
    if isinstance(v, R.Obj):
        for k, es in v.fields.items():
            pick(es, truth, path + (k,), out)
    elif isinstance(v, R.Lst):
        for w, c in v.entries:
            if truth.all(c) is not False:
                read_back(w, truth, path + ("*",), out)
    elif isinstance(v, R.Alt):
        pick(v.entries, truth, path, out)
    elif isinstance(v, R.Node):
        out.append(Read(path, v, v))
    elif isinstance(v, (R.Any, R.Str, R.Tup)):
        ns = [n for n in R.nodes(v) if n.side == "y"]
        for n in ns:
            out.append(Read(path, n, v))


def pick(es, truth, path, out):
    hold = [(w, truth.all(c)) for w, c in es]
    last = None
    for i, (w, t) in enumerate(hold):
        if t is True:
            last = i
    for i, (w, t) in enumerate(hold):
        if i == last or t is None and (last is None or i > last):
            read_back(w, truth, path, out)


def undoes(w, r):
    """The change made on writing and on reading cancel."""
    total = 0.0
    flips = 0
    for t in tuple(w) + tuple(r):
        m = re.match(r"^([+-])([\d.]+)$", t)
        if m:
            total += float(m.group(1) + m.group(2))
        elif t == "not":
            flips += 1
        else:
            return None
    return total == 0 and flips % 2 == 0


def digits(spec):
    m = re.match(r"^%[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z])?$", spec or "")
    if not m:
        return None
    kind = m.group(2)
    if kind in ("d", "i"):
        return 0
    if kind in ("f", "F", "e", "E", "g", "G"):
        return int(m.group(1)) if m.group(1) else 6
    return None


class P13:
    def __init__(self, R_):
        self.R = R_
        self.p = pyx.project()
        self.seen = set()

    def one(self, name):
        cs = [c for c in self.p.classes.values() if c.name == name]
        if len(cs) != 1:
            raise Broken("class %s not found" % name)
        return cs[0]

    def report(self, rule, where, construct, msg, line=None):
        if (rule, construct) in self.seen:
            return
        self.seen.add((rule, construct))
        self.R.report(rule, where, construct, msg, line)

    def run(self):
        self.tables()
        self.compose()
        self.defaults()
        self.saving()
        self.loading()

    # ---- the two relations
    def tables(self):
        p = self.p
        D, L, Y = self.one("Phono3pyYamlDumper"), self.one("Phono3pyYamlLoader"), self.one("Phono3pyYamlData")
        self.D, self.L, self.Y = D, L, Y
        follow = lambda q: q.startswith(D.module.name + ".") or q.startswith("phonopy.interface.phonopy_yaml.")
        W = R.Interp(p, D, {}, follow)
        data = R.Obj(Y)

        def free(name):
            v = W.class_value(Y, name)
            return v if isinstance(v, R.K) and isinstance(v.v, str) else R.Node("d", (name,))
        data.free = free
        W.selfobj.fields["_data"] = [(data, R.NO)]
        W.selfobj.fields["_dumper_settings"] = [(R.Node("s", ()), R.NO)]
        g = W.method(D, "get_yaml_lines")
        if g is None:
            raise Broken("the function that builds the lines of phono3py.yaml is not found")
        v = W.run(g, {"self": W.selfobj}, W.selfobj)
        lines = [(x, c | d) for l, c in R.alts(v) if isinstance(l, R.Lst) for x, d in l.entries]
        self.W, self.writer = W, Writer(lines)
        I = R.Interp(p, L, {}, follow)
        got = R.Obj(Y)
        I.selfobj.fields["_data"] = [(got, R.NO)]
        I.selfobj.fields["_yaml"] = [(R.Node("y", ()), R.NO)]
        g = I.method(L, "parse")
        if g is None:
            raise Broken("the function that reads phono3py.yaml is not found")
        I.run(g, {"self": I.selfobj}, I.selfobj)
        self.I, self.got = I, got
        self.R.count("lines of the writer", len(self.writer.lines))
        self.R.count("fields the loader fills", len(got.fields))
        self.R.require("lines of the writer", 60)
        self.R.require("fields the loader fills", 8)

    def compose(self):
        where_w = "%s %s" % (self.D.module.rel, self.D.name)
        where_l = "%s %s" % (self.L.module.rel, self.L.name)
        for m in models():
            self.R.count("models of what is present")
            tw = Truth(m, self.W)
            places, data = self.writer.places(tw)
            tl = Truth(m, self.I, places)
            back = []
            for k, es in self.got.fields.items():
                pick(es, tl, (k,), back)
            written = {}
            for w in data:
                if w.node.side == "d":
                    written.setdefault(strip(w.node.path), []).append(w)
            reads = {}
            for r in back:
                reads.setdefault(strip(r.data), []).append(r)
            byplace = {}
            for r in back:
                byplace.setdefault(strip(r.node.path), []).append(r)
            for leaf in sorted(m.leaves):
                if leaf[0] == "phonon_primitive":
                    continue
                if leaf[-1] in ("forces", "supercell_energy", "supercell_energies") and not m.settings["force_sets"]:
                    continue
                self.R.count("data followed through the file")
                name = ".".join(x for x in leaf if x != "*")
                ws = [w for w in written.get(leaf, []) if strip(w.place)]
                cells = leaf[0] in ("unitcell", "primitive", "supercell", "phonon_supercell")
                if cells:
                    ws = [w for w in ws if w.place and len(w.place) == 1]
                    # the cell itself, not parts of it
                    ws = [w for w in ws if w.node.path == (leaf[0],) or w.node.path == (leaf[0], "*")]
                if not ws:
                    self.report("not-written", where_w, name, "with %s, %s is not written to phono3py.yaml" % (m.name, name))
                    continue
                rs = reads.get(leaf, [])
                good = [(w, r) for w in ws for r in rs if strip(w.place) == strip(r.node.path)]
                if not good:
                    there = {"/".join(x for x in strip(w.place) if x != "*") for w in ws}
                    if rs:
                        wrong = {"/".join(x for x in strip(r.node.path) if x != "*") for r in rs}
                        self.report("read-elsewhere", where_l, name, "with %s, %s is written at %s and read from %s" % (m.name, name, ", ".join(sorted(there)), ", ".join(sorted(wrong))))
                    else:
                        self.report("not-read", where_l, name, "with %s, %s is written at %s and not read back into it" % (m.name, name, ", ".join(sorted(there))))
                    continue
                for w, r in good:
                    if not cells and undoes(w.node.tr, r.node.tr) is False:
                        self.report("changed", where_l, name, "%s is changed by %s on writing and by %s on reading" % (name, " ".join(w.node.tr) or "nothing", " ".join(r.node.tr) or "nothing"))
                    d = digits(w.spec)
                    need = MIN_DIGITS.get(leaf[-1], 6)
                    if d is not None and d < need and leaf[-1] not in ("number", "duplicates", "supercell_matrix", "phonon_supercell_matrix", "included"):
                        self.report("rounded", where_w, name, "%s is written with %d decimals" % (name, d))
                for r in rs:
                    if not any(strip(w.place) == strip(r.node.path) for w in ws) and strip(r.node.path) in {strip(w.place) for w in data}:
                        src = sorted({".".join(x for x in strip(w.node.path) if x != "*") for w in data if strip(w.place) == strip(r.node.path)})
                        self.report("other-read", where_l, name, "with %s, %s may be read from %s, where %s is written" % (m.name, name, "/".join(x for x in strip(r.node.path) if x != "*"), ", ".join(src)))
            # nothing is read into data that were not there
            for leaf, rs in reads.items():
                if leaf[:1] and leaf[0] in FIELDS and leaf not in m.present and not (leaf[0] in ("unitcell",)):
                    for r in rs:
                        src = [w for w in data if strip(w.place) == strip(r.node.path)]
                        if src and any(strip(w.node.path) != leaf for w in src):
                            self.report("read-into-other", where_l, ".".join(x for x in leaf if x != "*"),
                                        "with %s, what is written for %s is read into %s" % (m.name, ".".join(x for x in strip(src[0].node.path) if x != "*"), ".".join(x for x in leaf if x != "*")))
        self.R.require("data followed through the file", 500)

    def defaults(self):
        """Everything is written unless the caller says otherwise."""
        import ast
        for c in self.p.mro(self.D):
            for st in c.node.body:
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict):
                    for k, v in zip(st.value.keys, st.value.values):
                        if isinstance(k, ast.Constant) and k.value in ("force_sets", "born_effective_charge", "dielectric_constant") and isinstance(v, ast.Constant):
                            self.R.count("defaults of what is written")
                            if not v.value:
                                self.report("not-by-default", "%s %s" % (c.module.rel, c.name), k.value, "%s is not written unless asked for" % k.value, st.lineno)
                    return

    # ---- between the objects
    def saving(self):
        p = self.p
        P = self.one("Phono3pyYaml")
        I = R.Interp(p, P, {}, lambda q: False)
        got = R.Obj(None)
        I.selfobj.fields["_data"] = [(got, R.NO)]
        g = I.method(P, "set_phonon_info")
        if g is None:
            raise Broken("set_phonon_info is not found")
        prm = [x.arg for x in g.node.args.args][1]
        I.run(g, {"self": I.selfobj, prm: R.Node("a", ())}, I.selfobj)
        where = "%s %s" % (P.module.rel, g.short)
        for f in FIELDS:
            self.R.count("fields taken over on saving")
            es = got.fields.get(f, [])
            es = es[max([i for i, (v, c) in enumerate(es) if not c], default=0):]
            ns = {n.path for v, c in es for n in R.nodes(v)}
            if not es:
                self.report("not-taken-over", where, f, "%s of the calculation is not put into the file object" % f, g.node.lineno)
            elif ("." + f,) not in ns:
                self.report("other-taken-over", where, f, "%s of the file object is set from %s" % (f, ", ".join(sorted(".".join(x).lstrip(".") for x in ns)) or "nothing of the calculation"), g.node.lineno)

    def loading(self):
        p = self.p
        load = [f for f in p.own_funcs() if f.name == "load" and f.cls is None and f.outer is None and f.module.name.startswith("phono3py.cui")]
        if len(load) != 1:
            raise Broken("the function load is not found")
        f = load[0]
        made = []
        mods = {f.module.name}
        C3, CY = self.one("Phono3py"), self.one("Phono3pyYaml")

        class Load(R.Interp):
            def plain(s, name, args, kw, n, env):
                q = None
                for e in p.events(env["__f__"]):
                    if e.kind == "call" and e.node is n:
                        q = next((g.cls.qual for g, ctor in p.targets(e.t[1], env["__f__"])[0] if ctor and g.cls is not None), None)
                if q == CY.qual:
                    return R.Node("f", ())
                if q == C3.qual:
                    init = s.method(C3, "__init__")
                    names = [x.arg for x in init.node.args.args][1:]
                    b = dict(zip(names, args))
                    b.update(kw)
                    o = R.Obj(None)
                    made.append((o, b))
                    return o
                return super().plain(name, args, kw, n, env)
        follow = lambda q: q.startswith("phono3py.cui.load.") or q.startswith("phono3py.cui.create_force_constants.")
        I = Load(p, None, {}, follow)
        a = f.node.args
        args = {x.arg: R.Any() for x in a.args + a.kwonlyargs}
        I.run(f, args)
        if not made:
            raise Broken("load does not make a Phono3py object")
        where = "%s %s" % (f.file, f.short)
        o, b = made[0]
        for fld in ("unitcell", "supercell_matrix", "primitive_matrix", "phonon_supercell_matrix"):
            self.R.count("fields handed on by load")
            ns = {n.path[0][1:] for n in R.nodes(b.get(fld, R.Any())) if n.side == "f" and n.path}
            if fld not in ns:
                self.report("not-handed-on", where, fld, "%s of the file is not handed on to the calculation" % fld, f.node.lineno)
            elif ns & set(FIELDS) - {fld}:
                self.report("other-handed-on", where, fld, "%s of the calculation may be %s of the file" % (fld, ", ".join(sorted(ns & set(FIELDS) - {fld}))), f.node.lineno)
        for fld in ("dataset", "phonon_dataset", "nac_params"):
            self.R.count("fields handed on by load")
            t = Every(Model("everything", [], {}), I)
            ns = {n.path[0][1:] for v, c in o.fields.get(fld, []) if t.all(c) is not False for n in R.nodes(v) if n.side == "f" and n.path}
            if fld not in ns:
                self.report("not-handed-on", where, fld, "%s of the file is not handed on to the calculation" % fld, f.node.lineno)
            elif ns & {"dataset", "phonon_dataset", "nac_params"} - {fld} and fld != "dataset":
                self.report("other-handed-on", where, fld, "%s of the calculation may be %s of the file" % (fld, ", ".join(sorted(ns - {fld}))), f.node.lineno)
        # which dataset is taken for which force constants
        for g in p.own_funcs():
            ps = [x.arg for x in g.node.args.args] if hasattr(g.node, "args") else []
            if not ("fc_type" in ps and "ph3py_yaml" in ps) or len(ps) > 3:
                continue
            self.R.count("functions choosing a dataset of the file")
            for fc_type, want in (("fc3", "dataset"), ("phonon_fc2", "phonon_dataset")):
                J = R.Interp(p, None, {}, follow)
                v = J.run(g, {"ph3py_yaml": R.Node("d", ()), "fc_type": R.K(fc_type)})
                m = Model("both datasets", [(".dataset",), (".phonon_dataset",), (".phonon_supercell",), (".supercell",)], {})
                t = Every(m, J)
                out = []
                for w, c in R.alts(v):
                    if t.all(c) is not False:
                        out += [n.path[0][1:] for n in R.nodes(w) if n.path]
                if out and want not in out or set(out) & {"dataset", "phonon_dataset"} - {want}:
                    self.report("other-dataset", "%s %s" % (g.file, g.short), fc_type, "%s of the file is taken for %s" % (", ".join(sorted(set(out))), fc_type), g.node.lineno)


class Every(Truth):
    """Everything named is present."""
    def atom(self, a):
        if a[0] in ("none",):
            return False
        if a[0] in ("truth", "in"):
            return True
        return super().atom(a)


def run(R_):
    P13(R_).run()
    R_.explanation = "relations between data and places of phono3py.yaml extracted from the writer and the loader and composed in small models"
    R_.assumptions = ["cells are written and parsed by phonopy's own pair of functions", "values of loops over elements are treated alike", "the harmonic primitive cell is left out"]
