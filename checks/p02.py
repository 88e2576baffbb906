"""P02: data races between iterations of the OpenMP loops (dependence test on index arithmetic)."""
import cfront, csym, race
from common import Broken
from poly import Poly

CONFIGS = ("default", "lapacke", "mtblas")


def roots(p):
    """Functions not called from inside the library: every kernel is reached from one of them."""
    called = set()
    for f in p.all_funcs():
        for n in f.body.walk():
            if n.k == "CallExpr" and cfront.callee(n):
                g = p.resolve(cfront.callee(n), f.file)
                if g is not None and g is not f:
                    called.add((g.file, g.name))
    return [f for f in p.all_funcs() if (f.file, f.name) not in called]


def omp_loops(f):
    return [n for n in f.body.walk() if n.k.startswith("OMP") and n.k.endswith("Directive")]


def many_to_one(p):
    """Names of tables that the code itself tests for representatives (t[i] == i, t[i] == u[i]): several entries share a value."""
    out = set()

    def entry(n):
        n = cfront.strip(n)
        if n is not None and n.k == "ArraySubscriptExpr":
            b, i = cfront.strip(n.kids[0]), cfront.strip(n.kids[1])
            if b is not None and b.k == "DeclRefExpr":
                return b.name, cfront.src(i)
        return None
    for f in p.all_funcs():
        for n in f.body.walk():
            if n.k == "BinaryOperator" and n.op in ("==", "!="):
                l, r = entry(n.kids[0]), entry(n.kids[1])
                for x, other in ((l, n.kids[1]), (r, n.kids[0])):
                    if x and (cfront.src(cfront.strip(other)) == x[1] or l and r and l[1] == r[1]) and ("map" in x[0]):
                        out.add(x[0])
    return out


def scattered(ex, lp, many):
    """Writes whose address follows the loop counter only through an entry of a many-to-one table."""
    ck = race.Checker(ex, lp, {})
    for a in ex.accs:
        if lp not in a.loops or a.kind != "w" or a.atomic or a.off is None or lp in ex.bases.get(a.base, {}).get("local", []):
            continue
        syms = a.off.syms()
        if syms & ck.ps or any(s[0] == "o" for s in syms):
            continue
        for s in syms:
            if s[0] != "k" or s[1] != "ld":
                continue
            cl = set()
            todo = [s]
            while todo:
                x = todo.pop()
                cl.add(x)
                for q in x:
                    if isinstance(q, Poly):
                        todo += [y for y in q.syms() if y not in cl]
            if not cl & ck.ps:
                continue
            tabs = [ex.bases.get(x[2], {}).get("name") for x in cl if x[0] == "k" and x[1] == "ld"]
            hit = [t for t in tabs if t in many]
            if hit and not any(c[0] == "cmp" and c[1] == "==" and any(t in repr(c) for t in hit) for c in a.conds):
                yield a, hit[0]
                break


def run(R):
    R.explanation = ("Every kernel is executed symbolically once with callees inlined; integers are polynomials over "
                     "parameters and loop counters, pointers are (object, byte offset). For each OpenMP loop all pairs "
                     "of accesses to memory shared by its iterations are tested: disjointness is proved by a stride "
                     "argument where possible; a pair is reported when two different iterations are shown to touch the "
                     "same bytes in a small instance of the index arithmetic, or when the address does not involve the "
                     "parallel counter at all. Scalars written in the loop must be private, reduction or declared "
                     "inside; private variables must be assigned before they are read in the iteration.")
    R.assumptions = ["different pointer parameters of a kernel do not overlap",
                     "index tables read at the loop counter hold distinct entries (pairs resting on this are counted "
                     "as undecided)"]
    for cfg in CONFIGS:
        p = cfront.load(cfg)
        nd = 0
        many = many_to_one(p)
        reached_loops = set()
        for f in p.all_funcs():
            nd += len(omp_loops(f))
        for f in roots(p):
            ex = csym.Exec(p)
            try:
                ex.run_root(f)
            except csym.Abort as e:
                raise Broken("%s: %s" % (f.name, e))
            loops = []
            for a in ex.accs:
                for l in a.loops:
                    if l.omp and l not in loops:
                        loops.append(l)
            for lp in loops:
                reached_loops.add((lp.fn.file, lp.fn.name, lp.line))
                out, pairs = race.check_loop(ex, lp, {})
                R.count("access pairs tested (%s)" % cfg, pairs)
                R.count("access pairs proved disjoint (%s)" % cfg, pairs - len(out))
                for base, nm, w, a, reason, wt in out:
                    what = "%s: '%s' written in %s, accessed in %s" % (lp.fn.name, nm if base[0] != "heap" else
                                                                       "heap block", w.fn.name, a.fn.name)
                    if wt:
                        R.report("race", lp.fn.file, what,
                                 "iterations of the parallel loop can touch the same location (%s; %s)" % (
                                     w.txt[:60], reason), w.line)
                    else:
                        if len(R.undecided) < 4000:
                            R.undecided.append("%s: %s" % (what, reason))
            for lp in loops:
                for a, tab in scattered(ex, lp, many):
                    R.report("race", lp.fn.file, "%s: '%s' scattered" % (lp.fn.name, ex.bases.get(a.base, {}).get("name", "?") if a.base[0] != "heap" else "heap block"),
                             "the location written is chosen by the many-to-one table %s: iterations of the parallel loop can meet there (%s)" % (
                                 tab, a.txt[:60]), a.line)
            for lp, fn, name, line in ex.shared_writes:
                R.report("shared-scalar", fn.file, "%s: '%s'" % (fn.name, name),
                         "assigned inside the parallel loop but shared between its iterations", line)
            for rule, file, cons, msg, line, par, vid in ex.reports:
                if rule == "uninit" and par and vid in ex.private_ids:
                    R.report("private-uninit", file, cons,
                             "private variable of a parallel loop is read before the iteration assigns it", line)
        R.count("parallel loops (%s)" % cfg, len(reached_loops))
        if len(reached_loops) < 0.75 * nd:
            raise Broken("only %d of %d OpenMP loops were reached (%s)" % (len(reached_loops), nd, cfg))
        for k in sorted(reached_loops):
            R.sample("%s:%s line %s" % k, 40)
    R.require("parallel loops (default)", 30)
