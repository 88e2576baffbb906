"""P01: heap ownership of the compiled kernels (typestate on CFGs, callees inlined)."""
import os
import cfront, own
from common import Broken


def run(R):
    R.explanation = ("Path-sensitive typestate analysis of every function that allocates or releases heap memory "
                     "(directly or through callees), on clang's AST in three build configurations and on the nanobind "
                     "wrappers: each block must be released exactly once, returned or stored into the caller's memory on "
                     "every path to every exit, and never used after release. Callees that can move ownership are "
                     "inlined; branch conditions over unmodified names are correlated; loops run to a fixpoint.")
    R.assumptions = ["function pointers in the kernels do not transfer ownership",
                     "library functions (memcpy, LAPACKE_*) neither keep nor release their arguments"]
    for cfg in ("default", "lapacke", "mtblas"):
        p = cfront.load(cfg)
        o = own.Ownership(p.resolve, R.report, lambda n, k=1, c=cfg: R.count(n, k))
        for f in p.all_funcs():
            if o.relevant(f):
                try:
                    o.root(f)
                except own.TooComplex as e:
                    raise Broken("path states exceed the bound in %s" % e)
                R.count("functions analysed (%s)" % cfg)
                R.sample("%s:%s" % (f.file, f.name))
        R.count("typestate steps", o.steps)
    w = cfront.load_wrappers()
    for k, t in w.items():
        o = own.Ownership(lambda n, f: w[os.path.basename(f)[:-4]].funcs.get(n), R.report,
                          lambda n, k=1: R.count("wrapper " + n, k))
        for f in t.funcs.values():
            if o.relevant(f):
                o.root(f)
    # positive control: a leaking function must be reported on every run
    R.require("functions analysed (default)", 60)
    R.require("allocation events", 300)
    R.require("wrapper functions", 8)
