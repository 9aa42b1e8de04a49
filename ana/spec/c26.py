"""C26 The compiled kernels never access memory out of bounds.

Rule: the kernels are interpreted abstractly for symbolic numbers of nonzeros, ranks and windows.  Every subscript in a function
compiled without bounds checks must be inside its array for all values allowed by the loop ranges and the preconditions
(floating point positions carry intervals with rounding); every variable and expression that sizes or indexes memory must be
wide enough.  The preconditions (as many index rows as modes, at most as many nonzeros per row as rows, windows inside the rank)
are obligations of the maps: they hold for every call the maps make, whatever was passed to their constructors."""
from spec.common import *
from spec.c25 import NAMES, infer, module
from harness import AstCase
import pyx


def kernel(rec, visited, kind, d):
    n = [0]

    def note(st, lab, det, loc):
        if lab == "access" or lab.startswith("width"):
            n[0] += 1
            if st != "data":
                rec(st, f"{lab} ({loc.rsplit(' in ', 1)[-1]} {n[0]})", det, loc)
    infer(kind, d, note, False, visited)
    if not n[0]:
        raise Unsupported("no unchecked access found")


def maps(S, kind, d, transpose, form, window, transposed):
    """the arguments the maps pass to the kernels"""
    sh = S.dims(d)
    rank = tuple(S.sym(f"R{k}", 1) for k in range(d - 1))
    kw = {}
    if kind == "SparseSignDRM" and form:
        z = tuple(S.sym(f"z{k}", 1) for k in range(d - 1))
        kw["num_non_zero_per_row"] = {"int": z[0], "tuple": z, "list": ListObj(list(z))}[form]
    D = mk_drm(S, kind, rank, sh, transpose, seed_sym(S), **kw)
    if window:
        lo = tuple(S.sym(f"lo{k}", 0) for k in range(d - 1))
        hi = tuple(P.padd(l, S.sym(f"w{k}", 1)) for k, l in enumerate(lo))
        for a, b in zip(hi, rank):
            P.add_fact(P.psub(b, a))
        D = S.m(D, "slice", lo, hi)
    X = mk(S, "sparse", "X", sh)
    if transposed:
        D, X = S.get(D, "T"), S.get(X, "T")
    mark = len(S.I.events)
    S.run("sketch", lambda: S.list(S.m(D, "sketch_sparse", X)))
    ev = [e for e in S.I.events[mark:] if e["kind"] == "kernel"]
    if not ev:
        S.undet("kernel calls", "the map does not call the kernel")
        return
    for k, e in enumerate(ev):
        S.ge(f"window start {k}", e["lo"], 0, "rank window")
        S.ge(f"window {k}", e["hi"], e["lo"], "rank window")
        if e["name"] == "sign":
            tot, z = e["extra"]
            S.ge(f"window end {k}", tot, e["hi"], "rank and rank window")
            S.ge(f"nonzeros per row {k}", tot, z, "rank and number of nonzeros per row passed to the kernel")


CASES = [AstCase("C26", f"kernel_{kind}_{d}", kernel, (kind, d)) for kind in NAMES for d in (1, 2, 3, 4, 5)]
for d in (2, 3, 4):
    for t in (False, True):
        for tr in (False, True):
            for win in (False, True):
                CASES.append(Case("C26", f"map_SparseGaussianDRM_{d}_{t}_{win}_{tr}", maps, ("SparseGaussianDRM", d, t, None, win, tr), raise_ok=True))
                for form in (None, "int", "tuple", "list"):
                    CASES.append(Case("C26", f"map_SparseSignDRM_{d}_{t}_{form}_{win}_{tr}", maps, ("SparseSignDRM", d, t, form, win, tr), raise_ok=True,
                                      max_paths=60))
