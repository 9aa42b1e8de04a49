"""C34 Structured tensors are processed without forming the full array.

Rule: every array that an operation on structured operands creates (results, temporaries, broadcast operands, index and mask
arrays) is inferred with its symbolic shape; its number of entries may contain the size of at most one mode as a factor in each
of its terms.  An array whose size has a product of the sizes of two modes (the full tensor or an unfolding of several modes) is
a violation, reported with the creating statement."""
import re

import pyx
import values
from spec.common import *
from net import INF
from spec.c13 import mpo
from spec.c25 import NAMES, infer

MODE = re.compile(r"(?:n|p|q|s)(\d+)$")        # sizes of the modes


class Watch:
    """the arrays created by a call"""

    def __init__(self, S):
        self.S = S

    def __call__(self, label, thunk, allow=()):
        S = self.S
        seen = []

        def note(a, shape):
            seen.append((a, shape, S.I.loc()))
        values.WATCH.append(note)
        try:
            r = thunk()
            if isinstance(r, GenObj):
                r = S.list(r)
        except PyRaise as e:
            S.bad(label, f"raises {S.excname(e)}: {e.exc}", e.loc)
            return None
        except Unsupported as e:
            S.undet(label, f"{e} at {S.I.loc()}")
            return None
        finally:
            values.WATCH.remove(note)
        bad = None
        for a, shape, loc in seen:
            m = big(shape)
            if m:
                bad = (m, shape, loc)
                break
        if bad:
            m, shape, loc = bad
            S.bad(label, f"an array of shape ({', '.join(map(repr, shape))}) is formed, its size contains {m}", loc)
        else:
            S.ok(label)
        return r


def big(shape):
    """a product of the sizes of two modes in the number of entries"""
    tot = 1
    for s in shape:
        if s is INF:
            return None
        tot = P.pmul(tot, s)
    if isinstance(tot, int):
        return None
    for m, c in tot.t.items():
        ks = {}
        for n, e in m:
            x = MODE.match(n)
            if x:
                ks.setdefault(x.group(1), n)
        if len(ks) > 1:
            return "*".join(ks[k] for k in sorted(ks))
    return None


STRUCT = ("sparse", "sparse_t", "tt", "cp", "tucker", "sum", "tcs", "stt")
TT, SG, SS = "TensorTrainDRM", "SparseGaussianDRM", "SparseSignDRM"
KINDS = ((TT, TT), (SG, SG), (SS, TT), (SS, SS), (TT, SG), (None, None))


def struct(S, fmt, name, sh):
    if fmt == "tcs":
        return S.sum([mk(S, "tt", name + "a", sh), mk(S, "cp", name + "b", sh), S.sum([mk(S, "tucker", name + "c", sh), mk(S, "cp", name + "d", sh)])])
    return mkd(S, fmt, name, sh)[0]


def unary(S, fmt, d):
    sh = S.dims(d)
    X = struct(S, fmt, "X", sh)
    W = Watch(S)
    lib = S.lib
    ops = [("T", lambda: S.get(X, "T")), ("neg", lambda: lib.unop("USub", X)), ("mul", lambda: lib.binop("Mult", X, 3)),
           ("rmul", lambda: lib.binop("Mult", 3, X)), ("div", lambda: lib.binop("Div", X, 4)),
           ("size", lambda: S.get(X, "size")), ("repr", lambda: S.m(X, "__repr__"))]
    if fmt != "stt":
        ops += [("add", lambda: lib.binop("Add", X, X)), ("sub", lambda: lib.binop("Sub", X, X))]
    if fmt in CLOSED + ("stt",):
        ops += [("dot", lambda: S.m(X, "dot", X)), ("norm", lambda: S.m(X, "norm"))]
    if fmt == "tt":
        ops += [("orthogonalize", lambda: S.m(X, "orthogonalize")), ("add tt", lambda: S.m(X, "add", X)),
                ("round to ranks", lambda: S.m(X, "round", max_rank=3))]
        if d < 5:
            ops += [("round", lambda: S.m(X, "round")), ("round eps", lambda: S.m(X, "round", eps=Fraction(1, 10), max_rank=3))]
    if fmt.startswith("sparse"):
        ops += [("split", lambda: S.m(X, "split", 2))]
    if fmt == "stt":
        ops += [("to_tt", lambda: S.m(X, "to_tt")), ("left", lambda: S.m(X, "C_cores", "left")), ("right", lambda: S.m(X, "C_cores", "right"))]
    if fmt in ("tt", "cp", "sparse", "sparse_t"):
        q = S.sym("nq", 1)
        idx = IntStack(S.index_rows("I", sh, q), q)
        ops += [("gather", lambda: S.m(X, "gather", idx))]
    for label, f in ops:
        W(label, f)


def pair(S, f1, f2, d):
    sh = S.dims(d)
    X, Y = struct(S, f1, "X", sh), struct(S, f2, "Y", sh)
    W = Watch(S)
    ops = [("add", lambda: S.binop("Add", X, Y)), ("sub", lambda: S.binop("Sub", X, Y))]
    if f1 in CLOSED and f2 in CLOSED:
        ops += [("dot", lambda: S.m(X, "dot", Y)), ("matmul", lambda: S.binop("MatMult", X, Y)), ("fast error", lambda: S.m(X, "error", Y, fast=True)),
                ("fast relative error", lambda: S.m(X, "error", Y, fast=True, relative=True))]
    for label, f in ops:
        W(label, f)
    if f1 == f2 == "tt":
        W("add tt", lambda: S.m(X, "add", Y))


def sums(S, n, d):
    """sums of many trains"""
    sh = S.dims(d)
    X = S.sum([mk(S, "tt", f"x{k}", sh) for k in range(n)])
    Y = S.sum([mk(S, "sparse" if k % 2 else "tt", f"y{k}", sh) for k in range(n)])
    W = Watch(S)
    for label, f in (("norm", lambda: S.m(X, "norm")), ("dot", lambda: S.m(X, "dot", Y)), ("dot summand", lambda: S.m(X, "dot", mk(S, "tt", "y", sh))),
                     ("fast error", lambda: S.m(X, "error", Y, fast=True)), ("mul", lambda: S.binop("Mult", X, 3)), ("T", lambda: S.get(X, "T")),
                     ("stream", lambda: S.call(S.ns("sketch")["stream_sketch"], X, 3, 4, seed=5))):
        W(label, f)


def orders(S, fmt, d):
    """many modes"""
    sh = S.dims(d)
    X = mkd(S, fmt, "X", sh)[0]
    W = Watch(S)
    ns = S.ns("sketch")
    ops = [("stream", lambda: S.call(ns["stream_sketch"], X, 3, 4, seed=5)), ("T", lambda: S.get(X, "T")), ("size", lambda: S.get(X, "size")),
           ("hmt", lambda: S.call(ns["hmt_sketch"], X, 3, seed=5)), ("orthogonal", lambda: S.call(ns["orthogonal_sketch"], X, 3, 4, seed=5))]
    if fmt in CLOSED:
        ops += [("dot", lambda: S.m(X, "dot", X)), ("norm", lambda: S.m(X, "norm"))]
    for label, f in ops:
        W(label, f)


def maps(S, kinds, sh, lr, rr):
    if kinds[0] is None:
        return None, None
    return mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))


def sketching(S, fmt, kinds, d):
    sh = S.dims(d)
    X, Y = struct(S, fmt, "X", sh), struct(S, fmt if fmt != "stt" else "tt", "Y", sh)
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    ns = S.ns("sketch")
    W = Watch(S)
    L, R = W("maps", lambda: maps(S, kinds, sh, lr, rr))
    sk = W("stream", lambda: S.call(ns["stream_sketch"], X, lr, rr, left_drm=L, right_drm=R, seed=5))
    W("orthogonal", lambda: S.call(ns["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R, seed=5))
    W("hmt", lambda: S.call(ns["hmt_sketch"], X, lr, drm=mk_drm(S, kinds[1], lr, sh, True, seed_sym(S, "s3")) if kinds[0] else None, seed=5))
    if sk is None:
        return
    ops = [("sketch + Y", lambda: S.binop("Add", sk, Y)), ("sketch - Y", lambda: S.binop("Sub", sk, Y)), ("to_tt", lambda: S.m(sk, "to_tt")),
           ("left", lambda: S.m(sk, "C_cores", "left")), ("right", lambda: S.m(sk, "C_cores", "right")), ("T", lambda: S.get(sk, "T"))]
    if kinds[0] and DRMS[kinds[0]][3] and DRMS[kinds[1]][3]:
        ops.append(("increase", lambda: S.m(sk, "increase_rank", X, grow(S, lr, "g"), grow(S, rr, "h"))))
    for label, f in ops:
        W(label, f)
    if kinds[0] and all(DRMS[k][2] for k in kinds):
        z = (0,) * (d - 1)
        W("blocked", lambda: S.call(ns["blocked_stream_sketch"], X, L, R, ListObj([z, lr]), ListObj([z, lr, rr])))


def linear(S, d):
    si, so = S.dims(d, name="p"), S.dims(d, name="q")
    r = tuple(S.sym(f"m{k}", 1) for k in range(d - 1))
    M, M2 = mpo(S, "M", si, so, r), mpo(S, "M2", si, so, r)
    x, y = mk(S, "tt", "x", si), mk(S, "tt", "y", si)
    W = Watch(S)
    for label, f in (("call", lambda: S.call(M, x)), ("T", lambda: S.get(M, "T")), ("mul", lambda: S.binop("Mult", M, 3)), ("to_tt", lambda: S.m(M, "to_tt")),
                     ("size", lambda: S.get(M, "size"))):
        W(label, f)
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([M, M2]))
    W("A(x)", lambda: S.call(A, x))
    W("A(x+y)", lambda: S.call(A, S.sum([x, y])))
    for mode in range(d):
        p = W(f"preconditioner {mode}", lambda: S.call(S.cls("tt_gmres", "TTPrecond"), S.atom(f"A{mode}", si[mode], si[mode]), si, mode))
        for w in ("backward_call", "forward_call", "__call__"):
            W(f"{w} {mode}", lambda: S.m(p, w, x))


def rounding(S, method, n, d):
    sh = S.dims(d)
    T = S.sum([mk(S, "tt", f"x{k}", sh) for k in range(n)])
    W = Watch(S)
    f = S.ns("tt_gmres")["round_tt_sum"]
    W(f"{method}", lambda: S.call(f, T, 3, eps=Fraction(1, 10), method=method))
    W(f"{method} nested", lambda: S.call(f, S.sum([T, mk(S, "tt", "y", sh)]), 3, method=method))


def gmres(S, sym, pre, d, maxiter):
    sh = S.dims(d)
    r = tuple(S.sym(f"m{k}", 1) for k in range(d - 1))
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([mpo(S, "M", sh, sh, r), mpo(S, "M2", sh, sh, r)]))
    b, x = mk(S, "tt", "b", sh), mk(S, "tt", "x0", sh)
    p = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("P", sh[0], sh[0]), sh, 0) if pre else None
    # rounding is judged in ``rounding``
    cnt = [0]

    def rounded(args, kw):
        cnt[0] += 1
        return mk(S, "tt", f"round{cnt[0]}", sh)
    S.I.overrides["tt_sketch.tt_gmres.round_tt_sum"] = rounded
    Watch(S)("solve", lambda: S.call(S.ns("tt_gmres")["tt_sum_gmres"], A, b, 3, precond=p, x0=x, maxiter=maxiter, symmetric=sym))


def random(S, d):
    sh = S.dims(d)
    r = S.sym("r", 1)
    W = Watch(S)
    T = lambda n: S.cls("tensor", n)
    lr = adm_ranks(S, sh)
    for n, rk in (("TensorTrain", lr), ("TensorTrain", r), ("CPTensor", r), ("TuckerTensor", r)):
        W(n, lambda: S.call(S.get(T(n), "random"), sh, rk, seed=3))
    W("zero", lambda: S.call(S.get(T("TensorTrain"), "zero"), sh, r))
    W("orthogonal", lambda: S.call(S.get(T("TensorTrain"), "random"), sh, lr, orthog=True, seed=3))
    W("sparse", lambda: S.call(S.get(T("SparseTensor"), "random"), sh, S.sym("nnz", 1), seed=3))


CLOSED = ("sparse", "sparse_t", "tt", "sum")          # formats with structured inner products
def kernel(rec, visited, kind, d):
    """the arrays of the compiled kernels"""
    made = []
    init = pyx.Store.__init__

    def wrapped(self, name, factors, ctype):
        made.append((name, list(factors)))
        init(self, name, factors, ctype)
    pyx.Store.__init__ = wrapped
    try:
        k, r = infer(kind, d, lambda *a: None, False, visited)
    finally:
        pyx.Store.__init__ = init
    for name, shape in made:
        m = big(shape)
        if m:
            rec("violation", f"array {name}", f"an array of shape {shape!r} is formed, its size contains {m}", f"{k.mod.rel} in {NAMES[kind]}")
        else:
            rec("ok", f"array {name}")


CASES = [AstCase("C34", f"kernel_{kind}_{d}", kernel, (kind, d)) for kind in NAMES for d in (2, 3, 4, 5)]
for d in (2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    for f in STRUCT:
        CASES.append(Case("C34", f"unary_{f}_{d}", unary, (f, d), tier=t))
        for g in STRUCT[:-1] if f == "stt" else STRUCT:
            CASES.append(Case("C34", f"pair_{f}_{g}_{d}", pair, (f, g, d), tier=t))
    for f in STRUCT[:-1]:
        for kinds in KINDS:
            if not f.startswith("sparse") and {SG, SS} & set(kinds):
                continue
            CASES.append(Case("C34", f"sketch_{f}_{kinds[0] and kinds[0][:7]}_{kinds[1] and kinds[1][:7]}_{d}", sketching, (f, kinds, d), tier=t))
    CASES.append(Case("C34", f"linear_{d}", linear, (d,), tier=t))
    CASES.append(Case("C34", f"random_{d}", random, (d,), tier=t))
    for m in ("exact", "pairwise", "sketch", "orth_sketch", None):
        for n in (1, 2, 3):
            if d < 5 or m not in ("exact", "pairwise"):
                CASES.append(Case("C34", f"rounding_{m}_{n}_{d}", rounding, (m, n, d), tier=t))
    for sym in (False, True):
        for pre in (False, True):
            CASES.append(Case("C34", f"gmres_{sym}_{pre}_{d}", gmres, (sym, pre, d, 2), tier=t))
    for n in (1, 2, 3, 4, 5, 6, 8) if d < 5 else (1, 4):
        CASES.append(Case("C34", f"sums_{n}_{d}", sums, (n, d), tier=t))
for d in (6, 7, 8, 9, 10, 12):
    for f in ("tt", "sparse", "cp", "tucker"):
        CASES.append(Case("C34", f"orders_{f}_{d}", orders, (f, d), tier="quick" if d < 8 else "thorough"))
