"""C12 Dot, norm and error equal their dense definitions.

Rule: the scalar inferred for X.dot(Y), X @ Y, X.norm() and X.error(Y, ...) (a closed tensor network over the free parameters of
both operands, with square roots and quotients of such networks) equals the network of the definition, for every pair of
formats; a zero reference gives infinity for the relative error; products of sizes are evaluated with the width of the
array type that the source computes them in."""
from spec.common import *

ALL = ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested", "stt")


def full(x, y):
    ax = list(range(x.ndim))
    return N.contract([x, y], [ax, ax], [])


def square(S, X, x):
    """squared norm (positions of a sparse tensor are distinct, so it is that of the entries)"""
    if X is not None and S.get(X, "__class__").name == "SparseTensor":
        e = S.net(S.get(X, "entries"))
        x = e
    q = full(x, x)
    N.NONNEG.add(N.key(q))
    return q


def root(S, n):
    return S.net(S.lib.scal_fn("sqrt", S.arr(n)))


def dot(S, f1, f2, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, f1, "X", sh, ur)
    Y, y = mkd(S, f2, "Y", sh, ur)
    want = full(x, y)
    for label, f in (("dot", lambda: S.m(X, "dot", Y)), ("matmul", lambda: S.binop("MatMult", X, Y))):
        v = S.trying(label, f)
        if v is not None:
            S.eq(label, v, want, f"{f1}.dot({f2})")


def selfdot(S, fmt, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, fmt, "X", sh, ur)
    v = S.trying("dot", lambda: S.m(X, "dot", X))
    if v is not None:
        S.eq("dot", v, full(x, x), f"dot of a {fmt} tensor with itself")


def norm(S, fmt, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, fmt, "X", sh, ur)
    q = square(S, X, x)
    v = S.run("norm", lambda: S.m(X, "norm"))
    S.eq("norm", v, root(S, q), f"norm of a {fmt} tensor")


OPTS = [dict(), dict(relative=True), dict(rmse=True), dict(relative=True, rmse=True), dict(fast=True),
        dict(fast=True, relative=True), dict(fast=True, rmse=True), dict(fast=True, relative=True, rmse=True)]


def error(S, f1, f2, d, unit):
    sh = S.dims(d, unit)
    X, x = mkd(S, f1, "X", sh)
    if f2 == "array":
        Y = S.atom("Y", *sh)
        y, ny = Y.net, square(S, None, Y.net)
    else:
        Y, y = mkd(S, f2, "Y", sh)
        ny = square(S, Y, y)
    df = N.sub(x, y)
    dd = square(S, None, df)
    # the same number when the positions of sparse tensors are distinct
    fd = N.sub(N.add(square(S, X, x), ny), N.scale(full(x, y), [(Fraction(2), ())]))
    N.NONNEG.add(N.key(fd))
    u = S.lib.compare("Eq", S.arr(root(S, ny)), 0)     # the reference is generic: not zero
    if isinstance(u, UnknownBool):
        S.I.decider.memo[u.key] = u.neg
    for o in OPTS:
        label = "error " + ",".join(sorted(o))
        v = S.trying(label, lambda: S.m(X, "error", Y, **o))
        if v is None:
            continue

        def want(q):
            w = S.arr(root(S, q))
            if o.get("relative"):
                w = S.binop("Div", w, S.arr(root(S, ny)))
            if o.get("rmse"):
                w = S.binop("Div", w, S.arr(root(S, N.scalar_net(S.lib.tot(sh)))))
            return w
        try:
            alt = N.equal(S.net(v), S.net(want(fd)))
        except (Unsupported, ShapeError):
            alt = False
        if alt:
            S.ok(label)
        else:
            S.eq(label, v, want(dd), f"{label} of {f1} and {f2}")


def zero(S, f1, f2, d):
    """reference zero"""
    sh = S.dims(d)
    X, x = mkd(S, f1, "X", sh) if f1 != "zero" else (S.call(S.cls("tensor", "DenseTensor"), S.arr(N.zero_net(sh))), N.zero_net(sh))
    if f2 == "dense":
        Y = S.call(S.cls("tensor", "DenseTensor"), S.arr(N.zero_net(sh)))
    elif f2 == "tt":
        Y = S.call(S.get(S.cls("tensor", "TensorTrain"), "zero"), sh, 1)
    else:
        Y = S.binop("Mult", mkd(S, f2, "Y", sh)[0], 0)
    for o in OPTS:
        label = "zero reference " + ",".join(sorted(o))
        v = S.trying(label, lambda: S.m(X, "error", Y, **o))
        if v is None:
            continue
        if o.get("relative"):
            S.true(label, isinstance(v, float) and v == float("inf"), f"{label} is {S.desc(v)}, expected infinity")
        elif f1 == "zero":
            S.eq(label, v, N.zero_net(()), label)


def large(S, d, n, fmt):
    """more entries than a machine integer holds"""
    sh = (n,) * d
    X, Y = S.tt("X", sh, (1,) * (d - 1)), S.tt("Y", sh, (1,) * (d - 1))
    a = S.run("error", lambda: S.m(X, "error", Y))
    b = S.run("error rmse", lambda: S.m(X, "error", Y, rmse=True))
    w = S.binop("Div", a, S.lib.arr(root(S, N.scalar_net(n ** d))))
    S.eq("rmse of a large tensor", b, w, f"RMSE for {n}**{d} entries")


CASES = []
for d in (2, 3, 4, 1):
    t = "quick" if d < 4 else "thorough"
    A = ALL if d > 1 else ("dense", "sparse", "tt", "cp", "tucker", "sum")
    for f1 in A:
        for u in [()] + ([(0,), (d - 1,)] if d > 1 else [(0,)]):
            for ur in (False, True):
                CASES.append(Case("C12", f"norm_{f1}_{d}_{u}_{ur}", norm, (f1, d, u, ur), tier=t))
                CASES.append(Case("C12", f"self_{f1}_{d}_{u}_{ur}", selfdot, (f1, d, u, ur), tier=t))
        for f2 in A:
            for u in [()] + ([(0,)] if d < 4 else []):
                CASES.append(Case("C12", f"dot_{f1}_{f2}_{d}_{u}", dot, (f1, f2, d, u, False), tier=t))
                if d < 4 and not u or d < 3:
                    CASES.append(Case("C12", f"error_{f1}_{f2}_{d}_{u}", error, (f1, f2, d, u), tier=t))
        if d < 4:
            CASES.append(Case("C12", f"error_{f1}_array_{d}", error, (f1, "array", d, ()), tier=t))
    if 1 < d < 4:
        for f1 in A + ("zero",):
            for f2 in ("dense", "tt", "cp"):
                CASES.append(Case("C12", f"zero_{f1}_{f2}_{d}", zero, (f1, f2, d), tier=t))
CASES.append(Case("C12", "large_32_4", large, (32, 4, "tt")))
CASES.append(Case("C12", "large_63_2", large, (63, 2, "tt")))
