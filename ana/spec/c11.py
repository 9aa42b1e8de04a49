"""C11 Tensor arithmetic agrees with dense arithmetic in every format.

Rule: the dense form inferred for every result (a tensor network over the parameters of the operands, which are free symbols)
equals the sum / multiple of the networks that define the operands' formats; no operand combination raises."""
from spec.common import *

ALL = ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested", "stt")
MIN1 = ("dense", "sparse", "tt", "cp", "tucker", "sum")


def scale(S, net, c):
    return S.lib.binop("Mult", S.arr(net), c).net if not isinstance(c, Net) else N.contract([net, c], [list(range(net.ndim)), []], list(range(net.ndim)))


def convert(S, fmt, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, fmt, "X", sh, ur)
    S.eq("to_numpy", S.run("to_numpy", lambda: S.to_numpy(X)), x, "dense form")
    D = S.run("dense", lambda: S.m(X, "dense"))
    S.eq("dense", S.to_numpy(D), x, "dense()")
    if fmt == "dense":
        Y = S.run("to_sparse", lambda: S.m(X, "to_sparse"))
        S.eq("to_sparse", S.run("to_sparse", lambda: S.to_numpy(Y)), x, "to_sparse()")
    if fmt == "stt":
        Y = S.run("to_tt", lambda: S.m(X, "to_tt"))
        S.eq("to_tt", S.to_numpy(Y), x, "to_tt()")


def unary(S, fmt, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, fmt, "X", sh, ur)
    c = S.atom("c") if fmt != "stt" else Fraction(7, 3)
    lib = S.lib
    jobs = [("neg", lambda: lib.unop("USub", X), N.neg(x)),
            ("mul", lambda: lib.binop("Mult", X, c), scale(S, x, c)),
            ("rmul", lambda: lib.binop("Mult", c, X), scale(S, x, c)),
            ("div", lambda: lib.binop("Div", X, c), lib.binop("Div", S.arr(x), c).net)]
    for k in (1, -2, Fraction(1, 2), 3):
        jobs += [(f"mul {k}", lambda k=k: lib.binop("Mult", X, k), scale(S, x, k)),
                 (f"rmul {k}", lambda k=k: lib.binop("Mult", k, X), scale(S, x, k)),
                 (f"div {k}", lambda k=k: lib.binop("Div", X, k), scale(S, x, Fraction(1) / k))]
    if fmt != "stt":
        jobs.append(("mul 0", lambda: lib.binop("Mult", X, 0), N.zero_net(x.shape)))
    for label, f, want in jobs:
        Y = S.trying(label, f)
        if Y is not None:
            y = S.trying(label, lambda: S.to_numpy(Y))
            if y is not None:
                S.eq(label, y, want, label + " of " + fmt)
    S.eq("operand", S.to_numpy(X), x, "the operand afterwards")


def pair(S, f1, f2, d, unit):
    sh = S.dims(d, unit)
    X, x = mkd(S, f1, "X", sh)
    Y, y = mkd(S, f2, "Y", sh)
    lib = S.lib
    c, e = (S.atom("c"), S.atom("e")) if f2 != "stt" else (3, Fraction(-5, 2))
    jobs = [("add", lambda: lib.binop("Add", X, Y), N.add(x, y)),
            ("sub", lambda: lib.binop("Sub", X, Y), N.sub(x, y)),
            ("expr", lambda: lib.binop("Sub", lib.binop("Mult", c, lib.binop("Add", X, Y)), lib.binop("Div", Y, 2)),
             N.sub(scale(S, N.add(x, y), c), scale(S, y, Fraction(1, 2)))),
            ("combine", lambda: lib.binop("Add", lib.binop("Mult", X, c), lib.binop("Mult", Y, e)),
             N.add(scale(S, x, c), scale(S, y, e))),
            ("addadd", lambda: lib.binop("Add", lib.binop("Add", X, Y), lib.binop("Sub", Y, X)), N.add(y, y) if f2 != "stt" else None),
            ("same", lambda: lib.binop("Add", X, X), N.add(x, x))]
    for label, f, want in jobs:
        if want is None:
            continue
        Z = S.trying(label, f)
        if Z is not None:
            z = S.trying(label, lambda: S.to_numpy(Z))
            if z is not None:
                S.eq(label, z, want, label)


def iadd(S, f1, f2, d):
    sh = S.dims(d)
    X, x = mkd(S, f1, "X", sh)
    Y, y = mkd(S, f2, "Y", sh)
    Z = S.sum([X])
    W = S.run("iadd", lambda: S.m(Z, "__iadd__", Y))
    S.eq("iadd", S.to_numpy(W), N.add(x, y), "in-place sum")
    S.true("iadd in place", W is Z, "in-place addition returns another object")
    W = S.run("iadd2", lambda: S.m(W, "__iadd__", X))
    S.eq("iadd2", S.to_numpy(W), N.add(N.add(x, y), x), "in-place sum")
    S.eq("summand", S.to_numpy(Y), y, "the added tensor afterwards")


def ttadd(S, d, unit, ur):
    sh = S.dims(d, unit)
    X, x = mkd(S, "tt", "X", sh, ur[0])
    Y, y = mkd(S, "tt", "Y", sh, ur[1])
    for label, a, b, want in (("add", X, Y, N.add(x, y)), ("add same", X, X, N.add(x, x))):
        Z = S.run(label, lambda: S.m(a, "add", b))
        S.eq(label, S.to_numpy(Z), want, "TT addition")
    Z = S.run("chain", lambda: S.m(S.m(X, "add", Y), "add", S.lib.unop("USub", X)))
    S.eq("chain", S.to_numpy(Z), y, "X + Y - X")


def sumscale(S, fmts, d, how):
    sh = S.dims(d)
    Ts = [mkd(S, f, f"X{i}", sh) for i, f in enumerate(fmts)]
    num = "stt" in fmts
    cs = [Fraction(2 * i + 3, 2) if num else S.atom(f"c{i}") for i in range(len(fmts))]
    u = Fraction(-5, 3) if num else S.atom("u")
    Z = S.sum([t[0] for t in Ts])
    if how == "list":
        arg = ListObj(list(cs))
    elif how == "tuple":
        arg = tuple(cs)
    elif num:
        arg = S.lib.npf["array"].fn([ListObj(list(cs))], {})
    else:
        v = S.atom("c", len(fmts))
        arg = v
        cs = [S.lib.getitem(v, i) for i in range(len(fmts))]
    want = N.zero_net(sh)
    for t, c in zip(Ts, cs):
        want = N.add(want, scale(S, t[1], c))
    for label, f in (("mul", lambda: S.binop("Mult", Z, arg)), ("rmul", lambda: S.binop("Mult", arg, Z))):
        if label == "rmul" and how != "list":
            continue
        R = S.run(label, f)
        S.eq(label, S.to_numpy(R), want, "per-summand scaling")
    R = S.run("uniform", lambda: S.binop("Mult", Z, u))
    tot = N.zero_net(sh)
    for t in Ts:
        tot = N.add(tot, t[1])
    S.eq("uniform", S.to_numpy(R), scale(S, tot, u), "scaling of the sum")


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d < 4 else "thorough"
    for fmt in ALL:
        if d == 1 and fmt not in MIN1:
            continue
        for u in [()] + ([(0,), (d - 1,)] if d > 1 else [(0,)]) + ([(1,)] if d > 2 else []):
            for ur in (False, True):
                CASES.append(Case("C11", f"convert_{fmt}_{d}_{u}_{ur}", convert, (fmt, d, u, ur), tier=t))
                CASES.append(Case("C11", f"unary_{fmt}_{d}_{u}_{ur}", unary, (fmt, d, u, ur), tier=t))
    for f1 in ALL:
        for f2 in ALL:
            if d == 1 and (f1 not in MIN1 or f2 not in MIN1):
                continue
            if f1 != "stt" and d < 5:
                for u in [()] + ([(0,)] if d > 1 and t == "quick" else []):
                    if f2 == "stt" and u:
                        continue
                    CASES.append(Case("C11", f"pair_{f1}_{f2}_{d}_{u}", pair, (f1, f2, d, u), tier=t))
            if d < 4:
                CASES.append(Case("C11", f"iadd_{f1}_{f2}_{d}", iadd, (f1, f2, d), tier=t))
    for u in [()] + ([(0,), (d - 1,)] if d > 1 else []):
        for ur in ((False, False), (True, False), (False, True), (True, True)):
            CASES.append(Case("C11", f"ttadd_{d}_{u}_{ur}", ttadd, (d, u, ur), tier=t))
    for fs in (("tt", "tt", "tt"), ("dense", "sparse"), ("cp", "tucker", "sum"), ("tt",), ("stt", "tt")):
        if d == 1 and "stt" in fs:
            continue
        for how in ("list", "tuple", "array"):
            CASES.append(Case("C11", f"sumscale_{fs}_{d}_{how}", sumscale, (fs, d, how), tier=t))
