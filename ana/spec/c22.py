"""C22 Preconditioning and its forward map.

Rule: the type of forward_call(x) is the train with the matrix contracted into the chosen mode (every other core unchanged); the types of the compositions
with __call__/backward_call reduce to the type of x in either order, which with the first fact makes the preconditioner the inverse on
that mode."""
from spec.common import *


def apply(A, x, mode, d):
    return N.contract([A, x], [["o", "i"], ["i" if k == mode else ("n", k) for k in range(d)]], ["o" if k == mode else ("n", k) for k in range(d)])


def precond(S, d, mode, u, kw, form):
    sh = S.dims(d, u)
    A = S.atom("A", sh[mode], sh[mode])
    cls = S.cls("tt_gmres", "TTPrecond")
    sh_ = sh if form == "tuple" else ListObj(list(sh))
    Pm = S.run("TTPrecond", lambda: S.call(cls, A, sh_, **({"mode": mode} if kw else {})))
    S.eqtuple("in_shape", S.get(Pm, "in_shape"), sh, "in_shape")
    S.eqtuple("out_shape", S.get(Pm, "out_shape"), sh, "out_shape")
    X, x = mkd(S, "tt", "x", sh)
    fw = S.run("forward", lambda: S.m(Pm, "forward_call", X))
    S.eq("forward", S.to_numpy(fw), apply(A.net, x, mode, d), "forward image")
    bw = S.run("call", lambda: S.call(Pm, X))
    b2 = S.run("backward", lambda: S.m(Pm, "backward_call", X))
    S.eqtuple("forward.shape", S.get(fw, "shape"), sh, "shape")
    S.eqtuple("backward.shape", S.get(bw, "shape"), sh, "shape")
    S.eqtuple("forward.rank", S.get(fw, "rank"), S.get(X, "rank"), "rank")
    S.eqtuple("backward.rank", S.get(bw, "rank"), S.get(X, "rank"), "rank")
    S.eq("call is backward", S.to_numpy(b2), S.to_numpy(bw), "preconditioned train")
    # every other core is left alone
    cx = S.list(S.get(X, "cores"))
    for nm, y in (("forward", fw), ("backward", bw)):
        for k, c in enumerate(S.list(S.get(y, "cores"))):
            if k != mode:
                S.eq(f"{nm} core {k}", S.net(c), S.net(cx[k]), "core of another mode")
    S.eq("forward(backward(x))", S.to_numpy(S.run("fb", lambda: S.m(Pm, "forward_call", bw))), x, "x preconditioned and mapped forward")
    S.eq("backward(forward(x))", S.to_numpy(S.run("bf", lambda: S.call(Pm, fw))), x, "x mapped forward and preconditioned")
    # linear in the train, and repeatable
    Y, y = mkd(S, "tt", "y", sh)
    S.eq("backward(x.add(y))", S.to_numpy(S.call(Pm, S.m(X, "add", Y))), N.add(S.to_numpy(bw), S.to_numpy(S.call(Pm, Y))), "preconditioned sum")
    S.eq("forward(x) again", S.to_numpy(S.m(Pm, "forward_call", X)), apply(A.net, x, mode, d), "forward image, second use")
    S.eq("backward(x) again", S.to_numpy(S.call(Pm, X)), S.to_numpy(bw), "preconditioned train, second use")


def two(S, d, m1, m2):
    """preconditioners of different modes commute and undo each other independently"""
    sh = S.dims(d)
    A, B = S.atom("A", sh[m1], sh[m1]), S.atom("B", sh[m2], sh[m2])
    cls = S.cls("tt_gmres", "TTPrecond")
    PA, PB = S.call(cls, A, sh, m1), S.call(cls, B, sh, m2)
    X, x = mkd(S, "tt", "x", sh)
    z = S.run("compositions", lambda: S.call(PA, S.call(PB, S.m(PA, "forward_call", S.m(PB, "forward_call", X)))))
    S.eq("undone", S.to_numpy(z), x, "x after two forward maps and two preconditioners")
    S.eq("forward", S.to_numpy(S.m(PA, "forward_call", S.m(PB, "forward_call", X))), apply(A.net, apply(B.net, x, m2, d), m1, d), "image of two forward maps")


def operator(S, d, mode):
    """the forward map as an operator: preconditioning it gives the identity"""
    sh = S.dims(d)
    A = S.atom("A", sh[mode], sh[mode])
    cores = []
    for k, n in enumerate(sh):
        # operator cores have axes (rank, input, output, rank)
        m = N.transpose(A.net, (1, 0)) if k == mode else N.eye_net(n)
        cores.append(S.arr(N.reshape(m, (1, n, n, 1))))
    M = S.call(S.cls("tt_gmres", "MPO"), ListObj(cores))
    Pm = S.call(S.cls("tt_gmres", "TTPrecond"), A, sh, mode)
    X, x = mkd(S, "tt", "x", sh)
    S.eq("forward map", S.to_numpy(S.call(M, X)), S.to_numpy(S.m(Pm, "forward_call", X)), "operator and forward map")
    S.eq("preconditioned", S.to_numpy(S.call(Pm, S.call(M, X))), x, "preconditioned operator")


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d < 4 else "thorough"
    for mode in range(d):
        for u in [()] + [(k,) for k in range(d)]:
            CASES.append(Case("C22", f"precond_{d}_{mode}_{u}", precond, (d, mode, u, True, "tuple"), tier=t))
        CASES.append(Case("C22", f"operator_{d}_{mode}", operator, (d, mode), tier=t))
        for m2 in range(d):
            CASES.append(Case("C22", f"two_{d}_{mode}_{m2}", two, (d, mode, m2), tier=t)) if m2 != mode else None
    CASES.append(Case("C22", f"default_{d}", precond, (d, 0, (), False, "tuple"), tier=t))
