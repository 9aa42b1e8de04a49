"""C28 Matricisation helpers are exact and mutually inverse.

Rule: the helpers are interpreted on a generic tensor (structure type with symbolic mode sizes) for every order up to five, every mode
and every ordered selection of modes; the structure of the result must be the index permutation and grouping that the selection
describes, and folding the matricisation back must give the tensor.  Products with pseudo-inverses must have the structure of the
product with the Moore-Penrose inverse on the stated side, for vectors and matrices and with the given cut-off; projectors that
of X pinv(Y^T X) Y^T."""
import itertools

from spec.common import *


def want_mat(A, modes, d):
    perm = tuple(modes) + tuple(i for i in range(d) if i not in modes)
    return N.transpose(A, perm)


def tot(xs):
    t = 1
    for x in xs:
        t = P.pmul(t, x)
    return t


def mat(S, d, modes, aslist, unit):
    sh = S.dims(d, unit=unit)
    A = S.atom("A", *sh)
    m = S.ns("utils")["matricize"]
    net = A.net
    mu = modes if aslist is None else ListObj(list(modes)) if aslist else tuple(modes)
    ms = (modes,) if aslist is None else tuple(modes)
    mark = len(S.I.events)
    S.freeze(A, "A")
    w = want_mat(net, ms, d)
    rest = [sh[i] for i in range(d) if i not in ms]
    left = [sh[i] for i in ms]
    for flag in (None, False, True):
        kw = {} if flag is None else {"mat_shape": flag}
        r = S.run(f"matricize {flag}", lambda: S.call(m, A, mu, **kw))
        shape = ((tot(left),) if flag else tuple(left)) + (tot(rest),)
        S.eq(f"matricize {flag}", S.net(r), N.reshape(w, shape), "matricisation")
        if aslist is None or len(ms) == 1:
            back = S.run(f"dematricize {flag}", lambda: S.call(S.ns("utils")["dematricize"], r, ms[0], sh))
            S.eq(f"fold {flag}", S.net(back), net, "tensor after matricising and folding back")
            b2 = S.run(f"dematricize list {flag}", lambda: S.call(S.ns("utils")["dematricize"], r, ms[0], ListObj(list(sh))))
            S.eq(f"fold list {flag}", S.net(b2), net, "tensor after matricising and folding back")
    S.mutations("A", mark)


def fold(S, d, mode, unit):
    """folding a matrix that is not a matricisation, and matricising again"""
    sh = S.dims(d, unit=unit)
    rest = tot([sh[i] for i in range(d) if i != mode])
    M = S.atom("M", sh[mode], rest)
    T = S.run("dematricize", lambda: S.call(S.ns("utils")["dematricize"], M, mode, sh))
    S.eqtuple("shape", tuple(T.shape), tuple(sh), "shape of the folded tensor")
    back = S.run("matricize", lambda: S.call(S.ns("utils")["matricize"], T, mode))
    S.eq("unfold", S.net(back), M.net, "matrix after folding and matricising")
    # a factor in place of the mode
    k = S.sym("k")
    B = S.atom("B", k, sh[mode])
    BM = N.contract([B.net, M.net], [["a", "i"], ["i", "r"]], ["a", "r"])
    sh2 = tuple(k if i == mode else s for i, s in enumerate(sh))
    T2 = S.run("fold product", lambda: S.call(S.ns("utils")["dematricize"], S.arr(BM), mode, sh2))
    lab = [f"x{i}" for i in range(d)]
    want = N.contract([B.net, S.net(T)], [["y", lab[mode]], lab], ["y" if i == mode else l for i, l in enumerate(lab)])
    S.eq("mode product", S.net(T2), want, "mode product")


def rev(S, d, nl):
    if "reverse_right_modes" not in S.ns("utils"):
        S.ok("no helper")
        return
    sh = S.dims(d)
    A = S.atom("A", *sh)
    r = S.run("reverse", lambda: S.call(S.ns("utils")["reverse_right_modes"], A, nl))
    S.eq("reverse", S.net(r), N.transpose(A.net, tuple(range(nl)) + tuple(range(nl, d))[::-1]), "tensor with the right modes reversed")


def pinv(S, side, vec, cond, tall):
    m, k, n = S.sym("m"), S.sym("k"), S.sym("n")
    u = S.ns("utils")
    kw = {"cond": cond} if cond is not None else {}
    if side == "left":
        A, B = S.atom("A", m, k), S.atom("B", *((m,) if vec else (m, n)))
        mark = len(S.I.events)
        S.freeze(A, "A"), S.freeze(B, "B")
        r = S.run("left_mul_pinv", lambda: S.call(u["left_mul_pinv"], A, B, **kw))
        pa = S.lib.pinv_net(A, S.lib.condkey(cond))
        want = N.contract([pa, B.net], [["j", "i"], ["i"] + ([] if vec else ["n"])], ["j"] + ([] if vec else ["n"]))
    else:
        A, B = S.atom("A", *((k,) if vec else (n, k))), S.atom("B", m, k)
        mark = len(S.I.events)
        S.freeze(A, "A"), S.freeze(B, "B")
        r = S.run("right_mul_pinv", lambda: S.call(u["right_mul_pinv"], A, B, **kw))
        pb = S.lib.pinv_net(B, S.lib.condkey(cond))
        want = N.contract([A.net, pb], [([] if vec else ["n"]) + ["j"], ["j", "i"]], ([] if vec else ["n"]) + ["i"])
    S.eq(side, S.net(r), want, "product with the pseudo-inverse")
    S.mutations("operands", mark)


def proj(S, how):
    n, k, l = S.sym("n"), S.sym("k"), S.sym("l")
    X = S.atom("X", n, k)
    Y = X if how == "same" else S.atom("Y", n, k if how == "pair" else l)
    u = S.ns("utils")
    args = [X] if how == "same" else [X, Y]
    mark = len(S.I.events)
    S.freeze(X, "X"), S.freeze(Y, "Y")
    r = S.run("projector", lambda: S.call(u["projector"], *args))
    G = N.contract([Y.net, X.net], [["i", "a"], ["i", "b"]], ["a", "b"])
    p = S.lib.pinv_net(S.arr(G))
    want = N.contract([X.net, p, Y.net], [["i", "b"], ["b", "a"], ["j", "a"]], ["i", "j"])
    S.eq("projector", S.net(r), want, "projector")
    if how == "same":
        r2 = S.run("projector None", lambda: S.call(u["projector"], X, None))
        S.eq("projector None", S.net(r2), want, "projector")
    S.mutations("bases", mark)


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d <= 4 else "thorough"
    for mode in range(d):
        for unit in ((), (mode,), ((mode + 1) % d,)):
            CASES.append(Case("C28", f"mode_{d}_{mode}_{unit}", mat, (d, mode, None, unit), tier=t))
            CASES.append(Case("C28", f"fold_{d}_{mode}_{unit}", fold, (d, mode, unit), tier=t))
    for nl in range(d + 1):
        CASES.append(Case("C28", f"reverse_{d}_{nl}", rev, (d, nl), tier=t))
    for k in range(0, d + 1):
        for ms in itertools.permutations(range(d), k):
            CASES.append(Case("C28", f"modes_{d}_{''.join(map(str, ms))}", mat, (d, ms, len(ms) % 2 == 0, ()), tier="quick" if d <= 3 else "thorough" if d == 5 else "quick"))
for side in ("left", "right"):
    for vec in (False, True):
        for cond in (None, Fraction(1, 1000)):
            CASES.append(Case("C28", f"pinv_{side}_{vec}_{cond}", pinv, (side, vec, cond, None)))
for how in ("same", "pair", "oblique"):
    CASES.append(Case("C28", f"projector_{how}", proj, (how,)))
