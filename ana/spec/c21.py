"""C21 Matrix-product operators.

Rule: the inferred tensor-network type of mpo(x), mpo.T, MPO.eye(shape), c * mpo, conversions and sums of maps is compared with the
contraction of the operator's definition (cores with axes rank, input mode, output mode, rank) with the dense tensor over the input modes."""
from spec.common import *


def op(S, name, si, so, unit=()):
    """(operator, its dense form with axes (in..., out...))"""
    d = len(si)
    rr = (1,) + tuple(1 if k in unit else S.sym(f"{name}.m{k}", 1) for k in range(d - 1)) + (1,)
    cs = [S.atom(f"{name}.{k}", rr[k], si[k], so[k], rr[k + 1]) for k in range(d)]
    M = S.run("MPO", lambda: S.call(S.cls("tt_gmres", "MPO"), ListObj(list(cs))))
    nets = [c.net for c in cs]
    labs = [[("b", k), ("i", k), ("o", k), ("b", k + 1)] for k in range(d)]
    nets[0] = N.reshape(nets[0], nets[0].shape[1:])
    labs[0] = labs[0][1:]
    nets[-1] = N.reshape(nets[-1], nets[-1].shape[:-1])
    labs[-1] = labs[-1][:-1]
    D = N.contract(nets, labs, [("i", k) for k in range(d)] + [("o", k) for k in range(d)])
    return M, D, rr[1:-1]


def act(D, x, d):
    """contraction over the input modes"""
    return N.contract([D, x], [[("i", k) for k in range(d)] + [("o", k) for k in range(d)], [("i", k) for k in range(d)]], [("o", k) for k in range(d)])


def interleave(D, d):
    """axes (in0, out0, in1, out1, ...)"""
    return N.transpose(D, tuple(x for k in range(d) for x in (k, d + k)))


def swap(D, d):
    return N.transpose(D, tuple(range(d, 2 * d)) + tuple(range(d)))


def matches(S, label, M, D, si, so):
    d = len(si)
    S.eqtuple(label + ".in_shape", S.get(M, "in_shape"), si, "in_shape")
    S.eqtuple(label + ".out_shape", S.get(M, "out_shape"), so, "out_shape")
    S.eq(label, S.run(label, lambda: S.m(M, "to_numpy")), interleave(D, d), "dense operator")


def algebra(S, d, ui, uo, ur):
    si, so = S.dims(d, ui, "p"), S.dims(d, uo, "q")
    M, D, r = op(S, "M", si, so, ur)
    S.eqtuple("rank", S.get(M, "rank"), r, "rank")
    S.eqtuple("shape", S.get(M, "shape"), tuple(P.pmul(a, b) for a, b in zip(si, so)), "shape")
    ext = (1,) + r + (1,)
    S.eqint("size", S.get(M, "size"), sum_(P.pmul(P.pmul(ext[k], ext[k + 1]), P.pmul(si[k], so[k])) for k in range(d)), "number of parameters")
    matches(S, "to_numpy", M, D, si, so)
    T = S.run("T", lambda: S.get(M, "T"))
    matches(S, "T", T, swap(D, d), so, si)
    matches(S, "T.T", S.get(T, "T"), D, si, so)
    c = S.atom("c")
    for label, f, w in (("M*c", lambda: S.binop("Mult", M, c), c), ("c*M", lambda: S.binop("Mult", c, M), c), ("M*3", lambda: S.binop("Mult", M, 3), 3),
                        ("-M", lambda: S.lib.unop("USub", M), -1), ("M/4", lambda: S.binop("Div", M, 4), Fraction(1, 4))):
        Z = S.run(label, f)
        matches(S, label, Z, N.scale(D, [(Fraction(w), ())]) if not hasattr(w, "net") else N.contract([w.net, D], [[], list(range(2 * d))], list(range(2 * d))), si, so)
    X, x = mkd(S, "tt", "x", si)
    y = S.run("M(x)", lambda: S.call(M, X))
    S.eqtuple("M(x).shape", S.get(y, "shape"), so, "shape of the image")
    xr = S.get(X, "rank")
    S.eqtuple("M(x).rank", S.get(y, "rank"), tuple(P.pmul(a, b) for a, b in zip(r, xr)), "rank of the image")
    S.eq("M(x)", S.to_numpy(y), act(D, x, d), "image of the train")
    W, w = mkd(S, "tt", "w", so)
    S.eq("M.T(w)", S.to_numpy(S.run("M.T(w)", lambda: S.call(T, W))), act(swap(D, d), w, d), "image under the transposed operator")
    S.eq("(M*3)(x)", S.to_numpy(S.call(S.binop("Mult", M, 3), X)), N.scale(act(D, x, d), [(Fraction(3), ())]), "image under the scaled operator")
    # conversion keeps all entries
    t = S.run("to_tt", lambda: S.m(M, "to_tt"))
    S.eqtuple("to_tt.shape", S.get(t, "shape"), S.get(M, "shape"), "shape of the converted train")
    S.eq("to_tt", S.to_numpy(t), N.reshape(interleave(D, d), tuple(P.pmul(a, b) for a, b in zip(si, so))), "entries of the converted train")


def sum_(xs):
    t = 0
    for x in xs:
        t = P.padd(t, x)
    return t


def eye(S, d, u, form):
    sh = S.dims(d, u)
    E = S.run("eye", lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "eye"), sh if form == "tuple" else ListObj(list(sh))))
    S.eqtuple("in_shape", S.get(E, "in_shape"), sh, "in_shape")
    S.eqtuple("out_shape", S.get(E, "out_shape"), sh, "out_shape")
    S.eqtuple("rank", S.get(E, "rank"), (1,) * (d - 1), "rank")
    want = N.contract([N.eye_net(n) for n in sh], [[("i", k), ("o", k)] for k in range(d)], [x for k in range(d) for x in (("i", k), ("o", k))])
    S.eq("dense", S.run("to_numpy", lambda: S.m(E, "to_numpy")), want, "identity")
    X, x = mkd(S, "tt", "x", sh)
    y = S.run("E(x)", lambda: S.call(E, X))
    S.eq("E(x)", S.to_numpy(y), x, "image under the identity")
    S.eqtuple("E(x).rank", S.get(y, "rank"), S.get(X, "rank"), "rank of the image")
    for k, (a, b) in enumerate(zip(S.list(S.get(y, "cores")), S.list(S.get(X, "cores")))):
        S.eq(f"core {k}", S.net(a), S.net(b), "core")


def compose(S, d):
    si, sm, so = S.dims(d, name="p"), S.dims(d, name="m"), S.dims(d, name="q")
    A, a, _ = op(S, "A", sm, so)
    B, b, _ = op(S, "B", si, sm)
    X, x = mkd(S, "tt", "x", si)
    S.eq("A(B(x))", S.to_numpy(S.call(A, S.call(B, X))), act(a, act(b, x, d), d), "image")


def sums(S, d, n, xs, ui, uo):
    """sums of maps on a train or on a sum of trains"""
    si, so = S.dims(d, ui, "p"), S.dims(d, uo, "q")
    ops = [op(S, f"M{k}", si, so) for k in range(n)]
    LS = S.cls("tt_gmres", "TTLinearMapSum")
    A = S.run("TTLinearMapSum", lambda: S.call(LS, ListObj([o[0] for o in ops])))
    pairs = [mkd(S, "tt", f"x{k}", si) for k in range(max(xs, 1))]
    X = pairs[0][0] if xs == 0 else S.sum([p[0] for p in pairs])
    y = S.run("A(x)", lambda: S.call(A, X))
    S.eqtuple("shape", S.get(y, "shape"), so, "shape of the image")
    want = None
    for o in ops:
        for p in pairs:
            v = act(o[1], p[1], d)
            want = v if want is None else N.add(want, v)
    S.eq("A(x)", S.to_numpy(y), want, "image under the sum of maps")
    S.true("number of summands", len(S.list(S.get(y, "tensors"))) == n * max(xs, 1), "one summand for each pair of a map and a train")
    # the image can be used again
    if d < 4 and n <= 2 and not ui and not uo and xs <= 2:
        back = [op(S, f"B{k}", so, si) for k in range(2)]
        B = S.call(LS, ListObj([o[0] for o in back]))
        z = S.run("B(A(x))", lambda: S.call(B, y))
        w2 = None
        for o in back:
            v = act(o[1], want, d)
            w2 = v if w2 is None else N.add(w2, v)
        S.eq("B(A(x))", S.to_numpy(z), w2, "image under two sums of maps")
    # an empty perturbation: scaled images
    S.eq("-A(x)", S.to_numpy(S.lib.unop("USub", y)), N.neg(want), "negated image")


def mixed(S, d, mode):
    """sums containing a preconditioner"""
    sh = S.dims(d)
    M, D, _ = op(S, "M", sh, sh)
    Pm = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("B", sh[mode], sh[mode]), sh, mode)
    A = S.run("TTLinearMapSum", lambda: S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([M, Pm])))
    X, x = mkd(S, "tt", "x", sh)
    y = S.run("A(x)", lambda: S.call(A, X))
    ts = S.list(S.get(y, "tensors"))
    S.true("number of summands", len(ts) == 2, "two maps, two summands")
    S.eq("first", S.to_numpy(ts[0]), act(D, x, d), "image under the operator")
    S.eq("second", S.to_numpy(ts[1]), S.to_numpy(S.call(Pm, X)), "image under the preconditioner")


def names(S, d):
    si, so = S.dims(d, name="p"), S.dims(d, name="q")
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([op(S, f"M{k}", si, so)[0] for k in range(2)]))
    S.eqtuple("in_shape", S.get(A, "in_shape"), si, "in_shape")
    S.eqtuple("out_shape", S.get(A, "out_shape"), so, "out_shape")


CASES = []
for d in (1, 2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    us = [()] + [(0,)] + ([(d - 1,)] if d > 1 else []) + ([(1,)] if d > 2 else [])
    for ui in us:
        for uo in us:
            CASES.append(Case("C21", f"algebra_{d}_{ui}_{uo}", algebra, (d, ui, uo, ()), tier=t))
        CASES.append(Case("C21", f"eye_{d}_{ui}_tuple", eye, (d, ui, "tuple"), tier=t))
    CASES.append(Case("C21", f"eye_{d}_list", eye, (d, (), "list"), tier=t))
    if d > 1:
        for ur in ((0,), tuple(range(d - 1))):
            CASES.append(Case("C21", f"algebra_{d}_rank_{len(ur)}", algebra, (d, (), (), ur), tier=t))
    CASES.append(Case("C21", f"compose_{d}", compose, (d,), tier=t))
    CASES.append(Case("C21", f"names_{d}", names, (d,), tier=t))
    for n in (1, 2, 3):
        for xs in (0, 1, 2, 3):
            for ui, uo in (((), ()), ((0,), ()), ((), (d - 1,))):
                CASES.append(Case("C21", f"sum_{d}_{n}_{xs}_{ui}_{uo}", sums, (d, n, xs, ui, uo), tier=t))
    for mode in range(d):
        CASES.append(Case("C21", f"mixed_{d}_{mode}", mixed, (d, mode), tier=t))
