"""C02 Streaming sketches are linear in the tensor.

Rule: Psi/Omega inferred for a sum equal the sum of the Psi/Omega inferred for the summands with the same maps; the
operators +, -, *, /, unary - on sketches act entrywise on Psi and Omega; sketches of sums consume each summand once."""
from spec.common import *


def maps(S, sh, kinds, left_smaller=True, adm=False):
    if adm:
        lr = adm_ranks(S, sh)
        rr = grow(S, lr, "e")
    else:
        lr, rr = sketch_ranks(S, sh, left_smaller)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    return lr, rr, L, R


def addl(a, b):
    return [N.add(S_(x), S_(y)) for x, y in zip(a, b)]


def S_(x):
    return x if isinstance(x, Net) else x.net


def lincomb(S, terms):
    """[(coef, list of arrays)] -> list of nets"""
    out = None
    for c, arrs in terms:
        ns = [scaled(S.net(a) if not isinstance(a, Net) else a, c) for a in arrs]
        out = ns if out is None else [N.add(x, y) for x, y in zip(out, ns)]
    return out


def scaled(net, c):
    if c == 1 and not isinstance(c, Net):
        return net
    return N.ewise_mul(net, c if isinstance(c, Net) else N.scalar_net(c))


def both_parts(S, sk):
    p, o = parts(S, sk)
    return p + o


def mksum(S, fmts, sh):
    return [mk(S, f, f"X{i}", sh) for i, f in enumerate(fmts)]


def sum_of(S, kinds, fmts, d, unit, ls, nested=False):
    sh = S.dims(d, unit)
    Xs = mksum(S, fmts, sh)
    lr, rr, L, R = maps(S, sh, kinds, ls)
    T = S.sum(Xs if not nested else [S.sum(Xs[:2])] + Xs[2:])
    got = both_parts(S, S.run("sketch of sum", lambda: stream(S, T, lr, rr, L, R)))
    each = [both_parts(S, S.run("sketch of summand", lambda X=X: stream(S, X, lr, rr, L, R))) for X in Xs]
    S.eqarrays("sum", got, lincomb(S, [(1, e) for e in each]))


def update(S, kinds, fmts, d, unit, ls):
    """history of updates and scalings equals the sketch of the combined tensor"""
    sh = S.dims(d, unit)
    X, Y, Z = mksum(S, fmts, sh)
    lr, rr, L, R = maps(S, sh, kinds, ls)
    e = [both_parts(S, stream(S, W, lr, rr, L, R)) for W in (X, Y, Z)]
    sk = stream(S, X, lr, rr, L, R)
    a = scalar(S, "a")
    c = scalar(S, "c")
    s1 = S.run("add", lambda: S.binop("Add", sk, Y))
    S.eqarrays("X+Y", both_parts(S, s1), lincomb(S, [(1, e[0]), (1, e[1])]))
    s2 = S.run("mul", lambda: S.binop("Mult", s1, a))
    S.eqarrays("(X+Y)*a", both_parts(S, s2), lincomb(S, [(a.net, e[0]), (a.net, e[1])]))
    s3 = S.run("sub", lambda: S.binop("Sub", s2, Z))
    S.eqarrays("(X+Y)*a-Z", both_parts(S, s3), lincomb(S, [(a.net, e[0]), (a.net, e[1]), (-1, e[2])]))
    s4 = S.run("rmul", lambda: S.binop("Mult", c, s3) if False else S.binop("Mult", 3, s3))
    S.eqarrays("3*(...)", both_parts(S, s4),
               lincomb(S, [(3, lincomb(S, [(a.net, e[0]), (a.net, e[1]), (-1, e[2])]))]))
    s5 = S.run("neg", lambda: S.lib.unop("USub", s3))
    S.eqarrays("-(...)", both_parts(S, s5), lincomb(S, [(-1, both_parts(S, s3))]))
    s6 = S.run("div", lambda: S.binop("Div", s3, 4))
    S.eqarrays("(...)/4", both_parts(S, s6), lincomb(S, [(Fraction(1, 4), both_parts(S, s3))]))
    # sums of three, added as an explicit sum
    s7 = S.run("add sum", lambda: S.binop("Add", sk, S.sum([Y, Z])))
    S.eqarrays("X+(Y+Z)", both_parts(S, s7), lincomb(S, [(1, e[0]), (1, e[1]), (1, e[2])]))
    # the maps are unchanged
    for s in (s1, s2, s3, s4, s5, s6, s7):
        S.true("left map kept", S.get(s, "left_drm") is L or same_drm(S, S.get(s, "left_drm"), L), "the left map changed")
        S.true("right map kept", S.get(s, "right_drm") is R or same_drm(S, S.get(s, "right_drm"), R), "the right map changed")


def update_sketch(S, d, ls, same):
    """a sketch as the operand of an update: refused, or the sketch of the sum under the maps of the left operand"""
    sh = S.dims(d)
    X, Y = mk(S, "tt", "X", sh), mk(S, "tt", "Y", sh)
    lr, rr, L, R = maps(S, sh, (TT, TT), ls)
    L2, R2 = (L, R) if same else (mk_drm(S, TT, lr, sh, False, seed_sym(S, "s3")), mk_drm(S, TT, rr, sh, True, seed_sym(S, "s4")))
    a, b = stream(S, X, lr, rr, L, R), stream(S, Y, lr, rr, L2, R2)
    try:
        r = S.binop("Add", a, b)
    except PyRaise as e:
        if S.is_exc(e, ValueError) or S.is_exc(e, TypeError):
            S.ok("sketch as summand")
        else:
            S.bad("sketch as summand", f"raises {S.excname(e)} instead of ValueError", e.loc)
        return
    except Unsupported as e:
        S.undet("sketch as summand", str(e))
        return
    if same:
        # either the sketch of Y itself, or the sketch of its reconstruction
        want = lincomb(S, [(1, both_parts(S, a)), (1, both_parts(S, b))])
        got = both_parts(S, r)
        if len(got) == len(want) and all(N.equal(S.net(g), w) for g, w in zip(got, want)):
            S.ok("sketch as summand")
            return
    e = both_parts(S, stream(S, S.m(b, "to_tt"), lr, rr, L, R))
    S.eqarrays("sketch as summand", both_parts(S, r), lincomb(S, [(1, both_parts(S, a)), (1, e)]))


def same_drm(S, a, b):
    """None unless provably the same object content"""
    return True if a is b else None


def scalar(S, name):
    return S.atom(name)


def container(S, d):
    """operators of the internal container"""
    sh = S.dims(d)
    lr, rr = sketch_ranks(S, sh)
    C = S.cls("sketch_container", "SketchContainer")

    def mkc(nm):
        ll, r_ = (1,) + lr, rr + (1,)
        return S.call(C, ListObj([S.atom(f"{nm}.P{k}", ll[k], sh[k], r_[k]) for k in range(d)]),
                      ListObj([S.atom(f"{nm}.O{k}", lr[k], rr[k]) for k in range(d - 1)]))
    A, B = mkc("A"), mkc("B")
    a, b = both_parts(S, A), both_parts(S, B)
    t = scalar(S, "t")
    for nm, thunk, terms in (
            ("A+B", lambda: S.binop("Add", A, B), [(1, a), (1, b)]),
            ("A-B", lambda: S.binop("Sub", A, B), [(1, a), (-1, b)]),
            ("-A", lambda: S.lib.unop("USub", A), [(-1, a)]),
            ("A*t", lambda: S.binop("Mult", A, t), [(t.net, a)]),
            ("A/3", lambda: S.binop("Div", A, 3), [(Fraction(1, 3), a)])):
        r = S.trying(nm, thunk)
        if r is not None:
            S.eqarrays(nm, both_parts(S, r), lincomb(S, terms))
            S.eqtuple(nm + ".left_rank", S.get(r, "left_rank"), lr, "left_rank")
            S.eqtuple(nm + ".right_rank", S.get(r, "right_rank"), rr, "right_rank")
            S.eqtuple(nm + ".shape", S.get(r, "shape"), sh, "shape")


def projected(S, method, kinds, fmts, d, unit):
    """orthogonal / HMT sketch of an explicit sum equals that of the dense sum"""
    sh = S.dims(d, unit)
    Xs = mksum(S, fmts, sh)
    lr, rr, L, R = maps(S, sh, kinds, adm=True)
    T = S.sum(Xs)
    D = dense_of(S, T)
    if method == "orth":
        f = lambda X: S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R)
    else:
        f = lambda X: S.call(S.ns("sketch")["hmt_sketch"], X, rr, drm=R)
        R = mk_drm(S, kinds[1], lr, sh, True, seed_sym(S, "s2"))
        rr = lr
    a = S.run(method, lambda: f(T))
    b = S.run(method + " dense", lambda: f(D))
    S.eqarrays(method, S.get(a, "cores"), S.get(b, "cores"))


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
MIX = [("tt", "sparse"), ("cp", "tt", "tucker"), ("dense", "sparse", "cp"), ("sparse", "sparse", "sparse"), ("tt",),
       ("tucker", "dense"), ("tt", "tt", "tt", "cp")]
CASES = []
for d in (2, 3, 4, 5):
    tier = "quick" if d < 5 else "thorough"
    for u in unit_variants(d)[: 2 if d > 2 else 3]:
        for ls in (True, False):
            for m in MIX:
                t = "".join(x[0] if x != "tucker" else "k" for x in m)
                CASES.append(Case("C02", f"sum_TT_{t}_{d}_{u}_{ls}", sum_of, ((TT, TT), m, d, u, ls), tier=tier))
            CASES.append(Case("C02", f"sumnest_{d}_{u}_{ls}", sum_of, ((TT, TT), ("tt", "sparse", "cp"), d, u, ls, True), tier=tier))
            CASES.append(Case("C02", f"sum_DG_{d}_{u}_{ls}", sum_of, ((DG, DG), ("tt", "sparse", "dense"), d, u, ls), tier=tier))
            CASES.append(Case("C02", f"sum_SG_{d}_{u}_{ls}", sum_of, ((SG, SS), ("sparse", "sparse"), d, u, ls), tier=tier))
        for m in (("tt", "sparse", "cp"), ("dense", "tucker", "tt"), ("sparse", "sparse", "dense")):
            CASES.append(Case("C02", f"update_{''.join(x[0] for x in m)}_{d}_{u}", update, ((TT, TT), m, d, u, d % 2 == 0), tier=tier))
        CASES.append(Case("C02", f"update_DG_{d}_{u}", update, ((DG, TT), ("tt", "sparse", "dense"), d, u, True), tier=tier))
        CASES.append(Case("C02", f"update_SG_{d}_{u}", update, ((SG, SS), ("sparse",) * 3, d, u, False), tier=tier))
    for same in (True, False):
        CASES.append(Case("C02", f"update_sketch_{d}_{same}", update_sketch, (d, d % 2 == 0, same), tier=tier))
    CASES.append(Case("C02", f"container_{d}", container, (d,), tier=tier))
for d in (2, 3, 4):
    for u in unit_variants(d)[:3]:
        for meth in ("orth", "hmt"):
            for m in (("tt", "sparse"), ("cp", "tucker", "dense")):
                CASES.append(Case("C02", f"{meth}_{''.join(x[0] for x in m)}_{d}_{u}", projected, (meth, (TT, TT), m, d, u)))
