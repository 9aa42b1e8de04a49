"""C03 Transposition reverses every object consistently.

Rule: the inferred dense form, shape and ranks of X.T are those of X with reversed axes; X.T.T has the parameters of X;
sketch(X).T has the reversed cores, ranks and interface matrices; sketch(X.T) with exchanged transposed maps equals
sketch(X).T; an updated transposed sketch equals the transpose of the updated sketch."""
from spec.common import *


def rev(net):
    return N.transpose(net, tuple(range(net.ndim))[::-1])


def tensor(S, fmt, d, unit):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    A = dense_net(S, X)
    T = S.run("T", lambda: S.get(X, "T"))
    S.eqtuple("shape", S.get(T, "shape"), sh[::-1], "X.T.shape")
    S.eq("dense", S.m(T, "to_numpy"), rev(A), "X.T")
    if fmt in ("tt", "tucker"):
        S.eqtuple("rank", S.get(T, "rank"), S.get(X, "rank")[::-1], "X.T.rank")
    if fmt == "cp":
        S.eqint("rank", S.get(T, "rank"), S.get(X, "rank"), "X.T.rank")
    if fmt == "sparse":
        S.eqint("nnz", S.get(T, "nnz"), S.get(X, "nnz"), "X.T.nnz")
        if d > 1:
            idx = IntStack(S.index_rows("q", sh[::-1], S.sym("m")), None) if False else None
    if fmt in ("sum", "nested"):
        S.eqint("num_summands", S.get(T, "num_summands"), S.get(X, "num_summands"), "num_summands")
    S.eqint("size", S.get(T, "size"), S.get(X, "size"), "X.T.size")
    TT = S.get(T, "T")
    S.eqtuple("T.T.shape", S.get(TT, "shape"), sh, "X.T.T.shape")
    S.eq("T.T", S.m(TT, "to_numpy"), A, "X.T.T")
    S.eq("dense after", S.m(X, "to_numpy"), A, "X after X.T")
    if fmt in ("tt", "cp"):
        S.eqarrays("T.T.cores", S.get(TT, "cores"), S.get(X, "cores"))
    if fmt == "tucker":
        S.eqarrays("T.T.factors", S.get(TT, "factors"), S.get(X, "factors"))


def container(S, d):
    sh = S.dims(d)
    lr, rr = sketch_ranks(S, sh)
    ll, r_ = (1,) + lr, rr + (1,)
    P_ = [S.atom(f"P{k}", ll[k], sh[k], r_[k]) for k in range(d)]
    O_ = [S.atom(f"O{k}", lr[k], rr[k]) for k in range(d - 1)]
    A = S.call(S.cls("sketch_container", "SketchContainer"), ListObj(list(P_)), ListObj(list(O_)))
    T = S.get(A, "T")
    S.eqarrays("Psi", S.get(T, "Psi_cores"), [rev(p.net) for p in P_[::-1]])
    S.eqarrays("Omega", S.get(T, "Omega_mats"), [rev(p.net) for p in O_[::-1]])
    S.eqtuple("shape", S.get(T, "shape"), sh[::-1], "shape")
    S.eqtuple("left_rank", S.get(T, "left_rank"), rr[::-1], "left_rank")
    S.eqtuple("right_rank", S.get(T, "right_rank"), lr[::-1], "right_rank")


def sketches(S, kinds, fmt, d, unit, ls):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    Y = mk(S, fmt, "Y", sh)
    lr, rr = sketch_ranks(S, sh, ls)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    sk = stream(S, X, lr, rr, L, R)
    p, o = parts(S, sk)
    wp = [rev(S.net(x)) for x in p[::-1]]
    wo = [rev(S.net(x)) for x in o[::-1]]
    T = S.run("sketch.T", lambda: S.get(sk, "T"))
    eq_sketch(S, "sketch.T", T, wp, wo)
    S.eqtuple("sketch.T.shape", S.get(T, "shape"), sh[::-1], "sketch.T.shape")
    S.eqtuple("sketch.T.left_rank", S.get(T, "left_rank"), rr[::-1], "sketch.T.left_rank")
    S.eqtuple("sketch.T.right_rank", S.get(T, "right_rank"), lr[::-1], "sketch.T.right_rank")
    # transposed maps
    LT, RT = S.run("L.T", lambda: S.get(L, "T")), S.run("R.T", lambda: S.get(R, "T"))
    S.eqtuple("L.T.shape", S.get(LT, "shape"), sh[::-1], "left_drm.T.shape")
    S.eqtuple("R.T.shape", S.get(RT, "shape"), sh[::-1], "right_drm.T.shape")
    S.true("L.T.transpose", S.get(LT, "transpose"), "transposed left map is no right map")
    S.true("R.T.transpose", S.get(RT, "transpose") is False, "transposed right map is no left map")
    XT = S.get(X, "T")
    # a sketch of the transposed tensor by the exchanged maps
    b = S.run("sketch of X.T", lambda: stream(S, XT, rr[::-1], lr[::-1], RT, LT))
    eq_sketch(S, "sketch(X.T)", b, wp, wo)
    # goes on working
    upd = S.run("update of the transposed sketch", lambda: S.binop("Add", T, S.get(Y, "T")))
    ref = S.binop("Add", sk, Y)
    p2, o2 = parts(S, ref)
    eq_sketch(S, "update", upd, [rev(S.net(x)) for x in p2[::-1]], [rev(S.net(x)) for x in o2[::-1]])
    TT = S.run("sketch.T.T", lambda: S.get(T, "T"))
    eq_sketch(S, "sketch.T.T", TT, p, o)
    S.eqtuple("sketch.T.T.left_rank", S.get(TT, "left_rank"), lr, "sketch.T.T.left_rank")
    S.eqtuple("sketch.T.T.shape", S.get(TT, "shape"), sh, "sketch.T.T.shape")
    # maps twice transposed are the maps
    c = S.run("twice transposed maps", lambda: stream(S, X, lr, rr, S.get(LT, "T"), S.get(RT, "T")))
    eq_sketch(S, "drm.T.T", c, p, o)


def sign_nnz(S, d):
    """sparse sign maps with their own number of nonzeros per mode"""
    sh = S.dims(d)
    X = mk(S, "sparse", "X", sh)
    lr, rr = sketch_ranks(S, sh)
    zl, zr = [], []
    for k in range(d - 1):
        for lst, r, nm in ((zl, lr[k], "zl"), (zr, rr[k], "zr")):
            z = S.sym(f"{nm}{k}", 1)
            P.add_fact(P.psub(r, z))
            lst.append(z)
    L = mk_drm(S, SS, lr, sh, False, seed_sym(S, "s1"), num_non_zero_per_row=tuple(zl))
    R = mk_drm(S, SS, rr, sh, True, seed_sym(S, "s2"), num_non_zero_per_row=tuple(zr))
    sk = stream(S, X, lr, rr, L, R)
    p, o = parts(S, sk)
    wp = [rev(S.net(x)) for x in p[::-1]]
    wo = [rev(S.net(x)) for x in o[::-1]]
    b = S.run("sketch of X.T", lambda: stream(S, S.get(X, "T"), rr[::-1], lr[::-1], S.get(R, "T"), S.get(L, "T")))
    eq_sketch(S, "sketch(X.T)", b, wp, wo)


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
def maps(S, kind, fmt, d, tr, form, pal):
    """transposing a map, or a part of it, and sketching the transposed tensor reverses the list of sketching matrices"""
    sh = S.dims(d)
    if pal:
        sh = sh[:(d + 1) // 2] + sh[:d // 2][::-1]
    X = mkd(S, fmt, "X", sh)[0]
    lr = S.ranks(sh, "r")
    if pal:
        lr = lr[:d // 2] + lr[:(d - 1) // 2][::-1]
    D = mk_drm(S, kind, lr, sh, tr, seed_sym(S, "s"))
    rev_ = lambda t: tuple(t)[::-1]
    a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
    if pal:
        a = a[:d // 2] + a[:(d - 1) // 2][::-1]
    for r, x in zip(lr, a):
        P.add_fact(P.psub(r, x))
    z = (0,) * (d - 1)
    both = []
    if form == "whole":
        M = D
    elif form == "tail":
        M = S.run("slice", lambda: S.m(D, "slice", a, lr))
        both.append(("slice of T", lambda: S.m(S.get(D, "T"), "slice", rev_(a), rev_(lr))))
    elif form == "head":
        M = S.run("slice", lambda: S.m(D, "slice", z, a))
        both.append(("slice of T", lambda: S.m(S.get(D, "T"), "slice", z, rev_(a))))
    else:
        big = grow(S, lr, "g")
        M = S.run("increase", lambda: S.m(D, "increase_rank", big))
        both.append(("increased T", lambda: S.m(S.get(D, "T"), "increase_rank", rev_(big))))
    m = SKETCH_METHOD[fmt]
    want = [S.net(x) for x in S.run("sketch", lambda: S.list(S.m(M, m, X)))]
    T = S.run("T", lambda: S.get(M, "T"))
    XT = S.get(X, "T")
    S.eqtuple("shape", S.get(T, "shape"), sh[::-1], "shape of the transposed map")
    S.eqtuple("rank", S.get(T, "rank"), S.get(M, "rank"), "rank of the transposed map")
    S.true("side", S.get(T, "transpose") is (not tr), "the transposed map sketches from the same side")
    for n, f in [("T", lambda: T)] + both:
        got = [S.net(x) for x in S.run(n, lambda: S.list(S.m(f(), m, XT)))]
        S.true(f"{n} number", len(got) == len(want), f"{len(got)} sketching matrices instead of {len(want)}")
        for k, (g, w) in enumerate(zip(got[::-1], want)):
            if fmt in ("dense", "tucker"):
                # the rows (or columns) are indexed by the modes in the order of the transposed tensor: compare norms mode by mode
                S.eqtuple(f"{n} shape {k}", g.shape, w.shape, "shape of a sketching matrix")
            S.eq(f"{n} {k}", g, w, "sketching matrix for the transposed tensor")
    again = [S.net(x) for x in S.list(S.m(S.get(T, "T"), m, X))]
    for k, (g, w) in enumerate(zip(again, want)):
        S.eq(f"T.T {k}", g, w, "sketching matrix of the map transposed twice")


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    for u in (unit_variants(d) if d > 1 else [()]):
        for fmt in FORMATS + ("sum", "sparse_t"):
            CASES.append(Case("C03", f"tensor_{fmt}_{d}_{u}", tensor, (fmt, d, u), tier=t))
    if d > 1:
        CASES.append(Case("C03", f"container_{d}", container, (d,), tier=t))
        CASES.append(Case("C03", f"nnz_{d}", sign_nnz, (d,), tier=t))
        for kinds in ((TT, TT), (DG, DG), (SG, SG), (SS, SS), (TT, DG), (SG, TT)):
            for fmt in FORMATS:
                if not all(fmt in DRMS[k][1] for k in kinds):
                    continue
                for u in unit_variants(d)[: 2]:
                    for ls in (True, False):
                        CASES.append(Case("C03", f"sk_{kinds[0][0]}{kinds[0][6]}{kinds[1][0]}{kinds[1][6]}_{fmt}_{d}_{u}_{ls}", sketches,
                                          (kinds, fmt, d, u, ls), tier=t))

for kind in DRMS:
    fm, sl, inc = DRMS[kind][1:]
    for fmt in fm:
        for d in (2, 3, 4):
            for tr in (False, True):
                for form in ("whole",) + (("head", "tail") if sl else ()) + (("increased",) if inc else ()):
                    for pal in (False, True):
                        CASES.append(Case("C03", f"map_{kind}_{fmt}_{d}_{tr}_{form}_{pal}", maps, (kind, fmt, d, tr, form, pal), tier="quick" if d < 4 else "thorough"))
