"""C07 Increasing the rank of a sketch extends it.

Rule: Psi/Omega inferred for increase_rank equal those of a streaming sketch with the enlarged maps; their leading block
is the old sketch; the enlarged map sliced to the old ranks acts as the old map; maps that cannot be enlarged lead to
ValueError on every path and no effect on the sketch."""
from spec.common import *


def grown(S, lr, rr, d, flat):
    """new ranks; in the mode ``flat`` the rank stays"""
    nl = tuple(r if k == flat else P.padd(r, S.sym(f"gl{k}", 1)) for k, r in enumerate(lr))
    nr = tuple(r if k == flat and False else P.padd(r, P.padd(S.sym(f"gr{k}", 1), P.psub(nl[k], lr[k]))) for k, r in enumerate(rr))
    return nl, nr


def increase(S, kinds, fmt, d, unit, ls, flat, history, times=1):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    lr, rr = sketch_ranks(S, sh, True)
    nl, nr = grown(S, lr, rr, d, flat)
    if not ls:
        lr, rr, nl, nr = rr, lr, nr, nl
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    sk = stream(S, X, lr, rr, L, R)
    if history == "T":
        sk = S.get(sk, "T")
        X = S.get(X, "T")
        sh, lr, rr, nl, nr = sh[::-1], rr[::-1], lr[::-1], nr[::-1], nl[::-1]
        L, R = S.get(R, "T"), S.get(L, "T")
    p0, o0 = parts(S, sk)
    p0, o0 = [S.net(x) for x in p0], [S.net(x) for x in o0]
    S.freeze(sk, "the sketch")
    S.freeze(X, "the tensor")
    a, b = (nl, nr) if history != "list" else (ListObj(list(nl)), ListObj(list(nr)))
    mark = len(S.I.events)
    big = S.run("increase_rank", lambda: S.m(sk, "increase_rank", X, a, b))
    S.mutations("operands kept", mark)
    S.eqtuple("left_rank", S.get(big, "left_rank"), nl, "left_rank")
    S.eqtuple("right_rank", S.get(big, "right_rank"), nr, "right_rank")
    L2, R2 = S.get(big, "left_drm"), S.get(big, "right_drm")
    ref = S.run("fresh sketch", lambda: stream(S, X, nl, nr, L2, R2))
    pr, orr = parts(S, ref)
    eq_sketch(S, "fresh", big, [S.net(x) for x in pr], [S.net(x) for x in orr])
    # leading blocks
    p, o = parts(S, big)
    for k in range(d):
        n = S.net(p[k])
        if k > 0:
            n = N.slice_axis(n, 0, 0, lr[k - 1])
        if k < d - 1:
            n = N.slice_axis(n, 2, 0, rr[k])
        S.eq(f"leading block of Psi[{k}]", n, p0[k])
    for k in range(d - 1):
        n = N.slice_axis(N.slice_axis(S.net(o[k]), 0, 0, lr[k]), 1, 0, rr[k])
        S.eq(f"leading block of Omega[{k}]", n, o0[k])
    # the old maps are restrictions of the new ones
    for M, M2, r, nm in ((L, L2, lr, "left"), (R, R2, rr, "right")):
        s = S.m(M2, "slice", (0,) * (d - 1), tuple(r))
        meth = SKETCH_METHOD[fmt if fmt != "sum" else "sparse"]
        if fmt == "sum":
            continue
        S.eqarrays(f"{nm} map", S.list(S.m(s, meth, X)), S.list(S.m(M, meth, X)))


def refused(S, kinds, d, ls):
    sh = S.dims(d)
    X = mk(S, "sparse", "X", sh)
    lr, rr = sketch_ranks(S, sh, ls)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    sk = stream(S, X, lr, rr, L, R)
    S.freeze(sk, "the sketch")
    mark = len(S.I.events)
    S.raises("refused", ValueError, lambda: S.m(sk, "increase_rank", X, grow(S, lr, "a"), grow(S, rr, "b")),
             f"for maps {kinds}")
    S.mutations("untouched", mark)


def drm_increase(S, kind, d, unit, transpose):
    """DRM.increase_rank keeps shape, side, seed; extends the map"""
    sh = S.dims(d, unit)
    r = S.ranks(sh, "r")
    nr = grow(S, r, "g")
    D = mk_drm(S, kind, r, sh, transpose, seed_sym(S))
    B = S.run("increase_rank", lambda: S.m(D, "increase_rank", nr))
    S.eqtuple("rank", S.get(B, "rank")[::-1] if transpose else S.get(B, "rank"), nr, "rank")
    S.eqtuple("shape", S.get(B, "shape"), sh, "shape")
    S.true("side", S.get(B, "transpose") is transpose, "the side of the map changed")
    X = mk(S, "sparse", "X", sh)
    a = [S.net(m) for m in S.list(S.m(D, "sketch_sparse", X))]
    b = [S.net(m) for m in S.list(S.m(B, "sketch_sparse", X))]
    S.eqarrays("rows", [N.slice_axis(y, 0, 0, r[k]) for k, y in enumerate(b)], a)


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []
for d in (2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    for u in unit_variants(d):
        for kinds in ((DG, DG), (SG, SG), (DG, SG), (SG, DG)):
            for fmt in ("sparse", "dense", "tt", "sum"):
                f = ("tt", "sparse") if fmt == "sum" else (fmt,)
                if not all(x in DRMS[k][1] for x in f for k in kinds):
                    continue
                for ls in (True, False):
                    for h in ("plain", "T", "list"):
                        for flat in (None, 0):
                            if flat is not None and h == "list":
                                continue
                            CASES.append(Case("C07", f"inc_{kinds[0][0]}{kinds[1][0]}_{fmt}_{d}_{u}_{ls}_{h}_{flat}", increase,
                                              (kinds, fmt, d, u, ls, flat, h), tier=t))
        for kind in (DG, SG):
            for tr in (False, True):
                CASES.append(Case("C07", f"drm_{kind[0]}_{d}_{u}_{tr}", drm_increase, (kind, d, u, tr), tier=t))
    for k1 in (TT, SS, DG, SG):
        for k2 in (TT, SS, DG, SG):
            if k1 in (TT, SS) or k2 in (TT, SS):
                CASES.append(Case("C07", f"refused_{k1[0]}{k1[6]}{k2[0]}{k2[6]}_{d}", refused, ((k1, k2), d, d % 2 == 0), tier=t))
