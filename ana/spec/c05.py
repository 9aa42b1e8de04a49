"""C05 Orthogonal and HMT sketches return left-orthogonal trains of the asked rank.

Rule: for every core Q_k but the last the inferred Q_k^T Q_k is the identity; the rank is the requested left rank and
the shape the tensor's; the last core equals the contraction of the tensor with Q_0..Q_{d-2}; the represented tensor is
the projection obtained by orthonormalising, mode by mode, the sketched unfolding (times the pseudo-inverse of the
interface matrix for orthogonal sketches) -- compared on the dense form, so any orthonormal basis will do."""
from spec.common import *


def gram(net):
    return N.contract([net, net], [["a", "n", "b"], ["a", "n", "c"]], ["b", "c"])


def project(X, Qs):
    """contract the first modes of dense net X with the cores Qs"""
    cur, labs = X, None
    d = X.ndim
    k = len(Qs)
    nets = [X]
    labs = [[("n", i) for i in range(d)]]
    for i, q in enumerate(Qs):
        if i == 0:
            nets.append(N.reshape(q, q.shape[1:]))
            labs.append([("n", 0), ("b", 1)])
        else:
            nets.append(q)
            labs.append([("b", i), ("n", i), ("b", i + 1)])
    out = ([("b", k)] if k else []) + [("n", i) for i in range(k, d)]
    return N.contract(nets, labs, out)


def check(S, method, X, tt, lr, sh, label=""):
    d = len(sh)
    cores = [S.net(c) for c in S.list(S.get(tt, "cores"))]
    S.eqtuple(label + "rank", S.get(tt, "rank"), lr, "rank of the sketch")
    S.eqtuple(label + "shape", S.get(tt, "shape"), sh, "shape of the sketch")
    for k in range(d - 1):
        S.eq(f"{label}left-orthogonal[{k}]", gram(cores[k]), N.eye_net(lr[k]), f"Q{k}^T Q{k}")
    last = project(dense_net(S, X), cores[:-1])
    last = N.reshape(last, last.shape + (1,))
    if d == 1:
        last = N.reshape(last, (1,) + last.shape)
    S.eq(label + "last core", cores[-1], last, "last core")
    return cores


def expected(S, method, X, lr, Ls, Rs):
    """dense form of the projected tensor"""
    from spec.c04 import contract_tt
    A = dense_net(S, X)
    d = A.ndim
    Qs = []
    for mu in range(d - 1):
        P_ = project(A, Qs)
        axes = ([("b",)] if mu else []) + [("n", i) for i in range(mu, d)]
        psi = N.contract([P_, Rs[mu]], [axes, [("r",)] + [("n", i) for i in range(mu + 1, d)]], axes[:(2 if mu else 1)] + [("r",)])
        if mu == 0:
            psi = N.reshape(psi, (1,) + psi.shape)
        if method == "orth":
            om = N.contract([A, Ls[mu], Rs[mu]],
                            [[("n", k) for k in range(d)], [("a",)] + [("n", k) for k in range(mu + 1)],
                             [("b",)] + [("n", k) for k in range(mu + 1, d)]], [("a",), ("b",)])
            psi = N.contract([psi, S.lib.pinv_net(S.arr(om))], [["a", "n", "b"], ["b", "c"]], ["a", "n", "c"])
        q = S.net(S.lib.qr(S.arr(N.reshape(psi, (P.pmul(psi.shape[0], psi.shape[1]), psi.shape[2]))))[0])
        Qs.append(N.reshape(q, (psi.shape[0], psi.shape[1], q.shape[1])))
    last = project(A, Qs)
    last = N.reshape(last, last.shape + (1,))
    if d == 1:
        last = N.reshape(last, (1,) + last.shape)
    return contract_tt(Qs + [last])


def given(S, method, kinds, fmt, d, unit):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e") if method == "orth" else lr
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    if method == "orth":
        tt = S.run("orthogonal_sketch", lambda: S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R))
    else:
        tt = S.run("hmt_sketch", lambda: S.call(S.ns("sketch")["hmt_sketch"], X, lr, drm=R))
    cores = check(S, method, X, tt, lr, sh)
    if "dense" in DRMS[kinds[0]][1] and "dense" in DRMS[kinds[1]][1]:
        Ls = sketching_matrices(S, L, sh, False) if method == "orth" else None
        Rs = sketching_matrices(S, R, sh, True)
        S.eq("projection", S.m(tt, "to_numpy"), expected(S, method, X, lr, Ls, Rs), "sketched tensor")


def zero(S, method, fmt, d, unit, rank):
    """orthonormal cores also for the zero tensor"""
    sh = S.dims(d, unit)
    X = mk_zero(S, fmt, sh)
    lr = (1,) * (d - 1) if rank == 1 else adm_ranks(S, sh)
    kw = dict(seed=seed_sym(S, "s"))
    if method == "orth":
        tt = S.run("orthogonal_sketch", lambda: S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, grow(S, lr, "e"), **kw))
    else:
        tt = S.run("hmt_sketch", lambda: S.call(S.ns("sketch")["hmt_sketch"], X, lr, **kw))
    check(S, method, X, tt, lr, sh, "zero tensor ")


def by_type(S, method, kinds, fmt, sh, lr, rr, want, how):
    """ranks given in any form, maps built by the library, with concrete sizes"""
    X = mk(S, fmt, "X", sh)
    kw = dict(seed=seed_sym(S, "s"))
    if kinds is not None:
        if method == "orth":
            kw["left_drm_type"] = drm_cls(S, kinds[0])
            kw["right_drm_type"] = drm_cls(S, kinds[1])
        else:
            kw["drm_type"] = drm_cls(S, kinds[1])
    if how == "return":
        kw["return_drm"] = True
    if method == "orth":
        r = S.run("orthogonal_sketch", lambda: S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, rr, **kw))
    else:
        r = S.run("hmt_sketch", lambda: S.call(S.ns("sketch")["hmt_sketch"], X, lr, **kw))
    if how == "return":
        r = S.list(r)
        S.true("return_drm", len(r) == (3 if method == "orth" else 2), f"{len(r)} values are returned")
        tt = r[0]
        drms = r[1:]
        if method == "orth":
            S.eqtuple("left_drm.rank", S.get(drms[0], "rank"), want, "left_drm.rank")
        else:
            S.eqtuple("drm.rank", S.get(drms[0], "rank")[::-1], want, "drm.rank")
    else:
        tt = r
    check(S, method, X, tt, want, sh)


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []
for d in (2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    for u in unit_variants(d):
        for method in ("orth", "hmt"):
            for fmt in FORMATS + ("sum",):
                for kinds in ((TT, TT), (DG, DG), (DG, TT)):
                    f = ("tt", "sparse") if fmt == "sum" else (fmt,)
                    if all(x in DRMS[k][1] for x in f for k in kinds):
                        CASES.append(Case("C05", f"{method}_{kinds[0][0]}{kinds[1][0]}_{fmt}_{d}_{u}", given, (method, kinds, fmt, d, u), tier=t))
            for kinds in ((SG, SG), (SS, SG), (TT, SS)):
                CASES.append(Case("C05", f"{method}_lazy{kinds[0][6]}{kinds[1][6]}_{d}_{u}", given, (method, kinds, "sparse", d, u), tier=t))
            for fmt in FORMATS + ("sum",):
                for rank in (1, None):
                    CASES.append(Case("C05", f"zero_{method}_{fmt}_{d}_{u}_{rank}", zero, (method, fmt, d, u, rank), tier=t))
CONC = [((2, 3, 2), 4, 7, (2, 2)), ((5, 4, 3), 2, 3, (2, 2)), ((2, 2, 2, 2), (2, 9, 2), (3, 10, 3), (2, 4, 2)),
        ((3, 1, 4), 3, 5, (3, 3)), ((1, 3, 2), 2, 4, (1, 2)), ((7, 2), 5, 9, (2,)), ((2, 5, 5, 2), 3, 6, (2, 3, 2)),
        ((2, 2, 3, 2, 2), 5, 6, (2, 4, 4, 2))]
for i, (sh, lr, rr, want) in enumerate(CONC):
    for method in ("orth", "hmt"):
        for kinds in (None, (TT, DG), (DG, DG), (TT, TT)):
            for fmt in ("tt", "dense", "sparse", "sum"):
                if kinds and not all(x in DRMS[k][1] for k in kinds for x in (("tt", "sparse") if fmt == "sum" else (fmt,))):
                    continue
                for how in ("plain", "return"):
                    CASES.append(Case("C05", f"bytype_{method}_{i}_{kinds and kinds[0][0] + kinds[1][0]}_{fmt}_{how}", by_type,
                                      (method, kinds, fmt, sh, lr, rr, want, how)))
