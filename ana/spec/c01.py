"""C01 A sketch depends on the tensor, not on the format it is stored in.

Rule: with the same maps, the Psi/Omega/TT cores inferred for every format equal the contraction of the tensor's
own dense form with the map's sketching matrices (streaming), respectively the cores inferred for the dense format
(orthogonal, HMT); for maps that only exist lazily the sparse sketch equals the contraction of the entries with the
sampled columns the map produces."""
from spec.common import *


def by_definition(S, kinds, fmt, d, unit, left_smaller, unit_rank=False):
    """streaming sketch of ``fmt`` == contraction of its dense form with the maps"""
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh, unit_rank)
    lr, rr = sketch_ranks(S, sh, left_smaller)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    Ls = sketching_matrices(S, L, sh, False)
    Rs = sketching_matrices(S, R, sh, True)
    sk = S.run("stream_sketch", lambda: stream(S, X, lr, rr, L, R))
    Psi, Om = expected_sketch(S, dense_net(S, X), Ls, Rs)
    eq_sketch(S, "stream", sk, Psi, Om)


def lazy(S, kinds, d, unit, left_smaller, as_tuple):
    """sparse sketch == entries contracted with the columns the maps give for the stored positions"""
    sh = S.dims(d, unit)
    X = mk(S, "sparse_t" if as_tuple else "sparse", "X", sh)
    lr, rr = sketch_ranks(S, sh, left_smaller)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    Lm = [S.net(m) for m in S.list(S.m(L, "sketch_sparse", X))]
    Rm = [S.net(m) for m in S.list(S.m(R, "sketch_sparse", X))]
    e = S.net(S.get(X, "entries"))
    nnz = e.shape[0]
    inds = [S.net(r) for r in rows_of(S, X, d)]
    sk = S.run("stream_sketch", lambda: stream(S, X, lr, rr, L, R))
    Psi, Om = [], []
    for mu in range(d):
        nets, labs, out = [e, onehot(S, X, mu, sh, nnz)], [["k"], ["k", "n"]], []
        if mu > 0:
            nets.append(Lm[mu - 1])
            labs.append(["a", "k"])
            out.append("a")
        out.append("n")
        if mu < d - 1:
            nets.append(Rm[mu])
            labs.append(["b", "k"])
            out.append("b")
        p = N.contract(nets, labs, out)
        if mu == 0:
            p = N.reshape(p, (1,) + p.shape)
        if mu == d - 1:
            p = N.reshape(p, p.shape + (1,))
        Psi.append(p)
    for mu in range(d - 1):
        Om.append(N.contract([e, Lm[mu], Rm[mu]], [["k"], ["a", "k"], ["b", "k"]], ["a", "b"]))
    eq_sketch(S, "lazy", sk, Psi, Om)


def rows_of(S, X, d):
    ind = S.get(X, "indices")
    return [S.binop_index(ind, k) if hasattr(S, "binop_index") else S.lib.getitem(ind, k) for k in range(d)]


def onehot(S, X, mu, sh, nnz):
    """(nnz, n_mu) indicator of the mu-th index of each stored entry, as the sketch should use it"""
    r = rows_of(S, X, len(sh))[mu]
    comps = r.comps
    if len(comps) == 1 and not isinstance(sh[mu], int):
        return comps[0][1]
    return N.const_net((nnz, 1), 1)


def _run(S, method, X, lr, rr, L, R):
    if method == "orth":
        return S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R)
    return S.call(S.ns("sketch")["hmt_sketch"], X, rr, drm=R)


def like_dense(S, method, kinds, fmt, d, unit):
    """orthogonal / HMT sketch of ``fmt`` == that of the same tensor stored densely"""
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    D = dense_of(S, X)
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    if method == "hmt":
        rr = lr
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    a = S.run(method, lambda: _run(S, method, X, lr, rr, L, R))
    b = S.run(method + " of dense", lambda: _run(S, method, D, lr, rr, L, R))
    S.eqarrays(method, S.get(a, "cores"), S.get(b, "cores"))


def both(kinds, fmt):
    return all(fmt in DRMS[k][1] for k in kinds)


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []


def tier(d):
    return "quick" if d < 5 else "thorough"


for kinds in ((TT, TT), (DG, DG), (TT, DG), (DG, TT)):
    tag = "".join(k[0] for k in kinds)
    for fmt in FORMATS:
        if not both(kinds, fmt):
            continue
        for d in (2, 3, 4, 5):
            for u in unit_variants(d):
                for ls in (True, False):
                    CASES.append(Case("C01", f"def_{tag}_{fmt}_{d}_{u}_{'l' if ls else 'r'}", by_definition,
                                      (kinds, fmt, d, u, ls), tier=tier(d)))
            if fmt in ("tt", "tucker"):
                CASES.append(Case("C01", f"def_{tag}_{fmt}_{d}_unitrank", by_definition,
                                  (kinds, fmt, d, (), True, True), tier=tier(d)))
        for method in ("orth", "hmt"):
            for d in (2, 3, 4):
                for u in unit_variants(d):
                    if fmt != "dense":
                        CASES.append(Case("C01", f"{method}_{tag}_{fmt}_{d}_{u}", like_dense,
                                          (method, kinds, fmt, d, u)))
for kinds in ((SG, SG), (SS, SS), (SG, TT), (DG, SS), (TT, SG)):
    tag = "".join(k[0] + k[6] for k in kinds)
    for d in (2, 3, 4, 5):
        for u in unit_variants(d):
            for ls in (True, False):
                CASES.append(Case("C01", f"lazy_{tag}_{d}_{u}_{'l' if ls else 'r'}", lazy,
                                  (kinds, d, u, ls, ls), tier=tier(d)))
