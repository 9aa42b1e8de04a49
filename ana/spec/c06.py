"""C06 Blocked sketching equals unblocked sketching, block by block.

Rule: the contractions inferred for a map restricted to rank indices [a, b) are the rows a..b of those inferred for the
full map (every sliceable map, every supported format, left and right); slices
without a start or an end start at the first or end at the last row; the Psi/Omega inferred for a blocked sketch over
a partition of the ranks equal those of the unblocked sketch with the full maps."""
from spec.common import *


def pieces(S, d, name, nblocks, unit=(), empty=()):
    """boundaries of a partition of d-1 symbolic ranks in nblocks blocks"""
    cuts = [(0,) * (d - 1)]
    for b in range(nblocks):
        cuts.append(tuple(P.padd(cuts[-1][k], 0 if (b, k) in empty else 1 if (b, k) in unit else S.sym(f"{name}{b}.{k}", 1)) for k in range(d - 1)))
    return cuts


def kwargs(S, kind, rank, how):
    if kind != "SparseSignDRM" or how is None:
        return {}
    if how == "one":
        z = S.sym("z", 1)
        for r in rank:
            P.add_fact(P.psub(r, z))
        return {"num_non_zero_per_row": z}
    zs = []
    for k, r in enumerate(rank):
        z = S.sym(f"z{k}", 1)
        P.add_fact(P.psub(r, z))
        zs.append(z)
    return {"num_non_zero_per_row": tuple(zs)}


def rank_axis(fmt):
    return 0 if fmt in ("dense", "sparse", "sparse_t") else 1


def sliced(S, kind, fmt, d, unit, transpose, nblocks, nnz=None, transposed_slice=False):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    cuts = pieces(S, d, "c", nblocks)
    rank = cuts[-1]
    D = mk_drm(S, kind, rank, sh, transpose, seed_sym(S), **kwargs(S, kind, rank, nnz))
    meth = SKETCH_METHOD[fmt if fmt != "sparse_t" else "sparse"]
    ax = rank_axis(fmt)
    full = [S.net(m) for m in S.list(S.m(D, meth, X))]
    for b in range(nblocks):
        lo, hi = cuts[b], cuts[b + 1]
        s = S.run("slice", lambda: S.m(D, "slice", lo, hi))
        want = tuple(P.psub(h, l) for l, h in zip(lo, hi))
        S.eqtuple(f"block{b}.rank", S.get(s, "rank")[::-1] if transpose else S.get(s, "rank"), want, "rank of the slice")
        S.eqtuple(f"block{b}.shape", S.get(s, "shape"), sh, "shape of the slice")
        if transposed_slice:
            s = S.get(s, "T")
            got = [S.net(m) for m in S.list(S.m(s, meth, S.get(X, "T")))][::-1]
        else:
            got = [S.net(m) for m in S.list(S.run("sketch", lambda: S.m(s, meth, X)))]
        exp = [N.slice_axis(f, ax, lo[mu], want[mu]) for mu, f in enumerate(full)]
        S.eqarrays(f"block{b}", got, exp)


def opened(S, kind, fmt, d, unit, transpose, end, nnz=None):
    """slices without a start or without an end"""
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    cuts = pieces(S, d, "c", 2)
    rank = cuts[-1]
    D = mk_drm(S, kind, rank, sh, transpose, seed_sym(S), **kwargs(S, kind, rank, nnz))
    meth = SKETCH_METHOD[fmt if fmt != "sparse_t" else "sparse"]
    lo, hi = (cuts[1], rank) if end else (cuts[0], cuts[1])
    a = S.run("slice", lambda: S.m(D, "slice", lo, hi))
    b = S.run("open slice", lambda: S.m(D, "slice", lo, None) if end else S.m(D, "slice", None, hi))
    for nm in ("rank", "rank_min", "rank_max", "true_rank", "shape"):
        S.eqtuple(f"open.{nm}", S.get(b, nm), S.get(a, nm), f"{nm} of the open-ended slice")
    got = [S.net(m) for m in S.list(S.run("sketch", lambda: S.m(b, meth, X)))]
    S.eqarrays("open", got, [S.net(m) for m in S.list(S.m(a, meth, X))])


def blocked(S, kinds, fmt, d, unit, nl, nr, nnz=None, lempty=(), rempty=()):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    lc, rc = pieces(S, d, "l", nl, empty=lempty), pieces(S, d, "r", nr, empty=rempty)
    lr = lc[-1]
    # keep the ranks comparable so that an unblocked sketch exists
    rc[-1] = tuple(P.padd(a, b) for a, b in zip(lr, rc[-1]))
    rr = rc[-1]
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"), **kwargs(S, kinds[0], lr, nnz))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    got = S.run("blocked_stream_sketch", lambda: S.call(S.ns("sketch")["blocked_stream_sketch"], X, L, R, ListObj(lc), ListObj(rc)))
    ref = stream(S, X, lr, rr, L, R)
    p, o = parts(S, ref)
    eq_sketch(S, "blocked", got, [S.net(x) for x in p], [S.net(x) for x in o])
    S.eqtuple("left_rank", S.get(got, "left_rank"), lr, "left_rank")
    S.eqtuple("right_rank", S.get(got, "right_rank"), rr, "right_rank")
    S.eqtuple("shape", S.get(got, "shape"), sh, "shape")


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []
for d in (2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    for u in unit_variants(d)[:3]:
        for kind in DRMS:
            for fmt in DRMS[kind][1]:
                for tr in (False, True):
                    for nz in ((None, "one", "each") if kind == SS else (None,)):
                        for nb in (1, 2, 3):
                            CASES.append(Case("C06", f"slice_{kind[0]}{kind[6]}_{fmt}_{d}_{u}_{tr}_{nb}_{nz}", sliced,
                                              (kind, fmt, d, u, tr, nb, nz), tier=t))
                        CASES.append(Case("C06", f"sliceT_{kind[0]}{kind[6]}_{fmt}_{d}_{u}_{tr}_{nz}", sliced,
                                          (kind, fmt, d, u, tr, 2, nz, True), tier=t))
                        for end in (False, True):
                            CASES.append(Case("C06", f"open_{kind[0]}{kind[6]}_{fmt}_{d}_{u}_{tr}_{end}_{nz}", opened,
                                              (kind, fmt, d, u, tr, end, nz), tier=t))
        for kinds in ((TT, TT), (DG, DG), (SG, SG), (SS, SS), (TT, DG), (DG, TT), (SS, TT), (SG, DG)):
            for fmt in FORMATS + ("sum",):
                f = ("tt", "sparse") if fmt == "sum" else (fmt,)
                if not all(x in DRMS[k][1] for x in f for k in kinds):
                    continue
                for nl, nr in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
                    CASES.append(Case("C06", f"blocked_{kinds[0][0]}{kinds[0][6]}{kinds[1][0]}{kinds[1][6]}_{fmt}_{d}_{u}_{nl}{nr}", blocked,
                                      (kinds, fmt, d, u, nl, nr, "each"), tier=t))
                # blocks without any row for some of the modes
                k = d - 2
                for i, (nl, nr, le, re_) in enumerate(((2, 2, ((0, 0),), ()), (2, 2, ((1, k),), ((1, 0),)), (3, 2, ((1, 0), (1, k)), ((0, k),)),
                                                       (2, 1, (), ()), (2, 2, ((1, k),), ((0, 0),)))):
                    if all(DRMS[kd][2] for kd in kinds):
                        CASES.append(Case("C06", f"gaps_{kinds[0][0]}{kinds[0][6]}{kinds[1][0]}{kinds[1][6]}_{fmt}_{d}_{u}_{i}", blocked,
                                          (kinds, fmt, d, u, nl, nr, "each", le, re_), tier=t))
