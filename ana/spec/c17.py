"""C17 TT-SVD.

Rule: with the SVD as an uninterpreted factorisation, the dense form inferred for tt_svd(X, rank) equals the dense form of the
sweep of the specification (project on the leading left singular vectors of every unfolding, mode by mode), for every format and
every way to give the rank; the Gram networks of all cores but the last are identities; the inferred ranks are the admissible part
of the bound; without a bound the inferred dense form is that of the tensor."""
from spec.common import *
from spec.c05 import gram, project


def sweep(S, A, bound):
    """cores by definition"""
    lib = S.lib
    d = A.ndim
    Qs = []
    cur = A                                  # contraction of A with the cores found so far
    for k in range(d - 1):
        rows = A.shape[0] if k == 0 else P.pmul(cur.shape[0], A.shape[k])
        cols = 1
        for n in A.shape[k + 1:]:
            cols = P.pmul(cols, n)
        U, s, V = (S.net(x) for x in lib.svd(S.arr(N.reshape(cur, (rows, cols))), full_matrices=False))
        r = U.shape[1] if bound is None else P.pmin(U.shape[1], bound[k])
        prev = 1 if k == 0 else Qs[-1].shape[2]
        Qs.append(N.reshape(N.slice_axis(U, 1, 0, r), (prev, A.shape[k], r)))
        cur = N.contract([N.slice_axis(s, 0, 0, r), N.slice_axis(V, 0, 0, r)], [["a"], ["a", "n"]], ["a", "n"])
        cur = N.reshape(cur, (r,) + A.shape[k + 1:])
    last = N.reshape(cur, cur.shape + (1,))
    return Qs + [last]


def decompose(S, fmt, d, unit, rk, how):
    sh = S.dims(d, unit) if isinstance(d, int) else d
    d = len(sh)
    if fmt.startswith("zero "):
        X, x = mk_zero(S, fmt[5:], sh), N.zero_net(sh)
    else:
        X, x = mkd(S, fmt, "X", sh)
    args, kw = [X], {}
    b = None
    if rk == "adm":
        b = adm_ranks(S, sh)
    elif rk == "free":
        b = tuple(S.sym(f"b{k}", 1) for k in range(d - 1))
    elif isinstance(rk, int):
        b = (rk,) * (d - 1)
    elif rk is not None:
        b = rk
    if how == "int":
        args.append(b[0])
    elif how == "list":
        args.append(ListObj(list(b)))
    elif how == "kw":
        kw["rank"] = b
    elif how == "none":
        args.append(None)
    elif b is not None:
        args.append(b)
    Y = S.run("tt_svd", lambda: S.call(S.ns("tt_svd")["tt_svd"], *args, **kw))
    S.true("type", S.I.isinstance_(Y, S.cls("tensor", "TensorTrain")),
           f"a {S.desc(Y)} is returned")
    cs = [S.net(c) for c in S.list(S.get(Y, "cores"))]
    S.true("cores", len(cs) == d, f"{len(cs)} cores for {d} modes")
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape")
    got = tuple(c.shape[2] for c in cs[:-1])
    S.eqtuple("rank", S.get(Y, "rank"), got, "reported rank")
    for k in range(d - 1):
        S.eq(f"left-orthogonal[{k}]", gram(cs[k]), N.eye_net(got[k]), f"Q{k}^T Q{k}")
        if b is not None:
            S.ge(f"bound [{k}]", b[k], got[k], "rank bound and rank")
        S.ge(f"at least one [{k}]", got[k], 1, "rank and one")
    last = project(x, cs[:-1])
    S.eq("last core", cs[-1], N.reshape(last, last.shape + (1,)), "last core")
    y = S.run("to_numpy", lambda: S.to_numpy(Y))
    if b is None:
        S.eq("reproduced", y, x, "tensor without a rank bound")
        return
    trimmed = b if rk == "adm" else S.call(S.ns("utils")["process_tt_rank"], b, sh, True)
    want = sweep(S, x, trimmed)
    if rk == "adm":
        S.eqtuple("asked rank", S.get(Y, "rank"), b, "rank for an admissible request")
    S.eqtuple("ranks", S.get(Y, "rank"), tuple(c.shape[2] for c in want[:-1]), "rank")
    S.eq("projection", y, contract_tt(want), "projected tensor")


CASES = []
FM = ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested", "stt")
for d in (2, 3, 4, 5):
    for fmt in FM:
        t = "quick" if d < 5 and not (fmt in ("stt", "nested") and d > 3) else "thorough"
        for u in unit_variants(d):
            CASES.append(Case("C17", f"none_{fmt}_{d}_{u}", decompose, (fmt, d, u, None, "pos"), tier=t))
            CASES.append(Case("C17", f"adm_{fmt}_{d}_{u}", decompose, (fmt, d, u, "adm", "pos"), tier=t))
            CASES.append(Case("C17", f"adm_kw_{fmt}_{d}_{u}", decompose, (fmt, d, u, "adm", "kw"), tier="thorough"))
            CASES.append(Case("C17", f"adm_list_{fmt}_{d}_{u}", decompose, (fmt, d, u, "adm", "list"), tier=t if fmt in ("dense", "tt") else "thorough"))
            if fmt in ("dense", "sparse", "cp"):
                CASES.append(Case("C17", f"one_{fmt}_{d}_{u}", decompose, (fmt, d, u, 1, "int"), tier=t))
                CASES.append(Case("C17", f"none2_{fmt}_{d}_{u}", decompose, (fmt, d, u, None, "none"), tier=t))
    for fmt in ("dense", "sparse", "tt", "cp", "tucker", "sum"):
        for u in ((), (0,)):
            for rk, how in ((None, "pos"), ("adm", "pos"), (1, "int")):
                CASES.append(Case("C17", f"zero_{fmt}_{d}_{u}_{rk}", decompose, ("zero " + fmt, d, u, rk, how), tier="quick" if d < 4 else "thorough"))
for sh, bs in (((2, 3, 2), (1, 2, 5, (2, 1), (1, 2), (9, 9))), ((4, 2), (1, 3, (2,), (8,))), ((2, 2, 2, 2), (3, (2, 1, 2), (1, 4, 1), (2, 9, 2))),
               ((3, 1, 5), (2, (3, 3), (1, 2))), ((1, 4, 3), (2, (1, 3))), ((5, 5), (4, 5, 6)), ((2, 7, 3), (4, (2, 3))), ((1, 1), (1, 3)), ((6, 2, 2), (5, (5, 2)))):
    for fmt in ("dense", "tt", "sparse", "sum"):
        for i, b in enumerate((None,) + bs):
            how = "pos" if b is None or isinstance(b, tuple) else "int"
            CASES.append(Case("C17", f"numbers_{fmt}_{sh}_{i}", decompose, (fmt, sh, (), b, how), tier="quick" if fmt in ("dense", "tt") else "thorough"))
