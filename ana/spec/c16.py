"""C16 Tensor-train canonical forms and rounding.

Rule: with QR and SVD as uninterpreted factorisations (Q^T Q = I, QR = A, U diag(S) V = A, S vanishing beyond its count of positive
values), the dense form inferred for orthogonalize() and untruncated round() equals that of the train, the Gram networks of the
cores are identities, and the truncated result equals -- on the dense form, so any basis will do -- the sweep of the specification;
the inferred ranks equal max(1, min(count of S > eps*S[0], bound)) and are compared with the bound and the original ranks."""
from spec.common import *
from spec.c05 import gram


def rgram(net):
    return N.contract([net, net], [["a", "n", "b"], ["c", "n", "b"]], ["a", "c"])


def nets(S, tt):
    return [S.net(c) for c in S.list(S.get(tt, "cores"))]


def mat(c, k):
    """core -> matrix with k axes as rows"""
    s = c.shape
    return N.reshape(c, (P.pmul(s[0], s[1]), s[2]) if k == 2 else (s[0], P.pmul(s[1], s[2])))


def qr_sweep(S, cores):
    out, R = [], None
    for k, c in enumerate(cores):
        if R is not None:
            c = N.contract([R, c], [["a", "b"], ["b", "n", "c"]], ["a", "n", "c"])
        if k < len(cores) - 1:
            Q, R = S.lib.qr(S.arr(mat(c, 2)))
            Q, R = S.net(Q), S.net(R)
            c = N.reshape(Q, (c.shape[0], c.shape[1], Q.shape[1]))
        out.append(c)
    return out


def cut(S, M, bound, eps):
    """leading singular triplets of a matrix under the stated rule"""
    lib = S.lib
    U, s, V = lib.svd(S.arr(M), full_matrices=False)
    thr = lib.binop("Mult", lib.getitem(s, 0), eps)
    n = S.call(lib.npf["sum"], lib.compare("Gt", s, thr) if hasattr(lib, "compare") else S.I.compare("Gt", s, thr))
    r = P.pmax(1, n if bound is None else P.pmin(n, bound))
    return U, s, V, r


def truncated(S, cores, bound, eps):
    """the rounding sweep on left-orthogonal cores: [(core)], ranks"""
    lib = S.lib
    d = len(cores)
    out, ranks, US = [None] * d, [None] * (d - 1), None
    for k in range(d - 1, -1, -1):
        c = cores[k]
        if US is not None:
            c = N.contract([c, US], [["a", "n", "b"], ["b", "c"]], ["a", "n", "c"])
        if k > 0:
            U, s, V, r = cut(S, mat(c, 1), bound[k - 1] if bound is not None else None, eps)
            u, v, ss = (S.net(lib.getitem(U, (slice(None), slice(None, r)))) if False else N.slice_axis(S.net(U), 1, 0, r)), \
                N.slice_axis(S.net(V), 0, 0, r), N.slice_axis(S.net(s), 0, 0, r)
            US = N.contract([u, ss], [["a", "b"], ["b"]], ["a", "b"])
            out[k] = N.reshape(v, (r, c.shape[1], c.shape[2]))
            ranks[k - 1] = r
        else:
            out[k] = c
    return out, ranks


def orth(S, d, unit, rk):
    sh = S.dims(d, unit)
    X, x, r = train(S, sh, rk)
    Y = S.run("orthogonalize", lambda: S.m(X, "orthogonalize"))
    S.eq("same tensor", S.run("to_numpy", lambda: S.to_numpy(Y)), x, "orthogonalised tensor")
    cs = nets(S, Y)
    S.true("cores", len(cs) == d, f"{len(cs)} cores")
    for k in range(d - 1):
        S.eq(f"left-orthogonal[{k}]", gram(cs[k]), N.eye_net(cs[k].shape[2]), f"Q{k}^T Q{k}")
        S.ge(f"rank {k}", S.get(X, "rank")[k], cs[k].shape[2], "original rank and rank after orthogonalisation")
    S.eq("again", S.run("again", lambda: S.to_numpy(S.m(Y, "orthogonalize"))), x, "orthogonalised twice")
    for k, (a, b) in enumerate(zip(nets(S, X), (S.tt_cores("X", sh, r)))):
        S.eq(f"operand {k}", a, b, "core of the operand")


def train(S, sh, rk):
    d = len(sh)
    if rk == "adm":
        r = adm_ranks(S, sh, "X.r")
    elif rk == "free":
        r = tuple(S.sym(f"X.r{k}", 1) for k in range(d - 1))
    else:
        r = rk
    X = S.tt("X", sh, r)
    return X, contract_tt([c.net for c in S.tt_cores("X", sh, r)]), r


def rounded(S, d, unit, rk, eps, bound, how):
    """rank bounds and thresholds"""
    sh = S.dims(d, unit) if isinstance(d, int) else d
    d = len(sh)
    X, x, r = train(S, sh, rk)
    kw = {}
    e = None
    if eps is not None:
        e = S.atom("eps") if eps == "sym" else eps
        kw["eps"] = e
    b = None
    if bound == "same":
        b = S.get(X, "rank")
    elif bound == "less":
        b = tuple(S.sym(f"b{k}", 1) for k in range(d - 1))
        S.bound_ranks(sh, b)
        for p, q in zip(r, b):
            P.add_fact(P.psub(p, q))
    elif bound is not None:
        b = bound
    if b is not None:
        if how == "int":
            kw["max_rank"] = b
            bt = (b,) * (d - 1)
        elif how == "list":
            kw["max_rank"] = ListObj(list(b))
            bt = tuple(b)
        else:
            kw["max_rank"] = tuple(b)
            bt = tuple(b)
    Z = X
    if how == "orthogonalized":
        Z = S.m(X, "orthogonalize")
        kw["orthogonalized"] = True
    Y = S.run("round", lambda: S.m(Z, "round", **kw))
    cs = nets(S, Y)
    S.true("cores", len(cs) == d, f"{len(cs)} cores")
    got = tuple(c.shape[2] for c in cs[:-1])
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape")
    S.eqtuple("rank", S.get(Y, "rank"), got, "reported rank")
    for k in range(d - 1):
        S.eq(f"right-orthogonal[{k + 1}]", rgram(cs[k + 1]), N.eye_net(got[k]), f"core {k + 1} times its transpose")
        S.ge(f"at least one [{k}]", got[k], 1, "rank and one")
        S.ge(f"original rank [{k}]", r[k], got[k], "original rank and rounded rank")
        if b is not None:
            S.ge(f"bound [{k}]", bt[k], got[k], "rank bound and rounded rank")
    y = S.run("to_numpy", lambda: S.to_numpy(Y))
    if (b is None or bound == "same") and eps in (None, 0):
        S.eq("same tensor", y, x, "tensor rounded without truncation")
    else:
        trimmed = None
        if b is not None:
            trimmed = S.call(S.ns("utils")["process_tt_rank"], bt, sh, True)
        want, ranks = truncated(S, qr_sweep(S, [c.net for c in S.tt_cores("X", sh, r)]), trimmed, 0 if e is None else e)
        for k in range(d - 1):
            S.eqint(f"kept [{k}]", got[k], ranks[k], "number of singular values kept")
        S.eq("projection", y, contract_tt(want), "truncated tensor")


def zero(S, d, kw):
    sh = S.dims(d)
    X = S.call(S.get(S.cls("tensor", "TensorTrain"), "zero"), sh, 3)
    Y = S.run("round", lambda: S.m(X, "round", **kw))
    S.eqtuple("rank", S.get(Y, "rank"), (1,) * (d - 1), "rank of the rounded zero tensor")
    S.eq("zero", S.to_numpy(Y), N.zero_net(sh), "rounded zero tensor")


def svdvals(S, d, unit, rk):
    sh = S.dims(d, unit)
    X, x, r = train(S, sh, rk)
    got = S.list(S.run("svdvals", lambda: S.m(X, "svdvals")))
    S.true("number", len(got) == d, f"{len(got)} lists of singular values for {d} modes")
    lib = S.lib
    cores = qr_sweep(S, [c.net for c in S.tt_cores("X", sh, r)])
    US, want = None, [None] * d
    for k in range(d - 1, -1, -1):
        c = cores[k]
        if US is not None:
            c = N.contract([c, US], [["a", "n", "b"], ["b", "c"]], ["a", "n", "c"])
        U, s, V = lib.svd(S.arr(mat(c, 1 if k > 0 else 2)), full_matrices=False)
        want[k] = S.net(s)
        US = N.contract([S.net(U), S.net(s)], [["a", "b"], ["b"]], ["a", "b"])
    for k in range(d):
        S.eq(f"mode {k}", got[k], want[k], f"singular values {k}")


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d < 5 else "thorough"
    units = [()] + ([(0,), (d - 1,)] if d > 1 else [(0,)]) + ([(1,)] if d > 2 else [])
    for u in units:
        for rk in ("adm", "free"):
            CASES.append(Case("C16", f"orth_{d}_{u}_{rk}", orth, (d, u, rk), tier=t))
            CASES.append(Case("C16", f"svdvals_{d}_{u}_{rk}", svdvals, (d, u, rk), tier=t))
        for i, (eps, bound, how) in enumerate((
                (None, None, None), (0, None, None), (None, "same", "tuple"), (None, None, "orthogonalized"), (None, "less", "tuple"), (None, "less", "list"),
                (None, 1, "int"), (None, 2, "int"), (Fraction(1, 10), None, None), ("sym", None, None), ("sym", "less", "tuple"), (Fraction(1, 4), 2, "int"),
                (None, "less", "orthogonalized"))):
            CASES.append(Case("C16", f"round_{d}_{u}_{i}", rounded, (d, u, "adm", eps, bound, how), tier=t if d < 4 or i < 6 else "thorough"))
    for i, kw in enumerate(({}, {"max_rank": 2}, {"eps": Fraction(1, 10)})):
        CASES.append(Case("C16", f"zero_{d}_{i}", zero, (d, kw), tier=t))
for sh, rk in (((2, 3, 2), (5, 4)), ((4, 2), (3,)), ((2, 2, 2, 2), (4, 9, 3)), ((3, 1, 5), (3, 7)), ((2, 7, 3), (1, 6)), ((2, 3, 2), (1, 1))):
    for i, (eps, bound, how) in enumerate(((None, None, None), (None, "same", "tuple"), (None, 2, "int"), (Fraction(1, 3), None, None), (None, (1,) * (len(sh) - 1), "tuple"), (None, 100, "int"))):
        CASES.append(Case("C16", f"numbers_{sh}_{rk}_{i}", rounded, (sh, (), rk, eps, bound, how)))
