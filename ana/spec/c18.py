"""C18 Rank requests.

Rule: for symbolic mode sizes and ranks every partition of process_tt_rank/trim_ranks ends in ranks that are consistent,
below the request and not below the closed form min(prod left, prod right, min_j r_j * prod of the modes between j and k); the inferred result is a tuple; sequences of a wrong
length end in a ValueError in every partition; constants are propagated through the same code for long trains."""
from spec.common import *


def prod(xs):
    p = 1
    for x in xs:
        p = P.pmul(p, x)
    return p


def closed(sh, r):
    """largest consistent ranks below r"""
    d = len(sh)
    out = []
    for k in range(d - 1):
        xs = [r[k], prod(sh[:k + 1]), prod(sh[k + 1:])]
        xs += [P.pmul(r[j], prod(sh[j + 1:k + 1])) for j in range(k)]
        xs += [P.pmul(r[j], prod(sh[k + 1:j + 1])) for j in range(k + 1, d - 1)]
        out.append(P.pmin(*xs))
    return tuple(out)


def give(r, how):
    return ListObj(list(r)) if how == "list" else r[0] if how == "int" else tuple(r)


def trim(S, d, unit, rk, how):
    sh = S.dims(d, unit) if isinstance(d, int) else d
    d = len(sh)
    if rk == "free":
        r = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
    elif rk == "same":
        r = (S.sym("r", 1),) * (d - 1)
    elif rk == "adm":
        r = adm_ranks(S, sh)
    else:
        r = (rk,) * (d - 1) if isinstance(rk, int) else rk
    f = S.ns("utils")["process_tt_rank"]
    got = S.run("process_tt_rank", lambda: S.call(f, give(r, how), sh, True))
    if not isinstance(got, tuple):
        S.bad("type", f"ranks are returned as {S.desc(got)}")
        return
    S.true("number", len(got) == d - 1, f"{len(got)} ranks for {d} modes")
    ext = (1,) + got + (1,)
    for k in range(d - 1):
        S.ge(f"at least one [{k}]", got[k], 1, "trimmed rank and one")
        S.ge(f"not above the request [{k}]", r[k], got[k], "request and trimmed rank")
        S.ge(f"from the left [{k}]", P.pmul(ext[k], sh[k]), got[k], "left rank times mode and trimmed rank")
        S.ge(f"from the right [{k}]", P.pmul(ext[k + 2], sh[k + 1]), got[k], "right rank times mode and trimmed rank")
    if rk == "adm":
        S.eqtuple("unchanged", got, r, "consistent ranks after trimming")
    else:
        # consistent ranks below the request are below the closed form; equality remains
        for k, m in enumerate(closed(sh, r)):
            S.ge(f"maximal [{k}]", got[k], m, "trimmed rank and largest consistent rank")
    S.eqtuple("again", S.call(f, got, sh, True), got, "ranks trimmed twice")
    S.eqtuple("trim_ranks", S.call(S.ns("utils")["trim_ranks"], sh, tuple(r)), got, "trim_ranks")


def asis(S, d, unit, how):
    sh = S.dims(d, unit)
    r = (S.sym("r", 1),) * (d - 1) if how == "int" else tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
    f = S.ns("utils")["process_tt_rank"]
    arg = give(r, how)
    before = S.freeze(arg, "rank")
    got = S.run("process_tt_rank", lambda: S.call(f, arg, sh, False))
    S.eqtuple("ranks", got, r, "ranks without trimming")


def wrong(S, d, n, how, dotrim):
    sh = S.dims(d)
    r = tuple(S.sym(f"r{k}", 1) for k in range(n))
    f = S.ns("utils")["process_tt_rank"]
    S.raises("length", ValueError, lambda: S.call(f, ListObj(list(r)) if how == "list" else r, sh, dotrim))


def users(S, which, d, n):
    """wrong lengths given to what takes ranks"""
    sh = S.dims(d)
    r = tuple(S.sym(f"r{k}", 1) for k in range(n))
    X = mk(S, "tt", "X", sh)
    tt = S.cls("tensor", "TensorTrain")
    sk = S.ns("sketch")
    calls = {
        "random": lambda: S.call(S.get(tt, "random"), sh, r, seed=1),
        "zero": lambda: S.call(S.get(tt, "zero"), sh, r),
        "round": lambda: S.m(X, "round", max_rank=r),
        "tt_svd": lambda: S.call(S.ns("tt_svd")["tt_svd"], X, r),
        "hmt": lambda: S.call(sk["hmt_sketch"], X, r, seed=1),
        "orth": lambda: S.call(sk["orthogonal_sketch"], X, r, tuple(P.padd(x, 1) for x in r), seed=1),
        "stream": lambda: S.call(sk["stream_sketch"], X, r, tuple(P.padd(x, 1) for x in r), seed=1),
        "drm": lambda: S.call(drm_cls(S, "TensorTrainDRM"), r, sh, False, 1),
        "dense_drm": lambda: S.call(drm_cls(S, "DenseGaussianDRM"), r, sh, True, 1),
    }
    S.raises(which, ValueError, calls[which])


CASES = []
for d in (1, 2, 3, 4, 5):
    for u in ([()] + ([(0,), (d - 1,)] if d > 1 else []) + ([(1,)] if d > 2 else []) + ([(0, 1), (1, 2)] if d > 3 else [])):
        for rk in ("free", "same", "adm"):
            for how in (("tuple", "list") if rk != "same" else ("int",)):
                if how == "int" and d == 1:
                    continue
                heavy = rk == "free" and len(u) < d - 3 or d == 5
                if d == 5 and rk == "free":
                    continue
                CASES.append(Case("C18", f"trim_{d}_{u}_{rk}_{how}", trim, (d, u, rk, how), tier="thorough" if heavy and d > 4 else "quick"))
        for how in ("tuple", "list", "int"):
            if how != "int" or d > 1:
                CASES.append(Case("C18", f"asis_{d}_{u}_{how}", asis, (d, u, how)))
    for n in (0, 1, 2, 3, 4, 5, 6):
        if n != d - 1:
            for how in ("tuple", "list"):
                for t in (True, False):
                    CASES.append(Case("C18", f"wrong_{d}_{n}_{how}_{t}", wrong, (d, n, how, t)))
for d in (2, 3, 4):
    for n in (d - 2, d, d + 1):
        for w in ("random", "zero", "round", "tt_svd", "hmt", "orth", "stream", "drm", "dense_drm"):
            CASES.append(Case("C18", f"users_{w}_{d}_{n}", users, (w, d, n)))
for d in (10, 40, 130, 150):
    for sh in ((50,) + (1,) * (d - 2) + (50,), (2,) * 8 + (1,) * (d - 16) + (2,) * 8):
        if len(sh) == d:
            for nm, r in (("down", tuple(200 for k in range(d - 2)) + (3,)), ("up", (3,) + (200,) * (d - 2)), ("stairs", tuple(d + 3 - k for k in range(d - 1))),
                          ("stairs2", tuple(k + 3 for k in range(d - 1)))):
                CASES.append(Case("C18", f"long_{d}_{sh[0]}_{nm}", trim, (sh, (), r, "tuple")))
    n = "quick"
    for sh, nm in (((2,) * d, "2"), ((3, 1) * (d // 2), "31"), ((1,) * d, "1"), ((4,) * d, "4"), ((16,) * d, "16"), ((2 ** 16, 1) * (d // 2), "64k"), ((2 ** 31, 3) * (d // 2), "2G")):
        CASES.append(Case("C18", f"long_{d}_{nm}_big", trim, (sh, (), 10 ** 9, "int"), tier=n))
        CASES.append(Case("C18", f"long_{d}_{nm}_5", trim, (sh, (), 5, "int"), tier=n))
        spike = tuple(1 if k == 0 else 10 ** 6 for k in range(d - 1))
        CASES.append(Case("C18", f"long_{d}_{nm}_spike", trim, (sh, (), spike, "tuple"), tier=n))
        CASES.append(Case("C18", f"long_{d}_{nm}_spike2", trim, (sh, (), spike[::-1], "list"), tier=n))
        mid = tuple(1 if k == d // 2 else 7 + k % 5 for k in range(d - 1))
        CASES.append(Case("C18", f"long_{d}_{nm}_mid", trim, (sh, (), mid, "tuple"), tier=n))
