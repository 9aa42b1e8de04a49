"""C08 A fixed seed reproduces the result in any process, on any machine.

Rule: taint analysis.  With an explicit symbolic seed, no value reachable from the result (arrays, indices, ranks, maps) and no
branch taken may depend on an ambient source: the global generator, fresh entropy, str hashing, the number of processors, time,
process or object identities.  Building the same object twice gives equal arrays (also when arrays are filled by the worker
pool, which is analysed, not assumed)."""
from spec.common import *
from spec.common import sketch_ranks


def arrays(S, v, seen=None):
    """arrays reachable from a value in attribute order"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return []
    seen.add(id(v))
    if isinstance(v, (NDArr, IntArr)):
        return [v]
    if isinstance(v, CArr):
        return [v]
    if isinstance(v, IntStack):
        return list(v.rows)
    out = []
    if isinstance(v, ListObj):
        v = tuple(v.items)
    if isinstance(v, (tuple, list)):
        for x in v:
            out += arrays(S, x, seen)
    elif isinstance(v, InstObj):
        for k in v.attrs:
            out += arrays(S, v.attrs[k], seen)
    return out


def control(S, label, mark):
    bad = [e for e in S.I.events[mark:] if e["kind"] == "tainted_branch"]
    for e in bad[:1]:
        S.bad(label + " control", f"the computation depends on {sorted(e['taints'])}: {e['desc']}", e["loc"])
    if not bad:
        S.ok(label + " control")


def judge(S, label, make, after=None):
    mark = len(S.I.events)
    try:
        a = S.run(label, make)
        b = S.run(label, make)
        if after is not None:
            a, b = S.run(label, lambda: after(a)), S.run(label, lambda: after(b))
    finally:
        control(S, label, mark)
    S.untainted(label + " result", a, "the result with an explicit seed")
    x, y = arrays(S, a), arrays(S, b)
    if len(x) != len(y):
        S.bad(label + " twice", "two runs with one seed build different structures")
        return
    for i, (p, q) in enumerate(zip(x, y)):
        S.eq(f"{label} twice[{i}]", q, p, "the second run with the same seed")


def drm(S, kind, fmt, d, tr, how):
    sh = S.dims(d)
    r = S.ranks(sh, "r")
    X = mk(S, fmt, "X", sh)
    sd = seed_sym(S)

    def make():
        if how == "slice":
            D = mk_drm(S, kind, r, sh, tr, sd)
            return S.m(D, "slice", (0,) * (d - 1), r)
        if how == "grow":
            D = mk_drm(S, kind, r, sh, tr, sd)
            return S.m(D, "increase_rank", r)
        if how == "T":
            return S.get(mk_drm(S, kind, r, sh[::-1], not tr, sd), "T")
        return mk_drm(S, kind, r, sh, tr, sd)
    judge(S, f"{kind} {how}", make, lambda D: (D, tuple(S.list(S.m(D, SKETCH_METHOD[fmt], X)))))


def ctor(S, name, d, opts):
    sh = S.dims(d)
    sd = seed_sym(S)
    kw = dict(opts)
    T = lambda n: S.cls("tensor", n)
    if name == "TensorTrain":
        r = S.ranks(sh, "r")
        mkf = lambda: S.call(S.get(T(name), "random"), sh, r, seed=sd, **kw)
    elif name == "CPTensor":
        mkf = lambda: S.call(S.get(T(name), "random"), sh, S.sym("R"), seed=sd)
    elif name == "TuckerTensor":
        r = tuple(S.sym(f"s{k}") for k in range(d))
        S.bound_ranks(sh + (sh[-1],), list(r))
        mkf = lambda: S.call(S.get(T(name), "random"), sh, r, seed=sd)
    elif name == "SparseTensor":
        mkf = lambda: S.call(S.get(T(name), "random"), sh, S.sym("nnz"), seed=sd)
    elif name == "random_normal":
        mkf = lambda: S.call(S.ns("utils")["random_normal"], sh, sd)
    elif name == "power_decay":
        mkf = lambda: S.call(S.ns("utils")["power_decay_tensor"], sh, seed=sd)
    judge(S, name, mkf)


def sketch(S, method, kinds, fmt, d):
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    lr, rr = sketch_ranks(S, sh, True)
    sd = seed_sym(S)
    ns = S.ns("sketch")
    if method == "hmt":
        f = lambda: S.call(ns["hmt_sketch"], X, lr, seed=sd, drm_type=drm_cls(S, kinds[0]) if kinds[0] else None)
    else:
        kw = {}
        if kinds[0]:
            kw["left_drm_type"] = drm_cls(S, kinds[0])
        if kinds[1]:
            kw["right_drm_type"] = drm_cls(S, kinds[1])
        f = lambda: S.call(ns[method + "_sketch" if method == "stream" else "orthogonal_sketch"], X, lr, rr, seed=sd, **kw)
    judge(S, f"{method}", f)


CASES = []
for d in (2, 3, 4, 5):
    t = "quick" if d < 4 else "thorough"
    for kind, (_, fmts, sl, inc) in DRMS.items():
        for fmt in fmts:
            for tr in (False, True):
                for how in ("new", "T") + (("slice",) if sl else ()) + (("grow",) if inc else ()):
                    CASES.append(Case("C08", f"drm_{kind}_{fmt}_{d}_{tr}_{how}", drm, (kind, fmt, d, tr, how), tier=t))
    for nm, o in (("TensorTrain", ()), ("TensorTrain", (("orthog", True),)), ("TensorTrain", (("norm_goal", "norm-preserve"),)),
                  ("TensorTrain", (("trim", True),)),
                  ("CPTensor", ()), ("TuckerTensor", ()), ("SparseTensor", ()), ("random_normal", ()), ("power_decay", ())):
        CASES.append(Case("C08", f"ctor_{nm}_{d}_{o}", ctor, (nm, d, o), tier=t))
        if nm in ("CPTensor", "random_normal", "SparseTensor"):
            CASES.append(Case("C08", f"ctor_raw_{nm}_{d}_{o}", ctor, (nm, d, o), tier=t, raw_rng=True))
    for method in ("stream", "orthogonal", "hmt"):
        for fmt in FORMATS + ("sum",):
            for kinds in ((None, None), ("TensorTrainDRM", "DenseGaussianDRM"), ("SparseGaussianDRM", "SparseSignDRM"),
                          ("SparseSignDRM", None), (None, "DenseGaussianDRM")):
                fs = ("tt", "sparse") if fmt == "sum" else (fmt,)
                if all(f in DRMS[k or "TensorTrainDRM"][1] for f in fs for k in kinds) and (d < 4 or kinds == (None, None)):
                    CASES.append(Case("C08", f"{method}_{fmt}_{kinds}_{d}", sketch, (method, kinds, fmt, d), tier=t))
