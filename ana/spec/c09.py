"""C09 Seeded library calls leave the global random state alone.

Rule: effect analysis.  No path of a seeded constructor, map or sketch has a draw, seed or set_state effect on numpy's global
generator; no path of any call (seeded or not) has a seed or set_state effect on it.  The streams (generator key, position)
consumed by two unseeded calls are disjoint and rooted in fresh entropy, also when the caller reseeds the global generator
in between only if they stem from it."""
from spec.common import *


def effects(S, label, mark, seeded):
    ev = [e for e in S.I.events[mark:] if e["kind"] == "global_rng" and
          (seeded or e["op"] in ("seed", "set_state"))]
    for e in ev[:2]:
        S.bad(label + " global state", f"global generator: {e['op']}", e["loc"])
    if not ev:
        S.ok(label + " global state")


def streams(S, mark):
    out = []
    for e in S.I.events[mark:]:
        if e["kind"] == "draw":
            out.append((e["family"], repr(e["skey"]), repr(e["pos"]), e["loc"]))
        elif e["kind"] == "kernel":
            out.append(("kernel", repr(S.lib.seedkey(e["seed"])), "", e["loc"]))
    return out


def judge(S, label, make, seeded):
    mark = len(S.I.events)
    S.run(label, make)
    effects(S, label, mark, seeded)
    a = streams(S, mark)
    if seeded:
        return
    mark = len(S.I.events)
    S.run(label, make)
    b = streams(S, mark)
    S.true(label + " draws", bool(a), "no random numbers are drawn")
    rep = {x[:3]: x[3] for x in a}
    hit = [x for x in b if x[:3] in rep]
    if hit:
        S.bad(label + " fresh", f"a second unseeded call repeats the random stream {hit[0][:3]}", hit[0][3])
    else:
        S.ok(label + " fresh")


def seedkw(S, seeded):
    return dict(seed=seed_sym(S)) if seeded else {}


def drm(S, kind, fmt, d, tr, seeded, hist):
    sh = S.dims(d)
    r = S.ranks(sh, "r")
    X = mk(S, fmt, "X", sh)
    kw = seedkw(S, seeded)

    def make():
        D = S.call(drm_cls(S, kind), r, transpose=tr, shape=sh, **kw)
        if hist == "slice":
            D = S.m(D, "slice", (0,) * (d - 1), r)
        if hist == "grow":
            D = S.m(D, "increase_rank", r)
        for _ in range(2):
            S.list(S.m(D, SKETCH_METHOD[fmt], X))
    judge(S, kind, make, seeded)


def ctor(S, name, d, seeded):
    sh = S.dims(d)
    kw = seedkw(S, seeded)
    cls = lambda n: S.get(S.cls("tensor", n), "random")
    f = {
        "TensorTrain": lambda: S.call(cls("TensorTrain"), sh, S.sym("r"), **kw),
        "TensorTrain-o": lambda: S.call(cls("TensorTrain"), sh, S.ranks(sh, "ro"), orthog=True, **kw),
        "CPTensor": lambda: S.call(cls("CPTensor"), sh, S.sym("R"), **kw),
        "TuckerTensor": lambda: S.call(cls("TuckerTensor"), sh, 1, **kw),
        "SparseTensor": lambda: S.call(cls("SparseTensor"), sh, S.sym("nnz"), **kw),
        "DenseTensor": lambda: S.call(cls("DenseTensor"), sh),
        "random_normal": lambda: S.call(S.ns("utils")["random_normal"], sh, **kw),
        "power_decay": lambda: S.call(S.ns("utils")["power_decay_tensor"], sh, **kw),
        "MPO": lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "random"), 2, sh, sh),
    }[name]
    judge(S, name, f, seeded)


def sketch(S, method, kinds, fmt, d, seeded):
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    lr, rr = sketch_ranks(S, sh, True)
    kw = seedkw(S, seeded)
    ns = S.ns("sketch")
    if method == "hmt":
        f = lambda: S.call(ns["hmt_sketch"], X, lr, drm_type=drm_cls(S, kinds[0]) if kinds[0] else None, **kw)
    else:
        for n, k in zip(("left_drm_type", "right_drm_type"), kinds):
            if k:
                kw[n] = drm_cls(S, k)
        f = lambda: S.call(ns["stream_sketch" if method == "stream" else "orthogonal_sketch"], X, lr, rr, **kw)
    judge(S, method, f, seeded)


CASES = []
for d in (2, 3, 5):
    t = "quick" if d < 5 else "thorough"
    for seeded in (True, False):
        for kind, (_, fmts, sl, inc) in DRMS.items():
            for fmt in fmts:
                for tr in (False, True):
                    for h in ("new",) + (("slice",) if sl else ()) + (("grow",) if inc else ()):
                        CASES.append(Case("C09", f"drm_{kind}_{fmt}_{d}_{tr}_{seeded}_{h}", drm, (kind, fmt, d, tr, seeded, h), tier=t))
        for nm in ("TensorTrain", "TensorTrain-o", "CPTensor", "TuckerTensor", "SparseTensor", "random_normal", "power_decay") + \
                (("DenseTensor", "MPO") if not seeded else ()):
            CASES.append(Case("C09", f"ctor_{nm}_{d}_{seeded}", ctor, (nm, d, seeded), tier=t))
            if nm in ("CPTensor", "random_normal", "SparseTensor", "DenseTensor") and d < 4:
                CASES.append(Case("C09", f"ctor_raw_{nm}_{d}_{seeded}", ctor, (nm, d, seeded), tier=t, raw_rng=True))
        for method in ("stream", "orthogonal", "hmt"):
            for fmt in FORMATS + ("sum",):
                for kinds in ((None, None), ("TensorTrainDRM", "DenseGaussianDRM"), ("SparseGaussianDRM", "SparseSignDRM"),
                              ("DenseGaussianDRM", None)):
                    fs = ("tt", "sparse") if fmt == "sum" else (fmt,)
                    if all(f in DRMS[k or "TensorTrainDRM"][1] for f in fs for k in kinds):
                        CASES.append(Case("C09", f"{method}_{fmt}_{kinds}_{d}_{seeded}", sketch, (method, kinds, fmt, d, seeded), tier=t))
