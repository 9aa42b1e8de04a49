"""C19 Every supported map/format pair works, every other pair is refused.

Rule: for every map type of ALL_DRM (and for client map types that declare a subset of the capabilities) and every format, sums
and nested sums included, the declaration (mixin in the inferred class hierarchy, entry of get_drm_capabilities) is compared with the
partitions of the sketching entry points: all of them end in a result of the right shape if declared, all of them end in a ValueError if not."""
from spec.common import *

MIXIN = {"dense": "CansketchDense", "sparse": "CansketchSparse", "tt": "CansketchTT", "cp": "CansketchCP", "tucker": "CanSketchTucker"}
OTHER = ("stt", "mpo", "sum(stt)")
SUMS = {"tt+sparse": ("tt", "sparse"), "dense+sparse": ("dense", "sparse"), "cp+tucker": ("cp", "tucker"), "sparse+sparse": ("sparse", "sparse"),
        "tt+(sparse+dense)": ("tt", "sparse", "dense"), "sparse+(sparse+sparse)": ("sparse", "sparse", "sparse"), "sparse+(sparse+cp)": ("sparse", "sparse", "cp")}

CLIENT = """
from tt_sketch.drm_base import DRM, CanSlice, CanIncreaseRank, handle_transpose
from tt_sketch.drm import TensorTrainDRM, SparseGaussianDRM
from tt_sketch.sketching_methods.abstract_methods import CansketchTT, CansketchSparse

class OnlyTT(CansketchTT):
    @handle_transpose
    def sketch_tt(self, tensor):
        other = TensorTrainDRM(self.rank, shape=tensor.shape, transpose=False, seed=self.seed)
        for v in other.sketch_tt(tensor):
            yield v

class OnlySparse(CansketchSparse, CanSlice):
    @handle_transpose
    def sketch_sparse(self, tensor):
        other = SparseGaussianDRM(self.rank, shape=tensor.shape, transpose=False, seed=self.seed)
        for v in other.sketch_sparse(tensor):
            yield v
"""
CLIENTS = {"OnlyTT": (("tt",), False, False), "OnlySparse": (("sparse",), True, False)}


def kindcls(S, kind):
    return S.client(CLIENT)[kind] if kind in CLIENTS else drm_cls(S, kind)


def declared(S, cls, fmt):
    """does the map type declare support for the format"""
    return S.lib.issubclass_(cls, S.cls("sketching_methods.abstract_methods", MIXIN[fmt]))


def tensor(S, fmt, sh, name="X"):
    if fmt in SUMS:
        ps = [mk(S, f, name + str(k), sh) for k, f in enumerate(SUMS[fmt])]
        if "(" in fmt:
            return S.sum([ps[0], S.sum(ps[1:])])
        return S.sum(ps)
    if fmt == "stt":
        return mkd(S, "stt", name, sh)[0]
    if fmt == "sum(stt)":
        return S.sum([mk(S, "tt", name + "a", sh), mkd(S, "stt", name + "b", sh)[0]])
    if fmt == "mpo":
        d = len(sh)
        r = (1,) + tuple(S.sym(f"{name}.q{k}", 1) for k in range(d - 1)) + (1,)
        cs = [S.atom(f"{name}.M{k}", r[k], sh[k], 1, r[k + 1]) for k in range(d)]
        return S.call(S.cls("tt_gmres", "MPO"), ListObj(cs))
    return mk(S, fmt, name, sh)


def formats(fmt):
    return SUMS.get(fmt, (fmt,))


def ok(S, cls, fmt):
    return all(f in MIXIN and declared(S, cls, f) for f in formats(fmt))


def pair(S, how, lk, rk, fmt, d, by):
    """one pair of maps and one format through one entry point"""
    sh = S.dims(d)
    X = tensor(S, fmt, sh)
    lc, rc = kindcls(S, lk), kindcls(S, rk)
    good = ok(S, rc, fmt) and (how == "hmt" or ok(S, lc, fmt))
    if how == "hmt" or how == "orth":
        good = good and all(f in MIXIN for f in formats(fmt))
    sk = S.ns("sketch")
    if by == "type":
        lr, rr, kw = 2, 3, {"seed": seed_sym(S)}
        kw.update({"drm_type": rc} if how == "hmt" else {"left_drm_type": lc, "right_drm_type": rc})
    else:
        lr = adm_ranks(S, sh)
        rr = lr if how == "hmt" else grow(S, lr, "e")
        L = S.call(lc, lr, shape=sh, transpose=False, seed=seed_sym(S, "s1"))
        R = S.call(rc, rr, shape=sh, transpose=True, seed=seed_sym(S, "s2"))
        kw = {"drm": R} if how == "hmt" else {"left_drm": L, "right_drm": R}
    f = {"stream": "stream_sketch", "orth": "orthogonal_sketch", "hmt": "hmt_sketch"}[how]
    args = (X, rr) if how == "hmt" else (X, lr, rr)
    if not good:
        S.raises("refused", ValueError, lambda: S.call(sk[f], *args, **kw), f"for {fmt} with {lk}/{rk}")
        if how == "stream" and by != "type":
            S.raises("general_sketch", ValueError, lambda: S.call(S.ns("sketch_dispatch")["general_sketch"], X, L, R,
                                                                  method=S.get(S.ns("sketch_dispatch")["SketchMethod"], "streaming")))
        return
    Y = S.run("accepted", lambda: S.call(sk[f], *args, **kw))
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape of the sketch")


def method(S, kind, fmt, d):
    """lookup of the sketching method of a map"""
    sh = S.dims(d)
    X = tensor(S, fmt, sh)
    cls = kindcls(S, kind)
    lr = adm_ranks(S, sh)
    g = S.ns("sketch_dispatch")["get_sketch_method"]
    for tr in (False, True):
        D = S.call(cls, lr, shape=sh, transpose=tr, seed=seed_sym(S))
        if ok(S, cls, fmt):
            f = S.run(f"method {tr}", lambda: S.call(g, X, D))
            got = S.run(f"sketches {tr}", lambda: S.list(S.call(f, X)))
            S.true(f"number {tr}", len(got) == d - 1, f"{len(got)} sketches for {d} modes")
        else:
            S.raises(f"refused {tr}", ValueError, lambda: S.call(S.call(g, X, D), X))


def capabilities(S, kind):
    """the table of capabilities against the class hierarchy and the methods that exist"""
    caps = S.run("get_drm_capabilities", lambda: S.call(S.ns("sketch")["get_drm_capabilities"]))
    row = S.run("row", lambda: S.lib.getitem(caps, kind))
    cls = drm_cls(S, kind)
    mix = {"CanSlice": S.cls("drm_base", "CanSlice"), "CanIncreaseRank": S.cls("drm_base", "CanIncreaseRank")}
    for f, m in MIXIN.items():
        mix[m] = S.cls("sketching_methods.abstract_methods", m)
    for k in S.list(row):
        S.true(f"known {k}", k in mix, f"unknown capability {k}")
        S.true(f"declared {k}", S.lib.getitem(row, k) is S.lib.issubclass_(cls, mix[k]), f"capability {k} of {kind} differs from its class")
    for k in ("CanSlice", "CanIncreaseRank", "CansketchSparse", "CansketchDense", "CansketchTT"):
        S.true(f"listed {k}", k in S.list(row), f"capability {k} is not listed")
    # what the library promises at least
    for f in DRMS[kind][1]:
        S.true(f"supports {f}", declared(S, cls, f), f"{kind} does not declare support for {f}")
    S.true("slices", DRMS[kind][2] <= S.lib.issubclass_(cls, mix["CanSlice"]), f"{kind} does not declare slicing")
    S.true("grows", DRMS[kind][3] <= S.lib.issubclass_(cls, mix["CanIncreaseRank"]), f"{kind} does not declare rank increase")
    for f, m in SKETCH_METHOD.items():
        has = S.I.class_lookup(cls, m)[0] is not None
        S.true(f"method {m}", has == declared(S, cls, f), f"{kind} {'has' if has else 'lacks'} {m} against its declaration")


def everyone(S):
    all_ = [c.name for c in S.list(S.ns("drm")["ALL_DRM"])]
    for k in DRMS:
        S.true(f"listed {k}", k in all_, f"{k} is not in ALL_DRM")
    caps = S.call(S.ns("sketch")["get_drm_capabilities"])
    S.true("table", sorted(S.list(caps)) == sorted(all_), f"capabilities of {S.list(caps)}")
    tables = [S.ns("sketch_dispatch")[t] for t in ("ABSTRACT_TENSOR_SKETCH_DISPATCH", "DRM_SKETCH_METHOD_DISPATCH", "OMEGA_METHODS", "PSI_METHODS")]
    names = [sorted(c.name for c in S.list(t)) for t in tables]
    S.true("tables", names[0] == names[1] and set(names[0]) <= set(names[2]) and names[2] == names[3], f"dispatch tables disagree: {names}")


def slicing(S, lk, rk, d):
    """blocked sketch with maps that do or do not support slicing"""
    sh = S.dims(d)
    fmt = "sparse" if "tt" not in (CLIENTS.get(lk) or DRMS[lk][1:])[0] or "tt" not in (CLIENTS.get(rk) or DRMS[rk][1:])[0] else "tt"
    X = mk(S, fmt, "X", sh)
    lc, rc = kindcls(S, lk), kindcls(S, rk)
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    L = S.call(lc, lr, shape=sh, transpose=False, seed=seed_sym(S, "s1"))
    R = S.call(rc, rr, shape=sh, transpose=True, seed=seed_sym(S, "s2"))
    cs = S.cls("drm_base", "CanSlice")
    good = S.lib.issubclass_(lc, cs) and S.lib.issubclass_(rc, cs) and ok(S, lc, fmt) and ok(S, rc, fmt)
    z = (0,) * (d - 1)
    go = lambda: S.call(S.ns("sketch")["blocked_stream_sketch"], X, L, R, ListObj([z, lr]), ListObj([z, rr]))
    if good:
        Y = S.run("blocked", go)
        S.eqtuple("shape", S.get(Y, "shape"), sh, "shape of the blocked sketch")
    else:
        S.raises("refused", ValueError, go, f"for {lk}/{rk}")


def growing(S, lk, rk, d, fmt):
    """rank increase with maps that do or do not support it"""
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    lc, rc = kindcls(S, lk), kindcls(S, rk)
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    L = S.call(lc, lr, shape=sh, transpose=False, seed=seed_sym(S, "s1"))
    R = S.call(rc, rr, shape=sh, transpose=True, seed=seed_sym(S, "s2"))
    Y = S.run("stream_sketch", lambda: stream(S, X, lr, rr, L, R))
    ci = S.cls("drm_base", "CanIncreaseRank")
    l2, r2 = grow(S, lr, "f"), grow(S, rr, "g")
    go = lambda: S.m(Y, "increase_rank", X, l2, r2)
    if S.lib.issubclass_(lc, ci) and S.lib.issubclass_(rc, ci):
        Z = S.run("increase_rank", go)
        S.eqtuple("left rank", S.get(Z, "left_rank"), l2, "left rank")
    else:
        mark = len(S.I.events)
        S.raises("refused", ValueError, go, f"for {lk}/{rk}")


def adding(S, kind, fmt, other, d):
    """adding an unsupported tensor to a sketch"""
    sh = S.dims(d)
    cls = kindcls(S, kind)
    X, Z = tensor(S, fmt, sh), tensor(S, other, sh, "Z")
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    L = S.call(cls, lr, shape=sh, transpose=False, seed=seed_sym(S, "s1"))
    R = S.call(cls, rr, shape=sh, transpose=True, seed=seed_sym(S, "s2"))
    Y = S.run("stream_sketch", lambda: stream(S, X, lr, rr, L, R))
    if ok(S, cls, other):
        W = S.run("added", lambda: S.binop("Add", Y, Z))
        S.eqtuple("shape", S.get(W, "shape"), sh, "shape of the updated sketch")
    else:
        S.raises("refused", ValueError, lambda: S.binop("Add", Y, Z))


CASES = [Case("C19", "tables", everyone)]
KINDS = tuple(DRMS) + tuple(CLIENTS)
for k in DRMS:
    CASES.append(Case("C19", f"capabilities_{k}", capabilities, (k,)))
for d in (2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    for k in KINDS:
        for fmt in FORMATS + OTHER + tuple(SUMS):
            if d > 2 and fmt in OTHER and d == 4:
                continue
            CASES.append(Case("C19", f"method_{k}_{fmt}_{d}", method, (k, fmt, d), tier=t))
            for how in ("stream", "orth", "hmt"):
                for by in ("drm",) + (("type",) if k in DRMS and d == 3 else ()):
                    CASES.append(Case("C19", f"{how}_{k}_{fmt}_{d}_{by}", pair, (how, k, k, fmt, d, by), tier=t))
            for o in KINDS:
                if o != k and d == 3:
                    for how in ("stream", "orth"):
                        CASES.append(Case("C19", f"{how}_{k}_{o}_{fmt}_{d}", pair, (how, k, o, fmt, d, "drm"), tier=t))
        for o in KINDS:
            if not {k, o} == {"OnlyTT", "SparseGaussianDRM"}:
                CASES.append(Case("C19", f"slice_{k}_{o}_{d}", slicing, (k, o, d), tier=t))
    for k in KINDS:
        for o in KINDS:
            fk = (CLIENTS.get(k) or DRMS[k][1:])[0]
            fo = (CLIENTS.get(o) or DRMS[o][1:])[0]
            both = [f for f in ("sparse", "tt") if f in fk and f in fo]
            if both:
                CASES.append(Case("C19", f"grow_{k}_{o}_{d}", growing, (k, o, d, both[0]), tier=t))
        for other in FORMATS + OTHER + tuple(SUMS):
            CASES.append(Case("C19", f"add_{k}_{other}_{d}", adding, (k, (CLIENTS.get(k) or DRMS[k][1:])[0][-1] if k != "DenseGaussianDRM" else "dense", other, d), tier=t))
