"""C33 What was computed before does not change a result.

Rule: dataflow through every store that outlives a call.  Each library object is first used by another operation (every public operation of its class),
then by the observed one, directly and through objects derived from it; the inferred value must be the one inferred for an object that was never used.
Functions are called with one set of arguments, with another one, their result is overwritten, and they are called with the first set again."""
from spec.common import *
from spec.c13 import mpo


def describe(S, v, depth=0):
    """the observable content of a value as a tree of nets, numbers and names"""
    if isinstance(v, InstObj):
        n = v.cls.name
        if n == "SketchedTensorTrain":
            return (n, [describe(S, S.get(v, a)) for a in ("Psi_cores", "Omega_mats", "left_rank", "right_rank", "shape", "size")])
        if n == "SketchContainer":
            return (n, [describe(S, S.get(v, a)) for a in ("Psi_cores", "Omega_mats", "shape", "left_rank", "right_rank")])
        if n == "TensorSum":
            return (n, [describe(S, x) for x in S.list(S.get(v, "tensors"))] + [describe(S, S.get(v, "shape"))])
        if n in DRMS:
            return (n, [describe(S, S.get(v, a)) for a in ("rank", "true_rank", "shape", "transpose", "seed")])
        m, _ = S.I.class_lookup(v.cls, "to_numpy")
        if m is not None:
            extra = [describe(S, S.get(v, a)) for a in ("shape", "rank", "size") if a in v.attrs or S.I.class_lookup(v.cls, a)[0] is not None]
            return (n, [S.to_numpy(v)] + extra)
        return (n, [])
    if isinstance(v, (ListObj, tuple, list, GenObj)):
        return ("seq", [describe(S, x) for x in S.list(v)])
    if isinstance(v, DictObj):
        return ("dict", [(k, describe(S, x)) for _, (k, x) in sorted(v.d.items(), key=repr)])
    if isinstance(v, (NDArr, CArr, IntArr, Mask)):
        return S.net(v)
    if isinstance(v, IntStack):
        return ("seq", [S.net(r) for r in v.rows])
    return v


def same(S, label, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], list):
        if not (isinstance(b[1], list) and a[0] == b[0] and len(a[1]) == len(b[1])):
            S.bad(label, f"a {a[0]} of {len(a[1])} parts instead of a {b[0]}")
            return
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            same(S, f"{label}.{i}", x, y)
    elif isinstance(a, Net) or isinstance(b, Net):
        S.eq(label, a, b, "value after the earlier calls")
    elif isinstance(a, (int, Poly, Fraction)) and not isinstance(a, bool):
        S.eqint(label, a, b, "value after the earlier calls")
    elif isinstance(a, (GenDict, NativeObj)):
        pass
    else:
        S.true(label, a == b, f"{a!r} after the earlier calls, {b!r} without them")


def outcome(S, thunk):
    """description of the result, or of the refusal"""
    try:
        return describe(S, thunk())
    except PyRaise as e:
        return ("raises", [S.excname(e)])


def compare(S, label, used, fresh):
    try:
        want = outcome(S, fresh)
    except Unsupported as e:
        S.undet(label, str(e))
        return
    try:
        got = outcome(S, used)
    except Unsupported as e:
        S.undet(label, str(e))
        return
    same(S, label, got, want)


def touch(S, thunk):
    try:
        r = thunk()
        return S.list(r) if isinstance(r, GenObj) else r
    except (PyRaise, Unsupported):
        return None


# ---------------------------------------------------------------- tensors
def tensor_ops(S, fmt, sh, shT):
    """{name: operation} for a tensor of the format; the operands are fixed"""
    lib = S.lib
    d = len(sh)
    Z = {True: S.tt("Z", sh, tuple(S.sym(f"Z.r{k}", 1) for k in range(d - 1))), False: S.tt("ZT", shT, tuple(S.sym(f"ZT.r{k}", 1) for k in range(d - 1)))}
    q = S.sym("q", 1)
    idx = {k: IntStack(S.index_rows("I" + str(k), s, q), q) for k, s in ((True, sh), (False, shT))}
    maps = {}
    for k, s in ((True, sh), (False, shT)):
        lr = S.ranks(s, f"l{int(k)}")
        kind = "SparseGaussianDRM" if fmt.startswith("sparse") else "TensorTrainDRM"
        maps[k] = (kind, lr, grow(S, lr, f"e{int(k)}"))

    def nat(X):
        return len(S.get(X, "shape")) == d and all(P.peq(a, b) for a, b in zip(S.get(X, "shape"), sh))

    def sk(X):
        kind, lr, rr = maps[nat(X)]
        s = sh if nat(X) else shT
        L, R = mk_drm(S, kind, lr, s, False, seed_sym(S, "s1")), mk_drm(S, kind, rr, s, True, seed_sym(S, "s2"))
        return S.call(S.ns("sketch")["stream_sketch"], X, lr, rr, left_drm=L, right_drm=R)
    ops = {
        "to_numpy": lambda X: S.m(X, "to_numpy"), "T": lambda X: S.get(X, "T"), "size": lambda X: S.get(X, "size"), "shape": lambda X: S.get(X, "shape"),
        "norm": lambda X: S.m(X, "norm"), "dot": lambda X: S.m(X, "dot", Z[nat(X)]), "rdot": lambda X: S.m(Z[nat(X)], "dot", X), "dense": lambda X: S.m(X, "dense"),
        "neg": lambda X: lib.unop("USub", X), "mul": lambda X: lib.binop("Mult", X, 3), "add": lambda X: lib.binop("Add", X, Z[nat(X)]),
        "self": lambda X: lib.binop("Sub", X, X), "repr": lambda X: S.m(X, "__repr__"), "ndim": lambda X: S.get(X, "ndim"),
        "error": lambda X: S.m(X, "error", Z[nat(X)]), "sketch": sk}
    if fmt in ("tt", "cp", "tucker"):
        ops["rank"] = lambda X: S.get(X, "rank")
    if fmt in ("tt", "cp", "sparse", "sparse_t"):
        ops["gather"] = lambda X: S.m(X, "gather", idx[nat(X)])
    if fmt == "tt":
        ops.update({"partial lr": lambda X: S.m(X, "partial_dense", "lr"), "partial rl": lambda X: S.m(X, "partial_dense", "rl"),
                    "add tt": lambda X: S.m(X, "add", Z[nat(X)])})
    if fmt in ("tt", "cp"):
        ops["item"] = lambda X: S.m(X, "__getitem__", 0)
    if fmt.startswith("sparse"):
        ops.update({"split": lambda X: S.m(X, "split", 2), "nnz": lambda X: S.get(X, "nnz")})
    if fmt == "dense":
        ops["to_sparse"] = lambda X: S.m(X, "to_sparse")
    return ops


DERIVE = {
    "itself": lambda S, X: X, "transposed": lambda S, X: S.get(X, "T"), "scaled": lambda S, X: S.binop("Mult", X, 3), "negated": lambda S, X: S.lib.unop("USub", X),
    "twice transposed": lambda S, X: S.get(S.get(X, "T"), "T"), "added": lambda S, X: S.binop("Add", X, X),
    "copied": lambda S, X: S.call(S.client("from copy import deepcopy")["deepcopy"], X),
    "shallow": lambda S, X: S.call(S.client("from copy import copy")["copy"], X),
}


def used_tensor(S, fmt, d, before):
    sh = S.dims(d)
    make = lambda: mkd(S, fmt, "X", sh)[0]
    ops = tensor_ops(S, fmt, sh, sh[::-1])
    for how, f in DERIVE.items():
        X = make()
        for a in (before if isinstance(before, tuple) else (before,)):
            touch(S, lambda: ops[a](X))
        D = touch(S, lambda: f(S, X))
        if D is None:
            continue
        for b, g in ops.items():
            compare(S, f"{before} then {how} {b}", lambda: g(D), lambda: g(f(S, make())))
        # the derived objects were used: the original is unaffected
        compare(S, f"{before}, {how}, then original", lambda: ops["to_numpy"](X), lambda: ops["to_numpy"](make()))


def heavy_tt(S, d, before):
    """orthogonalisation, singular values and rounding before and after other calls"""
    sh = S.dims(d)
    make = lambda: S.tt("X", sh, adm_ranks(S, sh, "X.r"))
    heavy = {"orthogonalize": lambda X: S.get(S.m(X, "orthogonalize"), "cores"), "svdvals": lambda X: S.m(X, "svdvals"),
             "round": lambda X: S.get(S.m(X, "round", max_rank=ListObj([2] * (d - 1))), "cores")}
    light = {"to_numpy": lambda X: S.m(X, "to_numpy"), "T": lambda X: S.get(X, "T"), "norm": lambda X: S.m(X, "norm"), "cores": lambda X: S.get(X, "cores")}
    allops = dict(heavy, **light)
    for how in ("itself", "scaled", "transposed"):
        X = make()
        touch(S, lambda: allops[before](X))
        D = DERIVE[how](S, X)
        for b, g in (light if before in heavy else heavy).items():
            compare(S, f"{before} then {how} {b}", lambda: g(D), lambda: g(DERIVE[how](S, make())))
    X = make()
    touch(S, lambda: allops[before](X))
    compare(S, f"{before} twice", lambda: allops[before](X), lambda: allops[before](make()))


def replaced(S, fmt, d):
    """assigning a core through the public item interface is visible in everything computed afterwards"""
    sh = S.dims(d)
    make = lambda: mkd(S, fmt, "X", sh)[0]
    ops = tensor_ops(S, fmt, sh, sh[::-1])
    for k in range(d):
        def change(X):
            c = S.list(S.get(X, "cores"))[k]
            S.m(X, "__setitem__", k, S.atom("new", *c.shape))
            return X
        for a in ops:
            if a in ("error", "sketch", "add", "self"):
                continue
            X = make()
            touch(S, lambda: ops[a](X))
            change(X)
            for b in ("to_numpy", "norm", "dot", "gather", "T"):
                compare(S, f"{a}, core {k} assigned, {b}", lambda: ops[b](X), lambda: ops[b](change(make())))


def arrays_of(S, X, fmt):
    """{name: (current shape, assign)} for every array the tensor holds, written in place by the owner"""
    SET = S.client("def put(a, v):\n    a[...] = v\ndef item(l, k, v):\n    l[k] = v\ndef attr(o, v):\n    o.data = v\ndef ent(o, v):\n    o.entries = v\ndef core(o, v):\n    o.core = v\n")
    out = {}
    inplace = lambda a: (lambda new: S.call(SET["put"], a(), new))
    if fmt in ("tt", "cp"):
        for k in range(len(S.list(S.get(X, "cores")))):
            g = lambda k=k: S.list(S.get(X, "cores"))[k]
            out[f"core {k} in place"] = (g().shape, inplace(g))
            out[f"core {k}"] = (g().shape, lambda new, k=k: S.call(SET["item"], S.get(X, "cores"), k, new))
    elif fmt == "stt":
        for n in ("Psi_cores", "Omega_mats"):
            for k in range(len(S.list(S.get(X, n)))):
                g = lambda n=n, k=k: S.list(S.get(X, n))[k]
                out[f"{n} {k} in place"] = (g().shape, inplace(g))
    elif fmt == "tucker":
        for k in range(len(S.list(S.get(X, "factors")))):
            g = lambda k=k: S.list(S.get(X, "factors"))[k]
            out[f"factor {k} in place"] = (g().shape, inplace(g))
        g = lambda: S.get(X, "core")
        out["core in place"] = (g().shape, inplace(g))
        out["core"] = (g().shape, lambda new: S.call(SET["core"], X, new))
    elif fmt == "dense":
        g = lambda: S.get(X, "data")
        out["data in place"] = (g().shape, inplace(g))
        out["data"] = (g().shape, lambda new: S.call(SET["attr"], X, new))
    elif fmt == "sparse":
        g = lambda: S.get(X, "entries")
        out["entries in place"] = (g().shape, inplace(g))
        out["entries"] = (g().shape, lambda new: S.call(SET["ent"], X, new))
    return out


def contents(S, fmt, d, before):
    """the owner changes the content of the tensor between two operations"""
    sh = S.dims(d)
    make = lambda: mkd(S, fmt, "X", sh)[0]
    ops = tensor_ops(S, fmt, sh, sh[::-1])
    for how in arrays_of(S, make(), fmt):
        def change(X):
            shape, put = arrays_of(S, X, fmt)[how]
            put(S.atom("new", *shape))
            return X
        X = make()
        touch(S, lambda: ops[before](X))
        change(X)
        for b, g in ops.items():
            compare(S, f"{before}, {how} assigned, {b}", lambda: g(X), lambda: g(change(make())))


# ---------------------------------------------------------------- maps
def drm_ops(S, kind, sh, lr):
    fm, sl, inc = DRMS[kind][1:]
    d = len(sh)
    a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
    for r, x in zip(lr, a):
        P.add_fact(P.psub(r, x))
    bigger = grow(S, lr, "g")
    ops = {}
    for f in fm:
        X, Y = mkd(S, f, "X", sh)[0], mkd(S, f, "Y", sh)[0]
        for n, Z in (("X", X), ("Y", Y)):
            # a transposed map is used with transposed tensors
            ops[f"sketch {f} {n}"] = lambda D, f=f, Z=Z: S.list(S.m(D, SKETCH_METHOD[f], Z if same_shape(S, D, sh) else S.get(Z, "T")))
    ops["repr"] = lambda D: S.m(D, "__repr__")
    ops["T"] = lambda D: S.get(D, "T")
    derive = {"itself": lambda D: D, "transposed": lambda D: S.get(D, "T"), "twice transposed": lambda D: S.get(S.get(D, "T"), "T")}
    if sl:
        z = (0,) * (d - 1)
        derive["head"] = lambda D: S.m(D, "slice", z, a)
        derive["tail"] = lambda D: S.m(D, "slice", a, lr)
    if inc:
        derive["increased"] = lambda D: S.m(D, "increase_rank", bigger)
    return ops, derive


def same_shape(S, D, sh):
    return all(P.peq(a, b) for a, b in zip(S.get(D, "shape"), sh))


def used_map(S, kind, d, tr, before):
    sh = S.dims(d)
    lr = S.ranks(sh, "r")
    make = lambda: mk_drm(S, kind, lr, sh, tr, seed_sym(S, "s"))
    ops, derive = drm_ops(S, kind, sh, lr)
    D = make()
    if before in ops:
        touch(S, lambda: ops[before](D))
    else:
        E = touch(S, lambda: derive[before](D))
        for g in list(ops.values()):
            if E is not None:
                touch(S, lambda: g(E))
    for how, f in derive.items():
        E = touch(S, lambda: f(D))
        for b, g in ops.items():
            compare(S, f"{before} then {how} {b}", lambda: g(E), lambda: g(f(make())))


# ---------------------------------------------------------------- sketches
def used_sketch(S, kind, fmt, d, before):
    sh = S.dims(d)
    X, Y = mkd(S, fmt, "X", sh)[0], mkd(S, fmt, "Y", sh)[0]
    lr, rr = sketch_ranks(S, sh)
    L, R = mk_drm(S, kind, lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kind, rr, sh, True, seed_sym(S, "s2"))
    make = lambda: stream(S, X, lr, rr, mk_drm(S, kind, lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kind, rr, sh, True, seed_sym(S, "s2")))
    l2, r2 = grow(S, lr, "g"), grow(S, rr, "h")
    nat = lambda s: same_shape(S, s, sh)
    tr = lambda s, Z: Z if nat(s) else S.get(Z, "T")
    ops = {"to_tt": lambda s: S.get(S.m(s, "to_tt"), "cores"), "left": lambda s: S.m(s, "C_cores", "left"), "right": lambda s: S.m(s, "C_cores", "right"),
           "size": lambda s: S.get(s, "size"), "T": lambda s: S.get(s, "T"), "repr": lambda s: S.m(s, "__repr__"),
           "+ Y": lambda s: S.binop("Add", s, tr(s, Y)), "- Y": lambda s: S.binop("Sub", s, tr(s, Y)), "* 3": lambda s: S.binop("Mult", s, 3),
           "sketch": lambda s: s, "negative": lambda s: S.lib.unop("USub", s)}
    derive = {"itself": lambda s: s, "scaled": lambda s: S.binop("Mult", s, 3), "updated": lambda s: S.binop("Add", s, Y), "transposed": lambda s: S.get(s, "T")}
    if DRMS[kind][3]:
        derive["increased"] = lambda s: S.m(s, "increase_rank", X, l2, r2)
    s = make()
    if before in ops:
        touch(S, lambda: ops[before](s))
    elif before in derive:
        E = touch(S, lambda: derive[before](s))
        for g in ops.values():
            touch(S, lambda: g(E))
    for how, f in derive.items():
        E = touch(S, lambda: f(s))
        if E is None:
            continue
        for b, g in ops.items():
            compare(S, f"{before} then {how} {b}", lambda: g(E), lambda: g(f(make())))


# ---------------------------------------------------------------- linear maps
def used_operator(S, d, before):
    si, so = S.dims(d, name="p"), S.dims(d, name="q")
    r = tuple(S.sym(f"m{k}", 1) for k in range(d - 1))
    M = lambda: mpo(S, "M", si, so, r)
    LS = S.cls("tt_gmres", "TTLinearMapSum")
    x, y = mk(S, "tt", "x", si), mk(S, "tt", "y", si)
    u = mk(S, "tt", "u", so)
    Pm = S.atom("P", si[0], si[0])
    objs = {"operator": M, "sum": lambda: S.call(LS, ListObj([M(), mpo(S, "M2", si, so, r)])),
            "preconditioner": lambda: S.call(S.cls("tt_gmres", "TTPrecond"), Pm, si, 0)}
    ops = {"operator": {"call x": lambda A: S.call(A, x), "call y": lambda A: S.call(A, y), "T": lambda A: S.get(A, "T"), "T call": lambda A: S.call(S.get(A, "T"), u),
                        "to_tt": lambda A: S.m(A, "to_tt"), "to_numpy": lambda A: S.m(A, "to_numpy"), "mul": lambda A: S.binop("Mult", A, 3), "norm": lambda A: S.m(A, "norm"),
                        "size": lambda A: S.get(A, "size"), "mul call": lambda A: S.call(S.binop("Mult", A, 3), x)},
           "sum": {"call x": lambda A: S.call(A, x), "call y": lambda A: S.call(A, y), "call x+y": lambda A: S.call(A, S.sum([x, y])),
                   "nested": lambda A: S.call(A, S.sum([x, S.sum([y, x])]))},
           "preconditioner": {"backward x": lambda A: S.m(A, "backward_call", x), "backward y": lambda A: S.m(A, "backward_call", y),
                              "forward x": lambda A: S.m(A, "forward_call", x), "forward y": lambda A: S.m(A, "forward_call", y), "call": lambda A: S.call(A, x)}}
    for n, make in objs.items():
        for a, f in ops[n].items():
            A = make()
            touch(S, lambda: f(A))
            for b, g in ops[n].items():
                compare(S, f"{n}: {a} then {b}", lambda: g(A), lambda: g(make()))


# ---------------------------------------------------------------- entry points
CLOBBER = """
import numpy as np


def clobber(x):
    if isinstance(x, np.ndarray):
        x[...] = 0
    elif hasattr(x, "cores"):
        for c in x.cores:
            c[...] = 0
    elif hasattr(x, "Psi_cores"):
        for c in x.Psi_cores:
            c[...] = 0
        for c in x.Omega_mats:
            c[...] = 0
    elif hasattr(x, "data"):
        x.data[...] = 0
    elif hasattr(x, "entries"):
        x.entries[...] = 0
    elif isinstance(x, list):
        x.clear()
    elif isinstance(x, dict):
        x.clear()
"""


def again(S, label, one, others, view=False):
    """one(), the other calls, one() again, with its first result overwritten in between"""
    try:
        a = one()
        first = describe(S, a)
    except PyRaise as e:
        S.bad(label, f"raises {S.excname(e)}: {e.exc}", e.loc)
        return
    except Unsupported as e:
        S.undet(label, f"{e} at {S.I.loc()}")
        return
    for i, f in enumerate(others):
        touch(S, f)
        compare(S, f"{label} after call {i}", one, lambda: FirstOf(first))
    if view:        # the result may share memory with the arguments
        return
    touch(S, lambda: S.call(S.client(CLOBBER)["clobber"], a))
    compare(S, f"{label} after overwriting its result", one, lambda: FirstOf(first))


class FirstOf:
    def __init__(self, d):
        self.d = d


_describe = describe


def describe(S, v, depth=0):      # noqa: F811
    return v.d if isinstance(v, FirstOf) else _describe(S, v, depth)


def entry(S, how, fmt, kind, d, by):
    sh = S.dims(d)
    sk = S.ns("sketch")
    X, Y = mkd(S, fmt, "X", sh)[0], mkd(S, fmt, "Y", sh)[0]
    lr = adm_ranks(S, sh)
    rr = grow(S, lr, "e")
    l2 = adm_ranks(S, sh, "v")
    r2 = grow(S, l2, "w")
    cls = drm_cls(S, kind)
    oth = S.dims(d, name="m")
    W = mkd(S, fmt, "W", oth)[0]
    l3 = adm_ranks(S, oth, "u")
    r3 = grow(S, l3, "t")
    f = sk[{"stream": "stream_sketch", "orth": "orthogonal_sketch", "hmt": "hmt_sketch"}[how]]
    s1, s2 = seed_sym(S, "s1"), seed_sym(S, "s2")

    def call(Z, shape, a, b, seed):
        if by == "type":
            if how == "hmt":
                return S.call(f, Z, a, seed=seed, drm_type=cls)
            return S.call(f, Z, a, b, seed=seed, left_drm_type=cls, right_drm_type=cls)
        R = S.call(cls, a if how == "hmt" else b, shape=shape, transpose=True, seed=seed)
        if how == "hmt":
            return S.call(f, Z, a, drm=R)
        L = S.call(cls, a, shape=shape, transpose=False, seed=P.padd(seed, 1))
        return S.call(f, Z, a, b, left_drm=L, right_drm=R)
    again(S, how, lambda: call(X, sh, lr, rr, s1),
          [lambda: call(Y, sh, lr, rr, s1), lambda: call(X, sh, l2, r2, s1), lambda: call(X, sh, lr, rr, s2), lambda: call(W, oth, l3, r3, s1)])


def blocked(S, kind, fmt, d):
    sh = S.dims(d)
    X, Y = mkd(S, fmt, "X", sh)[0], mkd(S, fmt, "Y", sh)[0]
    lr, rr = sketch_ranks(S, sh)
    z = (0,) * (d - 1)
    a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
    b = tuple(S.sym(f"b{k}", 1) for k in range(d - 1))
    for r, x in list(zip(lr, a)) + list(zip(rr, b)):
        P.add_fact(P.psub(r, x))
    L = lambda s: mk_drm(S, kind, lr, sh, False, seed_sym(S, s))
    R = lambda s: mk_drm(S, kind, rr, sh, True, seed_sym(S, s))
    f = S.ns("sketch")["blocked_stream_sketch"]
    go = lambda Z, s, cut: S.call(f, Z, L(s), R(s + "r"), ListObj([z, a, lr] if cut else [z, lr]), ListObj([z, b, rr]))
    again(S, "blocked", lambda: go(X, "s1", True), [lambda: go(X, "s1", False), lambda: go(Y, "s1", True), lambda: go(X, "s2", True)])


def constructors(S, d):
    sh, oth = S.dims(d), S.dims(d, name="m")
    s1, s2 = seed_sym(S, "s1"), seed_sym(S, "s2")
    r, q = S.sym("r", 1), S.sym("q", 1)
    T = lambda n: S.cls("tensor", n)
    rnd = lambda c, *a, **k: S.call(S.get(c, "random"), *a, **k)
    lr = adm_ranks(S, sh)
    for n, c, a, b in (("TensorTrain", T("TensorTrain"), (sh, lr), (oth, adm_ranks(S, oth, "u"))), ("CPTensor", T("CPTensor"), (sh, r), (oth, r)),
                       ("TuckerTensor", T("TuckerTensor"), (sh, r), (oth, r)), ("SparseTensor", T("SparseTensor"), (sh, 5), (oth, 5))):
        again(S, n, lambda: rnd(c, *a, seed=s1), [lambda: rnd(c, *b, seed=s1), lambda: rnd(c, *a, seed=s2), lambda: rnd(c, *a)])
    for kw in ({"orthog": True}, {"norm_goal": "norm-1"}, {"norm_goal": "norm-preserve"}):
        again(S, f"TensorTrain {kw}", lambda: rnd(T("TensorTrain"), sh, lr, seed=s1, **kw),
              [lambda: rnd(T("TensorTrain"), sh, lr, seed=s1), lambda: rnd(T("TensorTrain"), sh, lr, seed=s2, **kw)])
    again(S, "zero", lambda: S.call(S.get(T("TensorTrain"), "zero"), sh, r), [lambda: S.call(S.get(T("TensorTrain"), "zero"), oth, r)])
    again(S, "eye", lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "eye"), sh), [lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "eye"), oth)])


def helpers(S):
    u = S.ns("utils")
    f = lambda n: (lambda *a, **k: S.call(u[n], *a, **k))
    n1, n2 = S.sym("n1", 2), S.sym("n2", 2)
    again(S, "hilbert", lambda: f("hilbert_tensor")(3, n1), [lambda: f("hilbert_tensor")(3, n2), lambda: f("hilbert_tensor")(2, n1)])
    again(S, "sqrt", lambda: f("sqrt_tensor")((n1, n2)), [lambda: f("sqrt_tensor")((n2, n1)), lambda: f("sqrt_tensor")((n1, n2), a=1, b=3)])
    again(S, "trim", lambda: f("trim_ranks")((n1, n2, n1), (3, 4)), [lambda: f("trim_ranks")((n2, n2, n2), (3, 4))])
    again(S, "rank", lambda: f("process_tt_rank")(3, (n1, n2, n1), trim=False), [lambda: f("process_tt_rank")((2, 3), (n1, n2, n1), trim=False)])
    again(S, "capabilities", lambda: S.call(S.ns("sketch")["get_drm_capabilities"]), [lambda: S.call(S.ns("sketch")["get_drm_capabilities"])])
    A, B = S.atom("A", n1, n2, S.sym("n3", 2)), S.atom("B", n1, n2, S.sym("n3", 2))
    for m in (0, 1, 2):
        again(S, f"matricize {m}", lambda: f("matricize")(A, m), [lambda: f("matricize")(B, m), lambda: f("matricize")(A, 0)], view=True)
    C, D = S.atom("C", n1, n2), S.atom("D", n1, n2)
    again(S, "right pinv", lambda: f("right_mul_pinv")(C, D), [lambda: f("right_mul_pinv")(D, C)])
    again(S, "projector", lambda: f("projector")(C), [lambda: f("projector")(D), lambda: f("projector")(C, D)])


def decompositions(S, d):
    sh = S.dims(d)
    g = S.ns("tt_svd")["tt_svd"]
    X, Y = S.dense("X", sh), S.dense("Y", sh)
    again(S, "tt_svd", lambda: S.call(g, X, 2), [lambda: S.call(g, Y, 2), lambda: S.call(g, X, 3), lambda: S.call(g, X)])
    xs = [mk(S, "tt", f"x{k}", sh) for k in range(2)]
    ys = [mk(S, "tt", f"y{k}", sh) for k in range(2)]
    f = S.ns("tt_gmres")["round_tt_sum"]
    for m in ("exact", "pairwise"):
        try:
            go = lambda z, r: S.call(f, S.sum(z), r, method=m)
            S.call(f, S.sum(xs), 2, method=m)
        except PyRaise:
            continue
        except Unsupported:
            pass
        again(S, f"round {m}", lambda: go(xs, 2), [lambda: go(ys, 2), lambda: go(xs, 3)])


CASES = []
OPS = ("to_numpy", "T", "norm", "dot", "rdot", "dense", "neg", "mul", "add", "repr", "sketch", "error", "size")
EXTRA = {"tt": ("gather", "partial lr", "partial rl", "add tt", "item"), "cp": ("gather", "item"), "sparse": ("gather", "split", "nnz"),
         "sparse_t": ("gather", "split"), "dense": ("to_sparse",)}
for fmt in ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested"):
    for d in (2, 3):
        for a in OPS + EXTRA.get(fmt, ()):
            CASES.append(Case("C33", f"tensor {fmt} {d} {a}", used_tensor, (fmt, d, a), tier="quick" if d == 3 or fmt in ("sparse", "tt") else "thorough", max_paths=8))
for d in (2, 3):
    for a in ("orthogonalize", "svdvals", "round", "to_numpy", "T", "norm", "cores"):
        CASES.append(Case("C33", f"train {d} {a}", heavy_tt, (d, a), max_paths=16))
    for fmt in ("tt", "cp"):
        CASES.append(Case("C33", f"assigned {fmt} {d}", replaced, (fmt, d), max_paths=4))
for fmt in ("dense", "sparse", "tt", "cp", "tucker", "stt"):
    for d in (2, 3):
        for a in OPS + EXTRA.get(fmt, ()):
            CASES.append(Case("C33", f"contents {fmt} {d} {a}", contents, (fmt, d, a), tier="quick" if d == 2 or a in ("norm", "T", "sketch") else "thorough", max_paths=8))
for kind in DRMS:
    fm, sl, inc = DRMS[kind][1:]
    for d in (2, 3):
        for tr in (False, True):
            for a in [f"sketch {f} {n}" for f in fm for n in "XY"] + ["T", "repr", "transposed"] + (["head", "tail"] if sl else []) + (["increased"] if inc else []):
                CASES.append(Case("C33", f"map {kind} {d} {tr} {a}", used_map, (kind, d, tr, a), max_paths=8, tier="quick" if d == 3 else "thorough"))
for kind, fmt in (("TensorTrainDRM", "tt"), ("DenseGaussianDRM", "dense"), ("SparseGaussianDRM", "sparse"), ("SparseSignDRM", "sparse"), ("TensorTrainDRM", "cp")):
    for d in (2, 3):
        for a in ("to_tt", "left", "right", "size", "T", "repr", "+ Y", "- Y", "* 3", "negative", "scaled", "updated", "transposed", "increased"):
            if a == "increased" and not DRMS[kind][3]:
                continue
            CASES.append(Case("C33", f"sketch {kind} {fmt} {d} {a}", used_sketch, (kind, fmt, d, a), max_paths=8, tier="quick" if d == 3 else "thorough"))
for d in (1, 2, 3):
    CASES.append(Case("C33", f"operators {d}", used_operator, (d, None), max_paths=8))
for how in ("stream", "orth", "hmt"):
    for fmt in FORMATS + ("sum",):
        for kind in DRMS:
            fs = ("tt", "sparse") if fmt == "sum" else (fmt,)
            if not all(f in DRMS[kind][1] for f in fs):
                continue
            for by in ("type", "map"):
                for d in (2, 3):
                    CASES.append(Case("C33", f"{how} {fmt} {kind} {by} {d}", entry, (how, fmt, kind, d, by), max_paths=8, tier="quick" if d == 3 else "thorough"))
for kind in DRMS:
    for fmt in DRMS[kind][1]:
        CASES.append(Case("C33", f"blocked {kind} {fmt}", blocked, (kind, fmt, 3), max_paths=8))
for d in (2, 3):
    CASES.append(Case("C33", f"constructors {d}", constructors, (d,), max_paths=16))
    CASES.append(Case("C33", f"decompositions {d}", decompositions, (d,), max_paths=32, timeout=200))
CASES.append(Case("C33", "helpers", helpers, (), max_paths=32))
