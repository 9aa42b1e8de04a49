"""C14 Reported shape, rank and size describe the stored data.

Rule: for the result of every operation the reported attributes (inferred as symbolic integers) equal the sizes of the stored
arrays (also inferred); consecutive cores share their edge, boundary edges are one, and the storage size is the sum of the
products of the stored sizes."""
from spec.common import *

ALL = ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested", "stt")


def prod(xs):
    p = 1
    for x in xs:
        p = P.pmul(p, x)
    return p


def name_of(x):
    return getattr(getattr(x, "cls", None), "name", "")


def shp(S, a):
    return tuple(S.lib.shape_of(a)) if hasattr(S.lib, "shape_of") else tuple(S.get(a, "shape"))


def tup(S, label, x, attr, want):
    S.eqtuple(f"{label}.{attr}", S.run(f"{label}.{attr}", lambda: S.get(x, attr)), tuple(want), attr)


def integer(S, label, x, attr, want):
    S.eqint(f"{label}.{attr}", S.run(f"{label}.{attr}", lambda: S.get(x, attr)), want, attr)


def length(S, label, x, want):
    S.true(label, len(x) == want, f"{len(x)} arrays are stored, expected {want}")
    return len(x) == want


def describe(S, label, x, shape=None):
    """compare what ``x`` reports with what it stores; returns its storage size"""
    k = name_of(x)
    if isinstance(x, (tuple, list)) and not k:
        for i, y in enumerate(x):
            describe(S, f"{label}[{i}]", y)
        return None
    if k in ("TensorTrain", "CPTensor", "MPO"):
        cs = [shp(S, c) for c in S.list(S.get(x, "cores"))]
        nd = {"TensorTrain": 3, "CPTensor": 2, "MPO": 4}[k]
        for c in cs:
            if len(c) != nd:
                S.bad(label, f"a core has shape {c}")
                return None
        size = 0
        for c in cs:
            size = P.padd(size, prod(c))
        if k == "CPTensor":
            tup(S, label, x, "shape", [c[0] for c in cs])
            for c in cs:
                S.eqint(label + ".rank", S.get(x, "rank"), c[1], "rank")
        else:
            S.eqint(label + " first edge", cs[0][0], 1, "boundary rank")
            S.eqint(label + " last edge", cs[-1][-1], 1, "boundary rank")
            for i, (a, b) in enumerate(zip(cs, cs[1:])):
                S.eqint(f"{label} edge {i}", a[-1], b[0], "edge between cores")
            tup(S, label, x, "rank", [c[0] for c in cs[1:]])
            if k == "MPO":
                tup(S, label, x, "in_shape", [c[1] for c in cs])
                tup(S, label, x, "out_shape", [c[2] for c in cs])
                tup(S, label, x, "shape", [P.pmul(c[1], c[2]) for c in cs])
            else:
                tup(S, label, x, "shape", [c[1] for c in cs])
        nmodes = len(cs)
    elif k == "TuckerTensor":
        cs = [shp(S, c) for c in S.list(S.get(x, "factors"))]
        core = shp(S, S.get(x, "core"))
        tup(S, label, x, "shape", [c[1] for c in cs])
        tup(S, label, x, "rank", [c[0] for c in cs])
        S.eqtuple(label + ".core", core, tuple(c[0] for c in cs), "shape of the core")
        size = prod(core)
        for c in cs:
            size = P.padd(size, prod(c))
        nmodes = len(cs)
    elif k == "DenseTensor":
        c = shp(S, S.get(x, "data"))
        tup(S, label, x, "shape", c)
        size, nmodes = prod(c), len(c)
    elif k == "SparseTensor":
        e = shp(S, S.get(x, "entries"))
        i = shp(S, S.get(x, "indices"))
        nmodes = len(S.get(x, "shape"))
        S.eqtuple(label + ".indices", i, (nmodes,) + e, "shape of the indices")
        integer(S, label, x, "nnz", e[0])
        size = P.pmul(e[0], nmodes + 1)
        if shape is None:
            shape = S.get(x, "shape")
    elif k == "TensorSum":
        ts = S.list(S.get(x, "tensors"))
        integer(S, label, x, "num_summands", len(ts))
        size = 0
        shape = S.get(x, "shape") if shape is None else shape
        for i, t in enumerate(ts):
            s = describe(S, f"{label}.tensors[{i}]", t, shape)
            if s is None:
                return None
            size = P.padd(size, s)
        nmodes = len(shape)
    elif k == "SketchContainer":
        Ps = [shp(S, c) for c in S.list(S.get(x, "Psi_cores"))]
        Os = [shp(S, c) for c in S.list(S.get(x, "Omega_mats"))]
        tup(S, label, x, "shape", [p[1] for p in Ps])
        tup(S, label, x, "left_rank", [o[0] for o in Os])
        tup(S, label, x, "right_rank", [o[1] for o in Os])
        S.eqint(label + " first edge", Ps[0][0], 1, "boundary rank")
        S.eqint(label + " last edge", Ps[-1][2], 1, "boundary rank")
        for i, o in enumerate(Os):
            S.eqint(f"{label} left edge {i}", Ps[i + 1][0], o[0], "left edge")
            S.eqint(f"{label} right edge {i}", Ps[i][2], o[1], "right edge")
        return None
    elif k == "SketchedTensorTrain":
        sk = S.get(x, "sketch_")
        describe(S, label + ".sketch_", sk)
        Ps = [shp(S, c) for c in S.list(S.get(x, "Psi_cores"))]
        Os = [shp(S, c) for c in S.list(S.get(x, "Omega_mats"))]
        tup(S, label, x, "shape", [p[1] for p in Ps])
        tup(S, label, x, "left_rank", [o[0] for o in Os])
        tup(S, label, x, "right_rank", [o[1] for o in Os])
        for m in ("left_drm", "right_drm"):
            S.eqtuple(f"{label}.{m}.shape", S.get(S.get(x, m), "shape"), tuple(p[1] for p in Ps), f"shape of {m}")
        size = 0
        for c in Ps + Os:
            size = P.padd(size, prod(c))
        nmodes = len(Ps)
    else:
        S.undet(label, f"unexpected result {S.desc(x)}")
        return None
    integer(S, label, x, "ndim", nmodes)
    integer(S, label, x, "size", size)
    if shape is not None:
        tup(S, label + " as asked", x, "shape", shape)
    return size


def looks(S, label, f, shape=None):
    r = S.trying(label, f)
    if r is not None:
        try:
            describe(S, label, r, shape)
        except Stop:
            pass
    return r


def ops(S, fmt, d, unit, ur):
    sh = S.dims(d, unit)
    X, _ = mkd(S, fmt, "X", sh, ur)
    rev = tuple(reversed(sh))
    lib = S.lib
    c = S.atom("c") if fmt != "stt" else 3
    looks(S, "itself", lambda: X, sh)
    looks(S, "T", lambda: S.get(X, "T"), rev)
    looks(S, "T T", lambda: S.get(S.get(X, "T"), "T"), sh)
    looks(S, "neg", lambda: lib.unop("USub", X), sh)
    looks(S, "mul", lambda: lib.binop("Mult", X, c), sh)
    looks(S, "div", lambda: lib.binop("Div", X, 4), sh)
    looks(S, "dense", lambda: S.m(X, "dense"), sh)
    S.eqtuple("to_numpy", S.run("to_numpy", lambda: S.to_numpy(X)).shape, sh, "shape of the dense array")
    if fmt == "dense":
        looks(S, "to_sparse", lambda: S.m(X, "to_sparse"), sh)
    if fmt.startswith("sparse"):
        for n in (1, 2, 3):
            r = looks(S, f"split {n}", lambda n=n: S.m(X, "split", n), sh)
            if r is not None:
                tot = 0
                for t in S.list(S.get(r, "tensors")):
                    tot = P.padd(tot, S.get(t, "nnz"))
                S.eqint(f"split {n} nnz", tot, S.get(X, "nnz"), "nonzeros of all blocks")
    if fmt == "tt":
        o = looks(S, "orthogonalize", lambda: S.m(X, "orthogonalize"), sh)
        if d > 1 and o is not None:
            looks(S, "orthogonalize T", lambda: S.get(o, "T"), rev)
        looks(S, "set item", lambda: [S.m(X, "__setitem__", 0, S.atom("new", *S.list(S.get(X, "cores"))[0].shape)), X][1], sh)
    if fmt == "stt":
        looks(S, "to_tt", lambda: S.m(X, "to_tt"), sh)
        looks(S, "T to_tt", lambda: S.m(S.get(X, "T"), "to_tt"), rev)
        sk = S.get(X, "sketch_")
        for label, f in (("sketch neg", lambda: lib.unop("USub", sk)), ("sketch mul", lambda: lib.binop("Mult", sk, 2)), ("sketch T", lambda: S.get(sk, "T")),
                         ("sketch add", lambda: lib.binop("Add", sk, sk)), ("sketch sub", lambda: lib.binop("Sub", sk, sk)), ("sketch div", lambda: lib.binop("Div", sk, 2))):
            looks(S, label, f)


def pair(S, f1, f2, d):
    sh = S.dims(d)
    X, _ = mkd(S, f1, "X", sh)
    Y, _ = mkd(S, f2, "Y", sh)
    lib = S.lib
    a = looks(S, "add", lambda: lib.binop("Add", X, Y), None if f1 == "stt" else sh)
    looks(S, "sub", lambda: lib.binop("Sub", X, Y), sh)
    if f1 != "stt":
        n = len(S.list(S.get(X, "tensors"))) if f1 in ("sum", "nested") else 1
        m = len(S.list(S.get(Y, "tensors"))) if f2 in ("sum", "nested") else 1
        if a is not None:
            S.eqint("num_summands", S.get(a, "num_summands"), n + m, "number of summands")
            looks(S, "add T", lambda: S.get(a, "T"), tuple(reversed(sh)))
            looks(S, "scaled", lambda: lib.binop("Mult", a, 2), sh)
        W = S.sum([X])
        W = looks(S, "iadd", lambda: S.m(W, "__iadd__", Y), sh)
        if W is not None:
            S.eqint("iadd num_summands", S.get(W, "num_summands"), 1 + m, "number of summands")
    if f1 == f2 == "tt":
        r = looks(S, "add tt", lambda: S.m(X, "add", Y), sh)
        rx, ry = S.get(X, "rank"), S.get(Y, "rank")
        S.eqtuple("add tt rank", S.get(r, "rank"), tuple(P.padd(p, q) for p, q in zip(rx, ry)), "rank of the direct sum")


def rounding(S, d, unit, kw):
    sh = S.dims(d, unit)
    X = S.tt("X", sh, adm_ranks(S, sh, "X.r"))
    r = looks(S, "round", lambda: S.m(X, "round", **kw), sh)
    if r is not None:
        looks(S, "round T", lambda: S.get(r, "T"), tuple(reversed(sh)))


def sketched(S, fmt, kinds, d, unit, ls):
    sh = S.dims(d, unit)
    X, _ = mkd(S, fmt, "X", sh)
    rev = tuple(reversed(sh))
    if ls:
        lr = adm_ranks(S, sh)
        rr = grow(S, lr, "e")
    else:
        lr, rr = sketch_ranks(S, sh, False)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    for nm, m, t, r in (("left", L, False, lr), ("right", R, True, rr)):
        drm(S, nm, m, sh, r, t)
        drm(S, nm + " T", S.run("T", lambda: S.get(m, "T")), rev, tuple(reversed(r)), not t)
    sk = looks(S, "stream", lambda: stream(S, X, lr, rr, L, R), sh)
    if sk is not None:
        S.eqtuple("left_rank", S.get(sk, "left_rank"), lr, "left rank")
        S.eqtuple("right_rank", S.get(sk, "right_rank"), rr, "right rank")
        looks(S, "stream to_tt", lambda: S.m(sk, "to_tt"), sh)
        looks(S, "stream T", lambda: S.get(sk, "T"), rev)
        looks(S, "stream mul", lambda: S.lib.binop("Mult", sk, 2), sh)
        looks(S, "stream update", lambda: S.lib.binop("Add", sk, X), sh)
        looks(S, "stream T update", lambda: S.lib.binop("Add", S.get(sk, "T"), S.get(X, "T")), rev)
    if ls:
        o = looks(S, "orthogonal", lambda: S.call(S.ns("sketch")["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R), sh)
        if o is not None:
            S.eqtuple("orthogonal rank", S.get(o, "rank"), lr, "rank of the orthogonal sketch")
        H = mk_drm(S, kinds[1], lr, sh, True, seed_sym(S, "s3"))
        h = looks(S, "hmt", lambda: S.call(S.ns("sketch")["hmt_sketch"], X, lr, drm=H), sh)
        if h is not None:
            S.eqtuple("hmt rank", S.get(h, "rank"), lr, "rank of the HMT sketch")


def drm(S, label, m, shape, rank, transpose):
    """a map reports its ranks in the direction in which it sketches, and the shape of the tensor"""
    S.eqtuple(label + " map shape", S.get(m, "shape"), shape, "shape of the map")
    want = tuple(reversed(rank)) if transpose else tuple(rank)
    S.eqtuple(label + " map rank", S.get(m, "rank"), want, "rank of the map")
    S.true(label + " map transpose", S.get(m, "transpose") is transpose, "direction of the map")


def slices(S, fmt, kind, d, transpose):
    """slices and enlarged maps, and their results"""
    sh = S.dims(d)
    X, _ = mkd(S, fmt, "X", sh)
    a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
    b = grow(S, a, "b")
    r = grow(S, b, "c")
    m = mk_drm(S, kind, r, sh, transpose, seed_sym(S, "s"))
    for label, lo, hi in (("first", (0,) * (d - 1), a), ("middle", a, b), ("last", b, r)):
        s = S.run(label, lambda: S.m(m, "slice", lo, hi))
        drm(S, label, s, sh, tuple(P.psub(y, x) for x, y in zip(lo, hi)), transpose)
        mats = S.run(label, lambda: S.list(S.m(s, SKETCH_METHOD[fmt], X)))
        for k, x in enumerate(mats):
            S.eqint(f"{label} rows {k}", rows(S, fmt, x), P.psub(hi[k], lo[k]), "rows of a sliced map")
    if DRMS[kind][3]:
        big = S.run("increase", lambda: S.m(m, "increase_rank", grow(S, r, "g")))
        drm(S, "increase", big, sh, grow(S, r, "g"), transpose)


def rows(S, fmt, x):
    """the axis of a sketch that belongs to the rows of the map"""
    return x.shape[0] if fmt in ("dense", "sparse") else x.shape[-1]


def enlarged(S, fmt, kinds, d, side):
    sh = S.dims(d)
    X, _ = mkd(S, fmt, "X", sh)
    lr = tuple(S.sym(f"l{k}", 1) for k in range(d - 1))
    rr = grow(S, lr, "e")
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    sk = S.run("stream", lambda: stream(S, X, lr, rr, L, R))
    nl = grow(S, lr, "p") if side != "right" else lr
    nr = grow(S, grow(S, rr, "p"), "q") if side != "left" else rr
    big = looks(S, "increase", lambda: S.m(sk, "increase_rank", X, nl, nr), sh)
    if big is not None:
        S.eqtuple("left_rank", S.get(big, "left_rank"), nl, "left rank")
        S.eqtuple("right_rank", S.get(big, "right_rank"), nr, "right rank")
        looks(S, "increase T", lambda: S.get(big, "T"), tuple(reversed(sh)))


def operators(S, d, unit):
    g = S.ns("tt_gmres")
    i, o = S.dims(d, unit, "i"), S.dims(d, (), "o")
    r = (1,) + tuple(S.sym(f"m{k}", 1) for k in range(d - 1)) + (1,)
    A = S.call(g["MPO"], ListObj([S.atom(f"A{k}", r[k], i[k], o[k], r[k + 1]) for k in range(d)]))
    looks(S, "mpo", lambda: A)
    S.eqtuple("in", S.get(A, "in_shape"), i, "in_shape")
    S.eqtuple("out", S.get(A, "out_shape"), o, "out_shape")
    t = looks(S, "T", lambda: S.get(A, "T"))
    if t is not None:
        S.eqtuple("T in", S.get(t, "in_shape"), o, "in_shape of the transpose")
    looks(S, "mul", lambda: S.lib.binop("Mult", A, 3))
    looks(S, "to_tt", lambda: S.m(A, "to_tt"), tuple(P.pmul(a, b) for a, b in zip(i, o)))
    x = S.tt("x", i, tuple(S.sym(f"x{k}", 1) for k in range(d - 1)))
    y = looks(S, "apply", lambda: S.call(A, x), o)
    e = looks(S, "eye", lambda: S.call(S.get(g["MPO"], "eye"), i))
    if e is not None:
        S.eqtuple("eye in", S.get(e, "in_shape"), i, "in_shape")
        S.eqtuple("eye rank", S.get(e, "rank"), (1,) * (d - 1), "rank")
    M = S.call(g["TTLinearMapSum"], ListObj([A, S.lib.binop("Mult", A, 2)]))
    S.eqtuple("map sum in", S.get(M, "in_shape"), i, "in_shape")
    looks(S, "map sum apply", lambda: S.call(M, S.sum([x, x])), o)
    B = S.atom("B", i[0], i[0])
    p = S.call(g["TTPrecond"], B, i, mode=0)
    S.eqtuple("precond in", S.get(p, "in_shape"), i, "in_shape")
    S.eqtuple("precond out", S.get(p, "out_shape"), i, "out_shape")


CASES = []
for d in (2, 3, 4, 5):
    t = "quick" if d < 4 else "thorough"
    units = [(), (0,), (d - 1,)] + ([(1,)] if d > 2 else [])
    for fmt in ALL:
        for u in units:
            for ur in (False, True):
                CASES.append(Case("C14", f"ops_{fmt}_{d}_{u}_{ur}", ops, (fmt, d, u, ur), tier=t))
        for f2 in ALL:
            if f2 != "stt" and fmt != "stt" and d < 5:
                CASES.append(Case("C14", f"pair_{fmt}_{f2}_{d}", pair, (fmt, f2, d), tier=t))
    for u in units:
        CASES.append(Case("C14", f"operators_{d}_{u}", operators, (d, u), tier=t))
        for i, kw in enumerate(({}, {"max_rank": 2}, {"eps": Fraction(1, 10)}, {"eps": Fraction(1, 10), "max_rank": 3})):
            if d < 5:
                CASES.append(Case("C14", f"round_{d}_{u}_{i}", rounding, (d, u, kw), tier=t))
    for fmt in FORMATS + ("sum",):
        for kind, row in DRMS.items():
            if fmt == "sum" and not {"tt", "sparse"} <= set(row[1]):
                continue
            if fmt != "sum" and fmt not in row[1]:
                continue
            for ls in (True, False):
                for u in (units if d < 4 else [()]):
                    CASES.append(Case("C14", f"sketched_{fmt}_{kind}_{d}_{u}_{ls}", sketched, (fmt, (kind, kind), d, u, ls), tier=t))
            if fmt != "sum" and row[2]:
                for tr in (False, True):
                    CASES.append(Case("C14", f"slices_{fmt}_{kind}_{d}_{tr}", slices, (fmt, kind, d, tr), tier=t))
            if row[3]:
                for side in ("both", "left", "right"):
                    CASES.append(Case("C14", f"enlarged_{fmt}_{kind}_{d}_{side}", enlarged, (fmt, (kind, kind), d, side), tier=t))
