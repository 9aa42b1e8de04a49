"""Shared builders and oracles for the specifications."""
from harness import *

# DRM -> (module, formats it can sketch, sliceable, can increase its rank)
DRMS = {
    "TensorTrainDRM": ("drm.tensor_train_drm", ("dense", "sparse", "tt", "cp", "tucker"), True, False),
    "DenseGaussianDRM": ("drm.dense_gaussian_drm", ("dense", "sparse", "tt"), True, True),
    "SparseGaussianDRM": ("drm.sparse_gaussian_drm", ("sparse",), True, True),
    "SparseSignDRM": ("drm.sparse_sign_drm", ("sparse",), True, False),
}
FORMATS = ("dense", "sparse", "tt", "cp", "tucker")
SKETCH_METHOD = {"dense": "sketch_dense", "sparse": "sketch_sparse", "tt": "sketch_tt",
                 "cp": "sketch_cp", "tucker": "sketch_tucker"}


def drm_cls(S, kind):
    return S.cls(DRMS[kind][0], kind)


def mk_drm(S, kind, rank, shape, transpose, seed, **kw):
    return S.call(drm_cls(S, kind), rank, transpose=transpose, shape=tuple(shape), seed=seed, **kw)


def seed_sym(S, name="seed"):
    return S.sym(name, 0)


def mk(S, fmt, name, shape, unit_rank=False, nested=False):
    """a generic tensor of the format with its own symbolic ranks / nnz"""
    d = len(shape)
    if fmt == "dense":
        return S.dense(name, shape)
    if fmt == "sparse":
        return S.sparse(name, shape, S.sym(f"{name}.nnz", 1))
    if fmt == "sparse_t":
        return S.sparse(name, shape, S.sym(f"{name}.nnz", 1), as_tuple=True)
    if fmt == "tt":
        r = tuple(1 if unit_rank and k == 0 else S.sym(f"{name}.r{k}", 1) for k in range(d - 1))
        return S.tt(name, shape, r)
    if fmt == "cp":
        return S.cp(name, shape, S.sym(f"{name}.R", 1))
    if fmt == "tucker":
        s = tuple(1 if unit_rank and k == 0 else S.sym(f"{name}.s{k}", 1) for k in range(d))
        return S.tucker(name, shape, s)
    if fmt == "sum":
        return S.sum([mk(S, "tt", name + "a", shape), mk(S, "sparse", name + "b", shape)])
    raise ValueError(fmt)


def mk_zero(S, fmt, shape):
    """the zero tensor in each format"""
    z = lambda *sh: S.arr(N.zero_net(sh))
    if fmt == "dense":
        return S.call(S.cls("tensor", "DenseTensor"), z(*shape))
    if fmt == "sparse":
        rows = S.index_rows("Z", shape, 2)
        return S.call(S.cls("tensor", "SparseTensor"), shape, IntStack(rows, 2), z(2))
    if fmt == "tt":
        return S.call(S.get(S.cls("tensor", "TensorTrain"), "zero"), shape, 2)
    if fmt == "cp":
        return S.call(S.cls("tensor", "CPTensor"), ListObj([z(n, 2) for n in shape]))
    if fmt == "tucker":
        return S.call(S.cls("tensor", "TuckerTensor"), ListObj([S.atom(f"Z.U{k}", 2, n) for k, n in enumerate(shape)]), z(*(2,) * len(shape)))
    return S.sum([mk_zero(S, "tt", shape), mk_zero(S, "sparse", shape)])


def dense_net(S, X):
    return S.to_numpy(X)


def dense_of(S, X):
    """the same tensor in dense format"""
    return S.call(S.cls("tensor", "DenseTensor"), S.arr(dense_net(S, X)))


def grow(S, ranks, name, lo=1):
    """ranks strictly larger by a symbolic amount"""
    return tuple(P.padd(r, S.sym(f"{name}{k}", lo)) for k, r in enumerate(ranks))


def sketch_ranks(S, shape, left_smaller=True):
    a = S.ranks(shape, "r")
    b = grow(S, a, "e")
    # ``b`` is not trimmed unless it is the smaller one
    return (a, b) if left_smaller else (b, a)


def sketching_matrices(S, drm, shape, transpose):
    """[(net with axes (rank, modes in natural order))] of a map that can sketch dense tensors"""
    Z = S.call(S.cls("tensor", "DenseTensor"), S.atom("probe", *shape))
    mats = [S.net(m) for m in S.list(S.m(drm, "sketch_dense", Z))]
    d = len(shape)
    out = []
    for mu, m in enumerate(mats):
        modes = list(range(mu + 1)) if not transpose else list(range(d - 1, mu, -1))
        net = N.reshape(m, (m.shape[0],) + tuple(shape[k] for k in modes))
        if transpose:
            net = N.transpose(net, (0,) + tuple(range(len(modes), 0, -1)))
        out.append(net)
    return out


def stream(S, X, lr, rr, L, R):
    return S.m_stream(X, lr, rr, L, R) if hasattr(S, "m_stream") else \
        S.call(S.ns("sketch")["stream_sketch"], X, lr, rr, left_drm=L, right_drm=R)


def expected_sketch(S, X, Ls, Rs):
    """Psi and Omega by definition from the dense tensor and dense maps"""
    d = X.ndim
    Psi, Om = [], []
    for mu in range(d):
        nets, labs = [X], [[("n", k) for k in range(d)]]
        out = []
        if mu > 0:
            nets.append(Ls[mu - 1])
            labs.append([("a",)] + [("n", k) for k in range(mu)])
            out.append(("a",))
        out.append(("n", mu))
        if mu < d - 1:
            nets.append(Rs[mu])
            labs.append([("b",)] + [("n", k) for k in range(mu + 1, d)])
            out.append(("b",))
        p = N.contract(nets, labs, out)
        if mu == 0:
            p = N.reshape(p, (1,) + p.shape)
        if mu == d - 1:
            p = N.reshape(p, p.shape + (1,))
        Psi.append(p)
    for mu in range(d - 1):
        Om.append(N.contract([X, Ls[mu], Rs[mu]],
                             [[("n", k) for k in range(d)],
                              [("a",)] + [("n", k) for k in range(mu + 1)],
                              [("b",)] + [("n", k) for k in range(mu + 1, d)]],
                             [("a",), ("b",)]))
    return Psi, Om


def eq_sketch(S, label, got, Psi, Om):
    """compare a SketchedTensorTrain / SketchContainer with lists of arrays"""
    S.eqarrays(label + ".Psi", S.get(got, "Psi_cores"), Psi)
    S.eqarrays(label + ".Omega", S.get(got, "Omega_mats"), Om)


def parts(S, sk):
    return S.list(S.get(sk, "Psi_cores")), S.list(S.get(sk, "Omega_mats"))


def unit_variants(d):
    """which modes have size one: none, first, middle, last"""
    v = [(), (0,), (d - 1,)]
    if d > 2:
        v.append((d // 2,))
    return v


def adm_ranks(S, shape, name="r"):
    """admissible ranks: r[k] <= r[k-1] n[k] and r[k-1] <= n[k] r[k], also with modes of size one"""
    d = len(shape)
    out = [None] * (d - 1)
    for k in range(d - 1):
        if shape[k] == 1:
            out[k] = 1 if k == 0 else out[k - 1]
        elif shape[k + 1] == 1 and k + 1 == d - 1:
            out[k] = 1
        else:
            out[k] = S.sym(f"{name}{k}", 1)
    for k in range(d - 2, -1, -1):   # trailing units
        nxt = 1 if k == d - 2 else out[k + 1]
        if shape[k + 1] == 1:
            out[k] = nxt
            if k > 0 and shape[k] == 1:
                out[k - 1] = nxt
    S.bound_ranks(shape, out)
    return tuple(out)


# ---------------------------------------------------------------- definitions of the formats
def contract_tt(cores):
    d = len(cores)
    labs = [[("b", k), ("n", k), ("b", k + 1)] for k in range(d)]
    cs = list(cores)
    cs[0] = N.reshape(cs[0], cs[0].shape[1:])
    labs[0] = labs[0][1:]
    cs[-1] = N.reshape(cs[-1], cs[-1].shape[:-1])
    labs[-1] = labs[-1][:-1]
    return N.contract(cs, labs, [("n", k) for k in range(d)])


def scatter(S, rows, entries, shape):
    ohs = [S.lib.onehot(r, n) for r, n in zip(rows, shape)]
    return N.contract(ohs + [entries], [["t", ("n", k)] for k in range(len(shape))] + [["t"]],
                      [("n", k) for k in range(len(shape))])


def mkd(S, fmt, name, shape, unit_rank=False):
    """(a tensor of the format, its dense form by definition from its parameters)"""
    d = len(shape)
    X = None
    if fmt == "dense":
        return S.dense(name, shape), S.atom(name, *shape).net
    if fmt in ("sparse", "sparse_t"):
        z = S.sym(f"{name}.nnz", 1) if not unit_rank else 1
        X = S.sparse(name, shape, z, as_tuple=fmt == "sparse_t")
        return X, scatter(S, S.index_rows(name, shape, z), S.atom(f"{name}.e", z).net, shape)
    if fmt == "tt":
        r = tuple(1 if unit_rank else S.sym(f"{name}.r{k}", 1) for k in range(d - 1))
        return S.tt(name, shape, r), contract_tt([c.net for c in S.tt_cores(name, shape, r)])
    if fmt == "cp":
        r = 1 if unit_rank else S.sym(f"{name}.R", 1)
        n = N.contract([S.atom(f"{name}.{k}", m, r).net for k, m in enumerate(shape)],
                       [[("n", k), "r"] for k in range(d)], [("n", k) for k in range(d)])
        return S.cp(name, shape, r), n
    if fmt == "tucker":
        s = tuple(1 if unit_rank else S.sym(f"{name}.s{k}", 1) for k in range(d))
        n = N.contract([S.atom(f"{name}.U{k}", r, m).net for k, (r, m) in enumerate(zip(s, shape))] + [S.atom(f"{name}.C", *s).net],
                       [[("s", k), ("n", k)] for k in range(d)] + [[("s", k) for k in range(d)]], [("n", k) for k in range(d)])
        return S.tucker(name, shape, s), n
    if fmt == "sum":
        a, b = mkd(S, "tt", name + "a", shape, unit_rank), mkd(S, "sparse", name + "b", shape)
        return S.sum([a[0], b[0]]), N.add(a[1], b[1])
    if fmt == "nested":
        a, b, c = mkd(S, "cp", name + "a", shape), mkd(S, "sum", name + "b", shape, unit_rank), mkd(S, "dense", name + "c", shape)
        return S.sum([a[0], b[0], c[0]]), N.add(N.add(a[1], b[1]), c[1])
    if fmt == "stt":
        lr = tuple(S.sym(f"{name}.l{k}", 1) for k in range(d - 1))
        rr = grow(S, lr, f"{name}.g")
        ll, r_ = (1,) + lr, rr + (1,)
        P_ = [S.atom(f"{name}.P{k}", ll[k], shape[k], r_[k]) for k in range(d)]
        O_ = [S.atom(f"{name}.O{k}", lr[k], rr[k]) for k in range(d - 1)]
        C = S.call(S.cls("sketch_container", "SketchContainer"), ListObj(list(P_)), ListObj(list(O_)))
        L = mk_drm(S, "TensorTrainDRM", lr, shape, False, S.sym(f"{name}.seed", 0))
        R = mk_drm(S, "TensorTrainDRM", rr, shape, True, S.sym(f"{name}.seed2", 0))
        X = S.call(S.cls("sketch", "SketchedTensorTrain"), C, L, R)
        cores = [N.contract([p.net, S.lib.pinv_net(o)], [["a", "n", "b"], ["b", "c"]], ["a", "n", "c"])
                 for p, o in zip(P_, O_)] + [P_[-1].net]
        return X, contract_tt(cores)
    raise ValueError(fmt)
