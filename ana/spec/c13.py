"""C13 Operations do not modify their operands.

Rule: effect analysis with ownership.  The operands (every array, list, dict, attribute reachable from them) are marked; a store
into a marked array (also through views, in-place operators, out=/overwrite arguments), list or attribute on any path of the
operation is a violation, reported with the storing statement.  In-place addition and item assignment are then applied to the
results, which must not write into the operands either."""
from spec.common import *

ALL = ("dense", "sparse", "sparse_t", "tt", "cp", "tucker", "sum", "nested", "stt")


class Guard:
    def __init__(self, S, **objs):
        self.S = S
        for k, v in objs.items():
            S.freeze(v, k)

    def __call__(self, label, thunk):
        S = self.S
        mark = len(S.I.events)
        try:
            r = thunk()
            if isinstance(r, GenObj):
                r = S.list(r)
        except PyRaise as e:
            r = None   # refusals are judged elsewhere; what was modified before is judged here
        except Unsupported as e:
            S.undet(label, f"{e} at {S.I.loc()}")
            return None
        S.mutations(label, mark)
        return r


def reuse(S, G, label, r):
    """in-place operations on a result"""
    if r is None:
        return
    cls = getattr(getattr(r, "cls", None), "name", "")
    sh = S.get(r, "shape") if isinstance(r, InstObj) and not isinstance(r, ListObj) else None
    if cls in ("TensorTrain", "CPTensor"):
        c = S.list(S.get(r, "cores"))
        for k in (0, len(c) - 1):
            G(label + " set item", lambda k=k: S.m(r, "__setitem__", k, S.atom("new", *c[k].shape)))
    if cls == "TensorSum":
        Z = S.tt("Zadd", sh, tuple(S.sym(f"Zadd.r{k}", 1) for k in range(len(sh) - 1)))
        G(label + " iadd", lambda: S.m(r, "__iadd__", Z))
        G(label + " iadd sum", lambda: S.m(r, "__iadd__", S.sum([Z, Z])))


def unary(S, fmt, d, unit):
    sh = S.dims(d, unit)
    X, _ = mkd(S, fmt, "X", sh)
    lib = S.lib
    c = S.atom("c") if fmt != "stt" else 3
    G = Guard(S, X=X)
    for label, f in (
            ("T", lambda: S.get(X, "T")), ("neg", lambda: lib.unop("USub", X)), ("mul", lambda: lib.binop("Mult", X, c)),
            ("rmul", lambda: lib.binop("Mult", c, X)), ("div", lambda: lib.binop("Div", X, 4)), ("mul1", lambda: lib.binop("Mult", X, 1)),
            ("add", lambda: lib.binop("Add", X, X)), ("sub", lambda: lib.binop("Sub", X, X)),
            ("dense", lambda: S.m(X, "dense")), ("to_numpy", lambda: S.m(X, "to_numpy")), ("size", lambda: S.get(X, "size")),
            ("dot", lambda: S.m(X, "dot", X)), ("norm", lambda: S.m(X, "norm"))):
        r = G(label, f)
        reuse(S, G, label, r)
    if fmt in ("sum", "nested"):
        n = len(S.list(S.get(X, "tensors")))
        r = G("mul list", lambda: lib.binop("Mult", X, ListObj([Fraction(k + 1, 2) for k in range(n)])))
        reuse(S, G, "mul list", r)
    if fmt == "dense":
        G("to_sparse", lambda: S.m(X, "to_sparse"))
    if fmt.startswith("sparse"):
        for n in (1, 2, 3):
            r = G(f"split {n}", lambda n=n: S.m(X, "split", n))
            reuse(S, G, "split", r)
    if fmt in ("tt", "cp", "sparse", "sparse_t"):
        q = S.sym("q", 1)
        idx = IntStack(S.index_rows("I", sh, q), q)
        S.freeze(idx, "indices")
        G("gather", lambda: S.m(X, "gather", idx))
        ti = tuple(S.index_rows("J", sh, q))
        S.freeze(ti, "indices")
        G("gather tuple", lambda: S.m(X, "gather", ti))
    if fmt == "tt":
        for label, f in (("partial lr", lambda: S.m(X, "partial_dense", "lr")), ("partial rl", lambda: S.m(X, "partial_dense", "rl")),
                         ("orthogonalize", lambda: S.m(X, "orthogonalize")),
                         ("svdvals", lambda: S.m(X, "svdvals")), ("add tt", lambda: S.m(X, "add", X))):
            r = G(label, f)
            if isinstance(r, InstObj):
                reuse(S, G, label, r)
    if fmt == "stt":
        for dr in ("auto", "left", "right"):
            G("C_cores " + dr, lambda dr=dr: S.m(X, "C_cores", dr))
        r = G("to_tt", lambda: S.m(X, "to_tt"))
        reuse(S, G, "to_tt", r)


def roundtt(S, d, unit, kw):
    sh = S.dims(d, unit)
    X = S.tt("X", sh, adm_ranks(S, sh, "X.r"))
    G = Guard(S, X=X)
    r = G("round", lambda: S.m(X, "round", **kw))
    reuse(S, G, "round", r)


def pair(S, f1, f2, d):
    sh = S.dims(d)
    X, _ = mkd(S, f1, "X", sh)
    Y, _ = mkd(S, f2, "Y", sh)
    lib = S.lib
    G = Guard(S, X=X, Y=Y)
    for label, f in (("add", lambda: lib.binop("Add", X, Y)), ("sub", lambda: lib.binop("Sub", X, Y)),
                     ("expr", lambda: lib.binop("Add", lib.binop("Mult", lib.binop("Add", X, Y), 2), lib.binop("Sub", Y, X))),
                     ("dot", lambda: S.m(X, "dot", Y)), ("matmul", lambda: lib.binop("MatMult", X, Y)),
                     ("error", lambda: S.m(X, "error", Y)),
                     ("rel error", lambda: S.m(X, "error", Y, relative=True)),
                     ("rmse", lambda: S.m(X, "error", Y, rmse=True, relative=True)),
                     ("fast error", lambda: S.m(X, "error", Y, fast=True))):
        r = G(label, f)
        if label in ("add", "sub", "expr"):
            reuse(S, G, label, r)
    # the right operand of an in-place addition
    W = S.sum([X])
    G("iadd operand", lambda: S.m(W, "__iadd__", Y))
    G("iadd operand again", lambda: S.m(W, "__iadd__", X))
    if f1 == f2 == "tt":
        r = G("add tt", lambda: S.m(X, "add", Y))
        reuse(S, G, "add tt", r)


def maps(S, sh, kinds, ls=True):
    lr, rr = sketch_ranks(S, sh, ls)
    return lr, rr, mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))


def sketching(S, fmt, kinds, d, unit, ls):
    sh = S.dims(d, unit)
    X, _ = mkd(S, fmt, "X", sh)
    Y, _ = mkd(S, fmt if fmt != "nested" else "tt", "Y", sh)
    if ls:
        lr = adm_ranks(S, sh)
        rr = grow(S, lr, "e")
        L, R = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    else:
        lr, rr, L, R = maps(S, sh, kinds, ls)
    ns = S.ns("sketch")
    G = Guard(S, X=X, Y=Y, left_map=L, right_map=R)
    llist, rlist = ListObj(list(lr)), ListObj(list(rr))
    S.freeze(llist, "left ranks")
    S.freeze(rlist, "right ranks")
    sk = G("stream", lambda: stream(S, X, lr, rr, L, R))
    G("stream list", lambda: stream(S, X, llist, rlist, L, R))
    if ls:
        o = G("orthogonal", lambda: S.call(ns["orthogonal_sketch"], X, lr, rr, left_drm=L, right_drm=R))
        reuse(S, G, "orthogonal", o)
        R1 = mk_drm(S, kinds[1], lr, sh, True, seed_sym(S, "s3"))
        S.freeze(R1, "map")
        h = G("hmt", lambda: S.call(ns["hmt_sketch"], X, lr, drm=R1))
        reuse(S, G, "hmt", h)
    if sk is None:
        return
    S.freeze(sk, "sketch")
    for label, f in (("sk + Y", lambda: S.binop("Add", sk, Y)), ("sk - Y", lambda: S.binop("Sub", sk, Y)), ("sk * c", lambda: S.binop("Mult", sk, 3)),
                     ("sk / c", lambda: S.binop("Div", sk, 3)), ("-sk", lambda: S.lib.unop("USub", sk)), ("sk.T", lambda: S.get(sk, "T")),
                     ("to_tt", lambda: S.m(sk, "to_tt")), ("left", lambda: S.m(sk, "C_cores", "left")), ("right", lambda: S.m(sk, "C_cores", "right"))):
        r = G(label, f)
        if isinstance(r, InstObj) and r.cls.name == "SketchedTensorTrain":
            # histories: updating the result leaves the operands alone
            G(label + " then + Y", lambda: S.binop("Add", r, Y))


def drmops(S, kind, d):
    sh = S.dims(d)
    for tr in (False, True):
        lr = S.ranks(sh, "r")
        D = mk_drm(S, kind, lr, sh, tr, seed_sym(S, "s"))
        fm, sl, inc = DRMS[kind][1:]
        G = Guard(S, **{"map": D})
        a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
        for r, x in zip(lr, a):
            P.add_fact(P.psub(r, x))
        t = "right " if tr else "left "
        G(t + "T", lambda: S.get(D, "T"))
        G(t + "repr", lambda: S.m(D, "__repr__"))
        z = (0,) * (d - 1)
        objs = [D]
        if sl:
            s1 = G(t + "slice head", lambda: S.m(D, "slice", z, a))
            s2 = G(t + "slice tail", lambda: S.m(D, "slice", a, lr))
            objs += [s1, s2]
        if inc:
            objs.append(G(t + "increase", lambda: S.m(D, "increase_rank", grow(S, lr, "g"))))
        for f in fm:
            X, _ = mkd(S, f, "X", sh)
            S.freeze(X, "X")
            for o in objs:
                if o is not None:
                    G(t + "sketch " + f, lambda: S.list(S.m(o, SKETCH_METHOD[f], X)))


def blocked(S, kinds, fmt, d):
    sh = S.dims(d)
    X, _ = mkd(S, fmt, "X", sh)
    lr, rr, L, R = maps(S, sh, kinds)
    z = (0,) * (d - 1)
    a = tuple(S.sym(f"a{k}", 1) for k in range(d - 1))
    b = tuple(S.sym(f"b{k}", 1) for k in range(d - 1))
    for r, x in list(zip(lr, a)) + list(zip(rr, b)):
        P.add_fact(P.psub(r, x))
    ls, rs = ListObj([z, a, lr]), ListObj([z, b, rr])
    G = Guard(S, X=X, left_map=L, right_map=R, left_slices=ls, right_slices=rs)
    G("blocked", lambda: S.call(S.ns("sketch")["blocked_stream_sketch"], X, L, R, ls, rs))


def increase(S, kinds, fmt, d, twice):
    sh = S.dims(d)
    X, _ = mkd(S, fmt, "X", sh)
    lr, rr, L, R = maps(S, sh, kinds)
    sk = stream(S, X, lr, rr, L, R)
    G = Guard(S, X=X, left_map=L, right_map=R, sketch=sk)
    l2, r2 = grow(S, lr, "g"), grow(S, rr, "h")
    a = G("increase", lambda: S.m(sk, "increase_rank", X, l2, r2))
    if a is not None:
        S.freeze(a, "increased sketch")
        G("increased + X", lambda: S.binop("Add", a, X))
        G("increased * 2", lambda: S.binop("Mult", a, 2))
        if twice:
            G("increase again", lambda: S.m(a, "increase_rank", X, grow(S, l2, "g2"), grow(S, r2, "h2")))


def container(S, d):
    sh = S.dims(d)
    lr, rr = sketch_ranks(S, sh)
    C = S.cls("sketch_container", "SketchContainer")

    def mkc(nm):
        ll, r_ = (1,) + lr, rr + (1,)
        return S.call(C, ListObj([S.atom(f"{nm}.P{k}", ll[k], sh[k], r_[k]) for k in range(d)]),
                      ListObj([S.atom(f"{nm}.O{k}", lr[k], rr[k]) for k in range(d - 1)]))
    A, B = mkc("A"), mkc("B")
    G = Guard(S, A=A, B=B)
    for label, f in (("A+B", lambda: S.binop("Add", A, B)), ("A-B", lambda: S.binop("Sub", A, B)), ("A*t", lambda: S.binop("Mult", A, 5)),
                     ("A/t", lambda: S.binop("Div", A, 5)), ("-A", lambda: S.lib.unop("USub", A)), ("A.T", lambda: S.get(A, "T"))):
        G(label, f)


def mpo(S, name, sh_in, sh_out, r):
    d = len(sh_in)
    rr = (1,) + tuple(r) + (1,)
    return S.call(S.cls("tt_gmres", "MPO"), ListObj([S.atom(f"{name}.{k}", rr[k], sh_in[k], sh_out[k], rr[k + 1]) for k in range(d)]))


def linmaps(S, d):
    si, so = S.dims(d, name="p"), S.dims(d, name="q")
    r = tuple(S.sym(f"m{k}", 1) for k in range(d - 1))
    M, M2 = mpo(S, "M", si, so, r), mpo(S, "M2", si, so, r)
    x, y = mk(S, "tt", "x", si), mk(S, "tt", "y", si)
    G = Guard(S, operator=M, operator2=M2, x=x, y=y)
    for label, f in (("call", lambda: S.call(M, x)), ("T", lambda: S.get(M, "T")), ("mul", lambda: S.binop("Mult", M, 3)), ("rmul", lambda: S.binop("Mult", 3, M)),
                     ("neg", lambda: S.lib.unop("USub", M)), ("div", lambda: S.binop("Div", M, 3)), ("to_tt", lambda: S.m(M, "to_tt")),
                     ("to_numpy", lambda: S.m(M, "to_numpy")), ("size", lambda: S.get(M, "size"))):
        r = G(label, f)
        if label in ("call", "to_tt"):
            reuse(S, G, label, r)
    LS = S.cls("tt_gmres", "TTLinearMapSum")
    ls = ListObj([M, M2])
    A = S.call(LS, ls)
    S.freeze(ls, "list of maps")
    S.freeze(A, "sum of maps")
    xs = S.sum([x, y])
    S.freeze(xs, "sum of trains")
    r = G("A(x)", lambda: S.call(A, x))
    reuse(S, G, "A(x)", r)
    r = G("A(x+y)", lambda: S.call(A, xs))
    reuse(S, G, "A(x+y)", r)
    for mode in range(d):
        m = S.atom(f"A{mode}", si[mode], si[mode])
        S.freeze(m, "preconditioner matrix")
        p = G(f"precond {mode}", lambda: S.call(S.cls("tt_gmres", "TTPrecond"), m, si, mode))
        if p is None:
            continue
        S.freeze(p, "preconditioner")
        for w in ("backward_call", "forward_call", "__call__"):
            r = G(f"{w} {mode}", lambda: S.m(p, w, x))
            reuse(S, G, w, r)


def rounding(S, method, n, d):
    sh = S.dims(d)
    xs = [mk(S, "tt", f"x{k}", sh) for k in range(n)]
    T = S.sum(xs)
    ranks = ListObj([2] * (d - 1))
    G = Guard(S, summands=T, ranks=ranks)
    f = S.ns("tt_gmres")["round_tt_sum"]
    r = G(f"{method}", lambda: S.call(f, T, ranks, eps=Fraction(1, 10), method=method))
    reuse(S, G, str(method), r)
    r = G(f"{method} without eps", lambda: S.call(f, T, 3, method=method))
    reuse(S, G, str(method), r)
    N1 = S.sum([T, xs[0]])
    S.freeze(N1, "nested sum")
    r = G(f"{method} nested", lambda: S.call(f, N1, 3, method=method))
    reuse(S, G, f"{method} nested", r)


def gmres(S, method, final, sym, pre, x0, d, maxiter):
    sh = S.dims(d)
    r = tuple(S.sym(f"m{k}", 1) for k in range(d - 1))
    ms = ListObj([mpo(S, "M", sh, sh, r), mpo(S, "M2", sh, sh, r)])
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ms)
    b = mk(S, "tt", "b", sh)
    p = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("P", sh[0], sh[0]), sh, 0) if pre else None
    x = mk(S, "tt", "x0", sh) if x0 else None
    ranks = ListObj([2] * (d - 1))
    G = Guard(S, operator=A, rhs=b, preconditioner=p, guess=x, ranks=ranks)
    # every rounding step is an arbitrary train: the effects of rounding are judged in ``rounding``
    cnt = [0]

    def rounded(args, kw):
        cnt[0] += 1
        return mk(S, "tt", f"round{cnt[0]}", sh)
    S.I.overrides["tt_sketch.tt_gmres.round_tt_sum"] = rounded
    G("solve", lambda: S.call(S.ns("tt_gmres")["tt_sum_gmres"], A, b, ranks, precond=p, x0=x, maxiter=maxiter, symmetric=sym,
                              rounding_method=method, rounding_method_final=final, save_basis=True))


def helpers(S, d):
    u = S.ns("utils")
    sh = S.dims(d)
    A = S.atom("A", *sh)
    dims, ranks = ListObj(list(sh)), ListObj([S.sym(f"r{k}", 1) for k in range(d - 1)])
    B, C = S.atom("B", S.sym("m"), S.sym("n")), S.atom("C", S.sym("k"), S.sym("n"))
    D = S.atom("D", S.sym("m"), S.sym("l"))
    U, V = S.atom("U", S.sym("m"), S.sym("l")), S.atom("V", S.sym("m"), S.sym("l"))
    modes = ListObj([d - 1, 0])
    G = Guard(S, A=A, shape=dims, ranks=ranks, B=B, C=C, D=D, U=U, V=V, modes=modes)
    for label, f in (
            ("matricize", lambda: S.call(u["matricize"], A, 0)), ("matricize list", lambda: S.call(u["matricize"], A, modes)),
            ("matricize mat", lambda: S.call(u["matricize"], A, modes, mat_shape=True)),
            ("dematricize", lambda: S.call(u["dematricize"], S.call(u["matricize"], A, 1), 1, sh)),
            ("reverse", lambda: S.call(u["reverse_right_modes"], A, 1) if "reverse_right_modes" in u else None),
            ("right_mul_pinv", lambda: S.call(u["right_mul_pinv"], B, C)),
            ("left_mul_pinv", lambda: S.call(u["left_mul_pinv"], B, D)), ("right_mul_pinv T", lambda: S.call(u["right_mul_pinv"], S.get(B, "T"), S.get(D, "T"))),
            ("left_mul_pinv T", lambda: S.call(u["left_mul_pinv"], S.get(B, "T"), S.get(C, "T"))),
            ("projector", lambda: S.call(u["projector"], U)), ("projector2", lambda: S.call(u["projector"], U, V)),
            ("trim", lambda: S.call(u["trim_ranks"], dims, ranks)),
            ("process", lambda: S.call(u["process_tt_rank"], ranks, dims, trim=True)),
            ("process no trim", lambda: S.call(u["process_tt_rank"], ranks, dims, trim=False))):
        G(label, f)


def concrete_ranks(S, dims, ranks):
    u = S.ns("utils")
    a, b = ListObj(list(dims)), ListObj(list(ranks))
    G = Guard(S, shape=a, ranks=b)
    G("trim", lambda: S.call(u["trim_ranks"], a, b))
    G("process", lambda: S.call(u["process_tt_rank"], b, tuple(dims), trim=True))


def ttsvd(S, fmt, d):
    sh = S.dims(d)
    X, _ = mkd(S, fmt, "X", sh)
    ranks = ListObj([2] * (d - 1))
    G = Guard(S, X=X, ranks=ranks)
    f = S.ns("tt_svd")["tt_svd"]
    r = G("tt_svd", lambda: S.call(f, X, ranks))
    reuse(S, G, "tt_svd", r)
    r = G("tt_svd full", lambda: S.call(f, X))
    reuse(S, G, "tt_svd full", r)


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []
OPT = dict(max_paths=96)
for d in (2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    for fmt in ALL:
        for u in ((), (0,)):
            CASES.append(Case("C13", f"unary_{fmt}_{d}_{u}", unary, (fmt, d, u), tier=t, **OPT))
    for i, kw in enumerate((dict(), dict(eps=Fraction(1, 10)), dict(max_rank=2), dict(orthogonalized=True), dict(max_rank=(1,) * (d - 1), eps=0, orthogonalized=True))):
        for u in ((), (0,)):
            CASES.append(Case("C13", f"roundtt_{d}_{u}_{i}", roundtt, (d, u, kw), tier=t, **OPT))
    for f1 in ALL:
        for f2 in ALL:
            CASES.append(Case("C13", f"pair_{f1}_{f2}_{d}", pair, (f1, f2, d), tier="quick" if d == 2 else "thorough", **OPT))
    for fmt in FORMATS + ("sum", "nested"):
        for ls in (True, False):
            CASES.append(Case("C13", f"sketch_{fmt}_TT_{d}_{ls}", sketching, (fmt, (TT, TT), d, (), ls), tier=t, **OPT))
    for fmt in ("dense", "sparse", "tt"):
        CASES.append(Case("C13", f"sketch_{fmt}_DG_{d}", sketching, (fmt, (DG, DG), d, (), True), tier=t, **OPT))
    for k in ((SG, SS), (SS, SG)):
        CASES.append(Case("C13", f"sketch_sparse_{k[0]}_{d}", sketching, ("sparse", k, d, (), False), tier=t, **OPT))
    for k in DRMS:
        CASES.append(Case("C13", f"drm_{k}_{d}", drmops, (k, d), tier=t, **OPT))
    for fmt in FORMATS:
        CASES.append(Case("C13", f"blocked_{fmt}_{d}", blocked, ((TT, TT), fmt, d), tier=t, **OPT))
    CASES.append(Case("C13", f"blocked_DG_{d}", blocked, ((DG, DG), "dense", d), tier=t, **OPT))
    CASES.append(Case("C13", f"blocked_SS_{d}", blocked, ((SS, SG), "sparse", d), tier=t, **OPT))
    for tw in (False, True):
        CASES.append(Case("C13", f"increase_SG_{d}_{tw}", increase, ((SG, SG), "sparse", d, tw), tier=t, **OPT))
        CASES.append(Case("C13", f"increase_DG_{d}_{tw}", increase, ((DG, DG), "tt", d, tw), tier=t, **OPT))
    CASES.append(Case("C13", f"container_{d}", container, (d,), tier=t, **OPT))
    CASES.append(Case("C13", f"linmaps_{d}", linmaps, (d,), tier=t, **OPT))
    for m in ("exact", "pairwise", "sketch", "orth_sketch", None):
        for n in (1, 2, 3):
            CASES.append(Case("C13", f"round_{m}_{n}_{d}", rounding, (m, n, d), tier=t, **OPT))
    for m, fin, sym, pre, x0 in (("pairwise", None, False, False, False), ("exact", "sketch", True, True, True), (None, None, False, True, True),
                                 ("sketch", "exact", True, False, True)):
        for it in (0, 2):
            CASES.append(Case("C13", f"gmres_{m}_{fin}_{sym}_{d}_{it}", gmres, (m, fin, sym, pre, x0, d, it), tier=t, **OPT))
    CASES.append(Case("C13", f"helpers_{d}", helpers, (d,), tier=t, **OPT))
    for fmt in ("dense", "tt", "cp"):
        CASES.append(Case("C13", f"ttsvd_{fmt}_{d}", ttsvd, (fmt, d), tier=t, **OPT))
for i, (dims, ranks) in enumerate((((3, 4, 5), (9, 9)), ((2, 2, 2, 2), (1, 8, 8)), ((7, 1, 3), (3, 3)))):
    CASES.append(Case("C13", f"concrete_{i}", concrete_ranks, (dims, ranks)))
