"""C20 Inconsistent requests are rejected.

Rule: every public entry point is interpreted with arguments that disagree in one symbolic fact (a mode size, a rank, a length, a
name); every partition has to end in a ValueError.  The same entry points with agreeing arguments, with ranks written as a number, list or tuple,
must not end in an exception in any partition."""
from spec.common import *


def differ(S, x, name):
    """a symbolic size known only to differ from x"""
    y = S.sym(name, 1)
    P.CTX.ne.add(P.psub(x, y).key)
    return y


def other_shape(S, sh, how):
    """a shape that differs in one way"""
    d = len(sh)
    if how[0] == "mode":
        k = how[1]
        return sh[:k] + (differ(S, sh[k], "x"),) + sh[k + 1:]
    if how[0] == "unit":
        k = how[1]
        return sh[:k] + (1,) + sh[k + 1:]
    if how[0] == "longer":
        return sh + (S.sym("x", 1),)
    if how[0] == "longer1":
        return sh + (1,)
    if how[0] == "shorter":
        return sh[:-1]
    if how[0] == "swap":
        P.CTX.ne.add(P.psub(sh[0], sh[-1]).key)
        return (sh[-1],) + sh[1:-1] + (sh[0],)
    raise ValueError(how)


def variants(d):
    return [("mode", k) for k in range(d)] + [("unit", 0), ("unit", d - 1), ("longer",), ("longer1",), ("swap",)] + ([("shorter",)] if d > 2 else [])


def maps_for(S, kind, sh, sh_r=None):
    d = len(sh)
    lr = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
    rr = tuple(P.padd(S.sym(f"r{k}", 1), S.sym(f"e{k}", 1)) for k in range(len(sh_r or sh) - 1))
    return lr, rr, mk_drm(S, kind, lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kind, rr, sh_r or sh, True, seed_sym(S, "s2"))


def shapes(S, kind, fmt, d, how, which):
    """a map whose shape differs from the shape of the tensor"""
    sh = S.dims(d)
    bad = other_shape(S, sh, how)
    X = S.sum([mk(S, "sparse", "Xa", sh), S.sum([mk(S, "sparse", "Xb", sh), mk(S, "sparse", "Xc", bad)])]) if fmt == "sum" else mk(S, fmt, "X", bad)
    ns = S.ns("sketch")
    meth = SKETCH_METHOD.get(fmt)
    if which == "map":
        for tr in (False, True):
            lr = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
            D = mk_drm(S, kind, lr, sh, tr, seed_sym(S))
            if fmt != "sum":
                S.raises(f"{meth} {tr}", ValueError, lambda: S.call(S.get(D, meth), X))
            g = S.call(S.ns("sketch_dispatch")["get_sketch_method"], X, D)
            S.raises(f"sketching {tr}", ValueError, lambda: S.list(S.call(g, X)))
        return
    Z = mk(S, "sparse" if fmt in ("sum", "sparse") else fmt, "Z", sh)
    if which == "add" or which == "blocked":
        lr, rr, L, R = maps_for(S, kind, sh)
        if which == "blocked":
            z = (0,) * (d - 1)
            S.raises("blocked_stream_sketch", ValueError, lambda: S.call(ns["blocked_stream_sketch"], X, L, R, ListObj([z, lr]), ListObj([z, rr])))
            return
        Y = S.run("sketch", lambda: stream(S, Z, lr, rr, L, R))
        S.raises("sketch + tensor", ValueError, lambda: S.binop("Add", Y, X))
        S.raises("sketch - tensor", ValueError, lambda: S.binop("Sub", Y, X))
        if DRMS[kind][3]:
            S.raises("increase_rank", ValueError, lambda: S.m(Y, "increase_rank", X, grow(S, lr, "f"), grow(S, rr, "g")))
        return
    # which: side whose map does not fit; the ranks given fit the maps
    lr, rr, L, R = maps_for(S, kind, sh if which != "right" else bad, sh if which != "left" else bad)
    S.raises("stream_sketch", ValueError, lambda: S.call(ns["stream_sketch"], X if which == "both" else mk_like(S, fmt, sh, bad, which), lr, rr, left_drm=L, right_drm=R))
    S.raises("orthogonal_sketch", ValueError, lambda: S.call(ns["orthogonal_sketch"], X if which == "both" else mk_like(S, fmt, sh, bad, which), lr, rr, left_drm=L, right_drm=R))
    if which == "both":
        S.raises("hmt_sketch", ValueError, lambda: S.call(ns["hmt_sketch"], X, rr, drm=R))


def mk_like(S, fmt, sh, bad, which):
    """the tensor fits one of the maps only"""
    return mk(S, "sparse" if fmt == "sum" else fmt, "Y", sh)


def ranks_given(S, kind, fmt, d, how, side, k, form):
    """ranks that differ from those of the given map"""
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    lr = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
    rr = tuple(P.padd(x, S.sym(f"e{k}", 1)) for k, x in enumerate(lr))
    L, R = mk_drm(S, kind, lr, sh, False, seed_sym(S, "s1")), mk_drm(S, kind, rr, sh, True, seed_sym(S, "s2"))
    ns = S.ns("sketch")
    l2, r2 = list(lr), list(rr)
    if side == "left":
        l2[k] = differ(S, lr[k], "x")
        P.add_fact(P.psub(rr[k], P.padd(l2[k], 1)))
    else:
        r2[k] = differ(S, rr[k], "x")
        P.add_fact(P.psub(r2[k], P.padd(l2[k], 1)))
    f = tuple if form == "tuple" else lambda v: ListObj(list(v))
    if form == "reversed":
        f = lambda v: tuple(v)[::-1]
        l2, r2 = lr, rr
        a, b = (lr, rr)
        if d == 2:
            return
        if side == "left":
            P.CTX.ne.add(P.psub(lr[0], lr[-1]).key)
            for x, y in zip(lr[::-1], rr):
                P.add_fact(P.psub(y, P.padd(x, 1)))
            l2, r2 = lr[::-1], rr
        else:
            P.CTX.ne.add(P.psub(rr[0], rr[-1]).key)
            for x, y in zip(lr, rr[::-1]):
                P.add_fact(P.psub(y, P.padd(x, 1)))
            l2, r2 = lr, rr[::-1]
        f = tuple
    if how == "hmt":
        S.raises("hmt_sketch", ValueError, lambda: S.call(ns["hmt_sketch"], X, f(r2), drm=R))
    elif how == "orth":
        S.raises("orthogonal_sketch", ValueError, lambda: S.call(ns["orthogonal_sketch"], X, f(l2), f(r2), left_drm=L, right_drm=R))
    elif how == "stream":
        S.raises("stream_sketch", ValueError, lambda: S.call(ns["stream_sketch"], X, f(l2), f(r2), left_drm=L, right_drm=R))
    elif how == "flip":   # left ranks are the larger ones
        L2, R2 = mk_drm(S, kind, rr, sh, False, seed_sym(S, "s1")), mk_drm(S, kind, lr, sh, True, seed_sym(S, "s2"))
        S.raises("stream_sketch", ValueError, lambda: S.call(ns["stream_sketch"], X, f(r2), f(l2), left_drm=L2, right_drm=R2))


ORDER = ("equal", "one equal", "mixed", "mixed2")


def order(S, fmt, d, how, form, maps, which):
    """left ranks neither all larger nor all smaller than the right ranks"""
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    if form == "int":
        a = b = S.sym("r", 1)
        al, bl = (a,) * (d - 1), (b,) * (d - 1)
    else:
        al = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
        e = [S.sym(f"e{k}", 1) for k in range(d - 1)]
        if how == "equal":
            bl = al
        elif how == "one equal":
            bl = tuple(P.padd(x, y) if k else x for k, (x, y) in enumerate(zip(al, e)))
        elif how == "mixed":
            bl = tuple(P.padd(x, y) for x, y in zip(al, e))
            al = (P.padd(bl[0], e[0]),) + al[1:]
        else:
            bl = tuple(P.padd(x, y) for x, y in zip(al, e))
            al = al[:-1] + (P.padd(bl[-1], e[-1]),)
        a, b = (al, bl) if form == "tuple" else (ListObj(list(al)), ListObj(list(bl)))
    ns = S.ns("sketch")
    kw = {"seed": seed_sym(S)}
    if maps:
        kw["left_drm"] = mk_drm(S, "TensorTrainDRM", al, sh, False, seed_sym(S, "s1"))
        kw["right_drm"] = mk_drm(S, "TensorTrainDRM", bl, sh, True, seed_sym(S, "s2"))
    S.raises(which, ValueError, lambda: S.call(ns[f"{which}_sketch"], X, a, b, **kw))
    S.raises(which + " exchanged", ValueError, lambda: S.call(ns[f"{which}_sketch"], X, b, a, seed=seed_sym(S)))


def orth_left(S, fmt, d, form, one):
    """orthogonal sketches need larger right ranks"""
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    b = tuple(S.sym(f"r{k}", 1) for k in range(d - 1))
    a = grow(S, b, "e")
    if one:
        a, b = tuple(b[:-1]) + (a[-1],), tuple(a[:-1]) + (b[-1],)
    g = tuple if form == "tuple" else lambda v: ListObj(list(v))
    S.raises("orthogonal_sketch", ValueError, lambda: S.call(S.ns("sketch")["orthogonal_sketch"], X, g(a), g(b), seed=seed_sym(S)))


def accepted(S, fmt, d, form_l, form_r, which, maps, larger):
    """consistent requests"""
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    g = lambda v, form: v[0] if form == "int" else tuple(v) if form == "tuple" else ListObj(list(v))
    if "int" in (form_l, form_r):
        lr = (1,) * (d - 1) if not maps or which != "stream" else (S.sym("r", 1),) * (d - 1)
        rr = tuple(P.padd(x, S.sym("e", 1)) for x in lr)
    else:
        lr = adm_ranks(S, sh)
        rr = grow(S, lr, "e")
    kw = {}
    kl, kr = ("TensorTrainDRM", "TensorTrainDRM")
    if larger == "left":
        lr, rr = rr, lr
    if maps:
        kw = {"left_drm": mk_drm(S, kl, lr, sh, False, seed_sym(S, "s1")), "right_drm": mk_drm(S, kr, rr, sh, True, seed_sym(S, "s2"))}
    else:
        kw = {"seed": seed_sym(S)}
    f = S.ns("sketch")[f"{which}_sketch"]
    if which == "hmt":   # its map has the rank of the result
        rr = lr
        if maps:
            kw = {"drm": mk_drm(S, kr, lr, sh, True, seed_sym(S, "s2"))}
    a, b = g(lr, form_l), g(rr, form_r)
    Y = S.run(which, lambda: S.call(f, X, b, **kw) if which == "hmt" else S.call(f, X, a, b, **kw))
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape of the sketch")


def direction(S, d, name):
    sh = S.dims(d)
    X, _ = mkd(S, "stt", "X", sh)
    S.raises("C_cores", ValueError, lambda: S.m(X, "C_cores", name))
    S.raises("C_cores keyword", ValueError, lambda: S.m(X, "C_cores", direction=name))
    S.raises("assemble", ValueError, lambda: S.call(S.ns("sketch")["assemble_sketched_tt"], S.get(X, "sketch_"), name))
    Y, _ = mkd(S, "tt", "Y", sh)
    S.raises("partial_dense", ValueError, lambda: S.m(Y, "partial_dense", name))


def options(S, d, unit):
    sh = S.dims(d, unit)
    tt = S.cls("tensor", "TensorTrain")
    r = adm_ranks(S, sh)
    rnd = S.get(tt, "random")
    for goal in ("norm", "", "NORM-1", "orthog", None, 1):
        for tr in (None, True, False):
            S.raises(f"norm goal {goal} {tr}", ValueError, lambda: S.call(rnd, sh, r, seed=1, norm_goal=goal, trim=tr))
    S.raises("norm goal with orthog", ValueError, lambda: S.call(rnd, sh, r, seed=1, norm_goal="norm", orthog=True))
    S.raises("orthog without trim", ValueError, lambda: S.call(rnd, sh, r, seed=1, orthog=True, trim=False))
    for goal in ("norm-1", "norm-preserve"):
        for tr in (None, True, False):
            for og in (False, True):
                if not (og and tr is False):
                    Y = S.run(f"accepted {goal} {tr} {og}", lambda: S.call(rnd, sh, r, seed=1, norm_goal=goal, trim=tr, orthog=og))
                    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape")


METHODS = ("exact", "pairwise", "sketch", "orth_sketch", None)


def rounding_names(S, d, n):
    sh = S.dims(d)
    T = S.sum([mk(S, "tt", f"x{k}", sh) for k in range(n)])
    f = S.ns("tt_gmres")["round_tt_sum"]
    for name in ("", "none", "Exact", "svd", "orth", 0, True):
        S.raises(f"method {name!r}", ValueError, lambda: S.call(f, T, 2, method=name))
        S.raises(f"method {name!r} with eps", ValueError, lambda: S.call(f, T, (1,) * (d - 1), Fraction(1, 10), name))
    S.raises("too many ranks", ValueError, lambda: S.call(f, T, (2,) * d, method="sketch"))
    S.raises("too many ranks orth", ValueError, lambda: S.call(f, T, (2,) * d, method="orth_sketch"))
    S.raises("too many ranks pairwise", ValueError, lambda: S.call(f, T, (2,) * d, method="pairwise"))
    S.raises("too many ranks exact", ValueError, lambda: S.call(f, T, (2,) * d, method="exact"))


def linop(S, name, si, so):
    d = len(si)
    rr = (1,) + tuple(S.sym(f"{name}.m{k}", 1) for k in range(d - 1)) + (1,)
    return S.call(S.cls("tt_gmres", "MPO"), ListObj([S.atom(f"{name}.{k}", rr[k], si[k], so[k], rr[k + 1]) for k in range(d)]))


def mapsums(S, d, how, which, n):
    si, so = S.dims(d, name="p"), S.dims(d, name="q")
    LS = S.cls("tt_gmres", "TTLinearMapSum")
    if how == "empty":
        S.raises("empty list", ValueError, lambda: S.call(LS, ListObj([])))
        return
    s2i, s2o = (other_shape(S, si, how), so) if which == "in" else (si, other_shape(S, so, how))
    if len(s2i) != len(s2o):
        s2i = s2i if which == "in" else si + (1,) if len(s2o) > d else si[:-1]
        s2o = s2o if which == "out" else so + (1,) if len(s2i) > d else so[:-1]
    good = [linop(S, f"M{k}", si, so) for k in range(n)]
    bad = linop(S, "B", s2i, s2o)
    for pos in range(n + 1):
        S.raises(f"mismatch at {pos}", ValueError, lambda: S.call(LS, ListObj(good[:pos] + [bad] + good[pos:])))
    A = S.run("accepted", lambda: S.call(LS, ListObj(good)))
    S.eqtuple("in_shape", S.get(A, "in_shape"), si, "in_shape")
    S.eqtuple("out_shape", S.get(A, "out_shape"), so, "out_shape")
    P_ = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("P", s2i[0], s2i[0]), s2i, 0)
    if which == "in":
        S.raises("preconditioner of another shape", ValueError, lambda: S.call(LS, ListObj([linop(S, "E", si, si), P_])))


def solver(S, d, how, which, sym, method):
    sh = S.dims(d)
    bad = other_shape(S, sh, how)
    if which == "automorphism":
        if len(bad) != d:
            return
        A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([linop(S, "M", sh, bad)]))
        b, x0 = mk(S, "tt", "b", bad), None
    else:
        A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([linop(S, "M", sh, sh), linop(S, "M2", sh, sh)]))
        b = mk(S, "tt", "b", bad if which == "b" else sh)
        x0 = mk(S, "tt", "x0", bad) if which == "x0" else None
    cnt = [0]

    def rounded(args, kw):
        cnt[0] += 1
        return mk(S, "tt", f"round{cnt[0]}", sh)
    S.I.overrides["tt_sketch.tt_gmres.round_tt_sum"] = rounded
    f = S.ns("tt_gmres")["tt_sum_gmres"]
    for it in (0, 2):
        S.raises(f"{it} iterations", ValueError, lambda: S.call(f, A, b, 2, x0=x0, maxiter=it, symmetric=sym, rounding_method=method))
        if which == "automorphism":
            for sx in (sh, bad):
                S.raises(f"{it} iterations with guess", ValueError, lambda: S.call(f, A, b, 2, x0=mk(S, "tt", "x0", sx), maxiter=it, symmetric=sym))


def solver_options(S, d):
    sh = S.dims(d)
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([linop(S, "M", sh, sh)]))
    b = mk(S, "tt", "b", sh)
    f = S.ns("tt_gmres")["tt_sum_gmres"]
    S.raises("rounding method", ValueError, lambda: S.call(f, A, b, 2, rounding_method="none", maxiter=1))
    S.raises("ranks", ValueError, lambda: S.call(f, A, b, (2,) * d, maxiter=1))
    S.raises("ranks list", ValueError, lambda: S.call(f, A, b, ListObj([2] * (d + 1)), maxiter=1))
    S.raises("final rounding method", ValueError, lambda: S.call(f, A, b, 2, rounding_method="exact", rounding_method_final="none", maxiter=0))


def missing_left(S, d, meth):
    sh = S.dims(d)
    X = mk(S, "tt", "X", sh)
    lr, rr, L, R = maps_for(S, "TensorTrainDRM", sh)
    sd = S.ns("sketch_dispatch")
    S.raises("left_drm", ValueError, lambda: S.call(sd["general_sketch"], X, None, R, S.get(sd["SketchMethod"], meth)))


def lengths(S, d):
    """sums scaled by lists"""
    sh = S.dims(d)
    T = S.sum([mk(S, "tt", f"x{k}", sh) for k in range(3)])
    for n in (1, 2, 4):
        S.raises(f"{n} factors", ValueError, lambda: S.binop("Mult", T, ListObj([Fraction(k + 1, 2) for k in range(n)])))


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = []
for d in (2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    for how in variants(d):
        hn = "_".join(map(str, how))
        for kind in DRMS:
            for fmt in DRMS[kind][1] + ("sum",):
                for which in ("map", "both", "left", "right", "add", "blocked"):
                    if fmt in ("cp", "tucker") and which not in ("map", "both") and d > 2:
                        continue
                    tt_ = t if which == "map" or d == 2 or kind in (TT, SS) and fmt in ("tt", "sparse", "sum") else "thorough"
                    CASES.append(Case("C20", f"shape_{kind}_{fmt}_{d}_{hn}_{which}", shapes, (kind, fmt, d, how, which), tier=tt_))
        for which in ("in", "out"):
            CASES.append(Case("C20", f"mapsum_{d}_{hn}_{which}", mapsums, (d, how, which, 2), tier=t))
        for which in ("b", "x0", "automorphism"):
            for sym, m in ((False, "pairwise"), (True, "exact"), (False, None)):
                CASES.append(Case("C20", f"solver_{d}_{hn}_{which}_{m}", solver, (d, how, which, sym, m), tier=t))
    CASES.append(Case("C20", f"mapsum_empty_{d}", mapsums, (d, "empty", None, 0), tier=t))
    for how in ("stream", "orth", "hmt", "flip"):
        for side in ("left", "right"):
            if how == "hmt" and side == "left":
                continue
            for k in range(d - 1):
                for form in ("tuple", "list"):
                    CASES.append(Case("C20", f"ranks_{how}_{side}_{d}_{k}_{form}", ranks_given, (TT, "tt", d, how, side, k, form), tier=t))
            if d > 2:
                CASES.append(Case("C20", f"ranks_{how}_{side}_{d}_reversed", ranks_given, (TT, "tt", d, how, side, 0, "reversed"), tier=t))
    for how in ORDER:
        if d == 2 and how.startswith("mixed") or d == 2 and how == "one equal":
            continue
        for form in ("tuple", "list", "int"):
            if form == "int" and how != "equal":
                continue
            for maps in (False, True):
                for which in ("stream", "orthogonal"):
                    CASES.append(Case("C20", f"order_{d}_{how}_{form}_{maps}_{which}", order, ("tt", d, how, form, maps, which), tier=t))
    for form in ("tuple", "list"):
        CASES.append(Case("C20", f"orth_left_{d}_{form}", orth_left, ("tt", d, form, False), tier=t))
        if d > 2:
            CASES.append(Case("C20", f"orth_left_one_{d}_{form}", orth_left, ("tt", d, form, True), tier=t))
    for which in ("stream", "orthogonal", "hmt"):
        for fl in ("tuple", "list", "int"):
            for fr in ("tuple", "list", "int"):
                for maps in (False, True):
                    for lg in ("right", "left"):
                        if lg == "left" and which != "stream" or which == "hmt" and fl != fr:
                            continue
                        CASES.append(Case("C20", f"accepted_{which}_{d}_{fl}_{fr}_{maps}_{lg}", accepted, ("tt", d, fl, fr, which, maps, lg), tier=t))
    for nm in ("", "Left", "both", "rl2", None):
        CASES.append(Case("C20", f"direction_{d}_{nm}", direction, (d, nm), tier=t))
    for u in ((), (0,)):
        CASES.append(Case("C20", f"options_{d}_{u}", options, (d, u), tier=t))
    for n in (1, 2, 3):
        CASES.append(Case("C20", f"rounding_{d}_{n}", rounding_names, (d, n), tier=t))
    for m in ("streaming", "orthogonal"):
        CASES.append(Case("C20", f"missing_{d}_{m}", missing_left, (d, m), tier=t))
    CASES.append(Case("C20", f"lengths_{d}", lengths, (d,), tier=t))
    CASES.append(Case("C20", f"solver_options_{d}", solver_options, (d,), tier=t))
