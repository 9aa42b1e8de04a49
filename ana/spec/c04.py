"""C04 A streaming sketch reconstructs by the documented two-sided formula.

Rule: the train inferred for assemble_sketched_tt / to_tt / C_cores equals Psi_k Omega_k^+ (all but the last core) for
direction right, Omega_{k-1}^+ Psi_k (all but the first) for direction left, with the direction chosen from the order
of the rank tuples; its dense form equals the contraction of these cores; its rank is the smaller tuple."""
from spec.common import *


def formula(S, Psi, Om, direction):
    d = len(Psi)
    out = []
    for k in range(d):
        if direction == "right" and k < d - 1:
            out.append(N.contract([Psi[k], S.lib.pinv_net(S.arr(Om[k]))], [["a", "n", "b"], ["b", "c"]], ["a", "n", "c"]))
        elif direction == "left" and k > 0:
            out.append(N.contract([S.lib.pinv_net(S.arr(Om[k - 1])), Psi[k]], [["c", "a"], ["a", "n", "b"]], ["c", "n", "b"]))
        else:
            out.append(Psi[k])
    return out


def contract_tt(cores):
    d = len(cores)
    labs = [[("b", k), ("n", k), ("b", k + 1)] for k in range(d)]
    cs = list(cores)
    cs[0] = N.reshape(cs[0], cs[0].shape[1:])
    labs[0] = labs[0][1:]
    if d > 1:
        cs[-1] = N.reshape(cs[-1], cs[-1].shape[:-1])
        labs[-1] = labs[-1][:-1]
    else:
        cs[0] = N.reshape(cs[0], cs[0].shape[:-1])
        labs[0] = labs[0][:-1]
    return N.contract(cs, labs, [("n", k) for k in range(d)])


def assemble(S, d, unit, urank, ls, direction):
    sh = S.dims(d, unit)
    lr, rr = sketch_ranks(S, sh, ls)
    if urank:
        small = (1,) * (d - 1)
        big = grow(S, small, "g")
        lr, rr = (small, big) if ls else (big, small)
    ll, r_ = (1,) + tuple(lr), tuple(rr) + (1,)
    P_ = [S.atom(f"P{k}", ll[k], sh[k], r_[k]) for k in range(d)]
    O_ = [S.atom(f"O{k}", lr[k], rr[k]) for k in range(d - 1)]
    C = S.call(S.cls("sketch_container", "SketchContainer"), ListObj(list(P_)), ListObj(list(O_)))
    f = S.ns("sketch")["assemble_sketched_tt"]
    got = S.run("assemble", lambda: S.call(f, C) if direction is None else S.call(f, C, direction=direction))
    eff = direction
    if direction in (None, "auto"):
        eff = "right" if ls else "left"
    want = formula(S, [p.net for p in P_], [o.net for o in O_], eff)
    S.eqarrays("core", got, want)


def sketch(S, kinds, fmt, d, unit, ls, history):
    sh = S.dims(d, unit)
    X = mk(S, fmt, "X", sh)
    lr, rr = sketch_ranks(S, sh, ls)
    L = mk_drm(S, kinds[0], lr, sh, False, seed_sym(S, "s1"))
    R = mk_drm(S, kinds[1], rr, sh, True, seed_sym(S, "s2"))
    sk = stream(S, X, lr, rr, L, R)
    if history == "scaled":
        sk = S.binop("Mult", sk, S.atom("a"))
    if history == "updated":
        sk = S.binop("Add", sk, mk(S, "sparse", "Y", sh))
    if history in ("increased", "increased twice"):
        for h in ("g", "h")[:2 if history == "increased twice" else 1]:
            a = grow(S, tuple(lr) if ls else tuple(rr), h)
            b = tuple(P.padd(x, y) for x, y in zip(grow(S, tuple(rr) if ls else tuple(lr), h + "b"), (S.sym(f"{h}{k}", 1) for k in range(d - 1))))
            lr, rr = (a, b) if ls else (b, a)
            sk = S.run("increase_rank", lambda: S.m(sk, "increase_rank", X, lr, rr))
    if history == "blocked":
        zero = (0,) * (d - 1)
        c = S.run("blocked_stream_sketch", lambda: S.call(S.ns("sketch")["blocked_stream_sketch"], X, L, R,
                                                          ListObj([zero, lr]), ListObj([zero, rr])))
        sk = S.call(S.cls("sketch", "SketchedTensorTrain"), c, L, R)
    if history == "T":
        sk = S.get(sk, "T")
        sh, lr, rr, ls = sh[::-1], tuple(rr)[::-1], tuple(lr)[::-1], not ls
    p, o = parts(S, sk)
    P_, O_ = [S.net(x) for x in p], [S.net(x) for x in o]
    want = formula(S, P_, O_, "right" if ls else "left")
    tt = S.run("to_tt", lambda: S.m(sk, "to_tt"))
    S.eqarrays("to_tt", S.get(tt, "cores"), want)
    S.eqtuple("to_tt.rank", S.get(tt, "rank"), lr if ls else rr, "rank of the train")
    S.eqtuple("to_tt.shape", S.get(tt, "shape"), sh, "shape of the train")
    S.eq("to_numpy", S.run("to_numpy", lambda: S.m(sk, "to_numpy")), contract_tt(want), "dense sketch")
    S.eqarrays("C_cores", S.run("C_cores", lambda: S.m(sk, "C_cores")), want)
    for dr in ("left", "right"):
        S.eqarrays("C_cores " + dr, S.run("C_cores " + dr, lambda: S.m(sk, "C_cores", direction=dr)), formula(S, P_, O_, dr))
    # the sketch is still the same
    p2, o2 = parts(S, sk)
    S.eqarrays("Psi after", p2, P_)
    S.eqarrays("Omega after", o2, O_)


def zero(S, fmt, d, unit, ls):
    """the sketch of the zero tensor is the zero tensor"""
    sh = S.dims(d, unit)
    X = mk_zero(S, fmt, sh)
    lr, rr = sketch_ranks(S, sh, ls)
    f = S.ns("sketch")["stream_sketch"]
    sk = S.run("stream_sketch", lambda: S.call(f, X, lr, rr, seed=seed_sym(S, "s")))
    S.eq("zero", S.run("to_numpy", lambda: S.m(sk, "to_numpy")), N.zero_net(sh), "sketch of the zero tensor")


def helper(S):
    m, n, k = S.sym("m", 2), S.sym("n", 2), S.sym("k", 2)
    A, B = S.atom("A", m, k), S.atom("B", n, k)
    S.eq("right_mul_pinv", S.call(S.ns("utils")["right_mul_pinv"], A, B),
         N.contract([A.net, S.lib.pinv_net(B)], [["i", "k"], ["k", "j"]], ["i", "j"]), "A B^+")
    C = S.atom("C", m, n)
    S.eq("left_mul_pinv", S.call(S.ns("utils")["left_mul_pinv"], A, C),
         N.contract([S.lib.pinv_net(A), C.net], [["k", "i"], ["i", "j"]], ["k", "j"]), "A^+ C")


TT, DG, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
CASES = [Case("C04", "pinv helpers", helper)]
for d in (2, 3, 4, 5, 6):
    t = "quick" if d < 6 else "thorough"
    for u in unit_variants(d):
        for ls in (True, False):
            for dr in (None, "auto", "left", "right"):
                for ur in (False, True):
                    CASES.append(Case("C04", f"assemble_{d}_{u}_{ls}_{dr}_{ur}", assemble, (d, u, ur, ls, dr), tier=t))
            if d < 5:
                for kinds, fmt in (((TT, TT), "tt"), ((TT, TT), "cp"), ((DG, DG), "dense"), ((SG, SS), "sparse")):
                    for h in ("plain", "scaled", "updated", "T"):
                        if h == "updated" and fmt == "cp" and d > 3:
                            continue
                        CASES.append(Case("C04", f"sketch_{kinds[0][0]}{fmt}_{d}_{u}_{ls}_{h}", sketch,
                                          (kinds, fmt, d, u, ls, h)))
                for kinds, fmt in (((SG, SG), "sparse"), ((DG, DG), "tt")):
                    for h in ("increased", "increased twice", "blocked"):
                        CASES.append(Case("C04", f"sketch_{kinds[0][0]}{fmt}_{d}_{u}_{ls}_{h}", sketch, (kinds, fmt, d, u, ls, h),
                                          tier="quick" if d < 4 else "thorough"))
                for fmt in FORMATS + ("sum",):
                    CASES.append(Case("C04", f"zero_{fmt}_{d}_{u}_{ls}", zero, (fmt, d, u, ls)))
