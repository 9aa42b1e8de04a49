"""C29 Random and special constructors produce what they document.

Rule: every constructor is interpreted for symbolic shapes and ranks.  The inferred shapes must be the requested ones with the
requested (trimmed or clipped where documented) ranks; every array of a random object must be a constant multiple of its own
Gaussian draw, or the orthogonal factor of one where documented (its Gram matrix is inferred to be the identity); the multiples
of a train must satisfy the documented goal (expected squared norm one, or the product of the mode sizes); the positions of a
sparse tensor must come from a draw without replacement from all positions, unfolded in the order in which entries are stored;
zero objects must have the zero structure and the identity operator the structure of the identity."""
from spec.common import *
from spec.c05 import gram
from spec.c18 import closed, give
from spec.c21 import act


def core_terms(net):
    """(coefficient, stream) of a constant multiple of one draw"""
    net = N.simplify(net)
    if len(net.terms) != 1:
        return None
    c, at = net.terms[0]
    if len(at) != 1 or at[0][0][0] != "rnd":
        return None
    return c, at[0][0]


def gaussian(S, label, net, streams):
    """constant multiple of its own Gaussian draw; returns the multiple"""
    r = core_terms(net)
    if r is None:
        S.undet(label, "not a multiple of one draw: " + S.show(net)[:120])
        return None
    c, h = r
    if h[3] != "normal":
        S.bad(label, f"entries are drawn from {h[3]} instead of the standard normal distribution")
        return None
    if h in streams:
        S.bad(label, "the same random numbers are used twice")
        return None
    streams.append(h)
    S.ok(label)
    return c


def prod(xs):
    p = 1
    for x in xs:
        p = P.pmul(p, x)
    return p


def intnet(S, p):
    return N.scalar_net(p) if isinstance(p, int) else S.lib.tonet(p)


def tt(S, d, how, trim, orthog, goal, unit):
    sh = S.dims(d, unit=unit)
    r = (S.sym("r"),) * (d - 1) if how == "int" else tuple(S.sym(f"r{k}") for k in range(d - 1))
    if (trim or orthog) and d > 2:
        # trimming itself is the subject of C18
        r = adm_ranks(S, sh)
        how = "tuple" if how == "int" else how
    T = S.cls("tensor", "TensorTrain")
    kw = {}
    if trim is not None:
        kw["trim"] = trim
    if orthog is not None:
        kw["orthog"] = orthog
    if goal is not None:
        kw["norm_goal"] = goal
    rk = give(r, how) if d > 1 or how != "int" else S.sym("r")
    mk_ = lambda: S.call(S.get(T, "random"), sh, rk, seed=S.sym("seed", 0), **kw)
    if orthog and trim is False:
        S.raises("orthogonal and not trimmed", ValueError, mk_, "orthogonal cores need trimmed ranks")
        return
    if goal == "norm-2":
        S.raises("unknown goal", ValueError, mk_, "unknown norm goal")
        return
    X = S.run("random", mk_)
    trimmed = trim if trim is not None else bool(orthog)
    want = closed(sh, r) if trimmed else r
    got = S.get(X, "rank")
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    if not trimmed:
        S.eqtuple("rank", got, want, "rank")
    else:
        ext = (1,) + tuple(got) + (1,)
        for k in range(d - 1):
            S.ge(f"rank at most the request [{k}]", r[k], got[k], "request and rank")
            S.ge(f"rank [{k}]", got[k], want[k], "rank and largest rank")
            S.ge(f"left [{k}]", P.pmul(ext[k], sh[k]), got[k], "left rank times mode and rank")
            S.ge(f"right [{k}]", P.pmul(ext[k + 2], sh[k + 1]), got[k], "right rank times mode and rank")
    ext = (1,) + tuple(got) + (1,)
    cores = [S.net(c) for c in S.list(S.get(X, "cores"))]
    streams = []
    scale = N.ONE
    for k, c in enumerate(cores):
        S.eqtuple(f"core {k} shape", c.shape, (ext[k], sh[k], ext[k + 1]), "shape of the core")
        if orthog and k < d - 1:
            if not P.CTX.ne:
                pass
            S.eq(f"core {k} orthogonal", gram(c), N.eye_net(c.shape[2]), "Gram matrix of the core")
        else:
            co = gaussian(S, f"core {k}", c, streams)
            if co is None:
                return
            scale = N.cmul(scale, co)
    sq = Net((), [(N.cmul(scale, scale), ())])
    if orthog:
        # all cores but the last are isometries; the last has n*r entries
        val = N.ewise_mul(sq, intnet(S, P.pmul(ext[d - 1], sh[d - 1])))
        want = None if goal == "norm-preserve" else N.scalar_net(1)
    else:
        val = N.ewise_mul(sq, intnet(S, P.pmul(prod(sh), prod(got))))
        want = intnet(S, prod(sh)) if goal == "norm-preserve" else N.scalar_net(1)
    if want is not None:
        S.eq("norm goal", N.simplify(val), want, "expected squared norm")


def cp(S, d, unit):
    sh = S.dims(d, unit=unit)
    r = S.sym("r")
    X = S.run("random", lambda: S.call(S.get(S.cls("tensor", "CPTensor"), "random"), sh, r, seed=S.sym("seed", 0)))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    S.eqint("rank", S.get(X, "rank"), r, "rank")
    streams = []
    cores = [S.net(c) for c in S.list(S.get(X, "cores"))]
    for k, c in enumerate(cores):
        S.eqtuple(f"factor {k} shape", c.shape, (sh[k], r), "shape of the factor")
        gaussian(S, f"factor {k}", c, streams)


def tucker(S, d, how, unit):
    sh = S.dims(d, unit=unit)
    r = (S.sym("r"),) * d if how == "int" else tuple(S.sym(f"r{k}") for k in range(d))
    X = S.run("random", lambda: S.call(S.get(S.cls("tensor", "TuckerTensor"), "random"), sh, give(r, how), seed=S.sym("seed", 0)))
    want = tuple(P.pmin(a, b) for a, b in zip(r, sh))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    S.eqtuple("rank", S.get(X, "rank"), want, "rank")
    streams = []
    gaussian(S, "core", S.net(S.get(X, "core")), streams)
    S.eqtuple("core shape", S.net(S.get(X, "core")).shape, want, "shape of the core")
    for k, U in enumerate(S.list(S.get(X, "factors"))):
        u = S.net(U)
        S.eqtuple(f"factor {k} shape", u.shape, (want[k], sh[k]), "shape of the factor")
        S.eq(f"factor {k} orthogonal", N.contract([u, u], [["a", "n"], ["b", "n"]], ["a", "b"]), N.eye_net(want[k]), "Gram matrix of the factor")


def dense(S, d, unit):
    sh = S.dims(d, unit=unit)
    X = S.run("random", lambda: S.call(S.get(S.cls("tensor", "DenseTensor"), "random"), sh))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    c = gaussian(S, "entries", S.net(S.get(X, "data")), [])


def sparse(S, d, seeded, unit):
    sh = S.dims(d, unit=unit)
    z = S.sym("nnz", 1)
    P.add_fact(P.psub(prod(sh), z))
    kw = {"seed": S.sym("seed", 0)} if seeded else {}
    mark = len(S.I.events)
    X = S.run("random", lambda: S.call(S.get(S.cls("tensor", "SparseTensor"), "random"), sh, z, **kw))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    S.eqint("nnz", S.get(X, "nnz"), z, "number of positions")
    idx = S.get(X, "indices")
    S.eqtuple("indices shape", tuple(idx.shape), (d, z), "shape of the index array")
    ent = S.net(S.get(X, "entries"))
    S.eqtuple("entries shape", ent.shape, (z,), "shape of the entries")
    gaussian(S, "entries", ent, [])
    ev = [e for e in S.I.events[mark:] if e["kind"] == "draw" and e["dist"] not in ("normal", "uniform")]
    if len(ev) != 1:
        return S.undet("positions", f"{len(ev)} draws of positions")
    e = ev[0]
    total = prod(sh)
    dist = e["dist"]
    if dist == "choice!" + repr(total) or dist == "perm":
        S.ok("distinct positions")
    elif dist.startswith("choice!"):
        S.bad("all positions", f"positions are drawn from {dist[7:]} instead of {total!r}")
        return
    else:
        S.bad("distinct positions", f"positions are drawn with replacement ({dist})")
        return
    # unfolded in storage order: the dense form has the entries at the drawn positions
    head = ("E", ("rnd", e["family"], e["skey"], dist, repr(e["pos"])))
    Ls, V = N.mkleg(e["size"]), N.mkleg(total)
    if not P.peq(e["size"], z) or not V:
        return
    E = Net((Ls, V), [(N.ONE, ((head, (Ls, V)),))])
    E = N.reshape(E, (z,) + sh)
    want = N.contract([E, ent], [["z"] + list(range(d)), ["z"]], list(range(d)))
    S.eq("positions", (S.to_numpy(X)), want, "dense form")


def ttzero(S, d, how, unit):
    sh = S.dims(d, unit=unit)
    r = (S.sym("r"),) * (d - 1) if how == "int" else tuple(S.sym(f"r{k}") for k in range(d - 1))
    X = S.run("zero", lambda: S.call(S.get(S.cls("tensor", "TensorTrain"), "zero"), sh, give(r, how) if d > 1 or how != "int" else S.sym("r")))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    S.eqtuple("rank", S.get(X, "rank"), r, "rank")
    S.eq("zero", (S.to_numpy(X)), N.zero_net(sh), "dense form")
    for k, c in enumerate(S.list(S.get(X, "cores"))):
        S.eq(f"core {k}", S.net(c), N.zero_net(S.net(c).shape), "core")
    # the neutral element of sums
    Y = S.tt("Y", sh, S.ranks(sh, name="q"))
    Z = S.run("sum", lambda: S.call(S.get(Y, "add"), X) if False else S.binop("Add", Y, X))
    S.eq("sum", (S.to_numpy(Z)), (S.to_numpy(Y)), "sum with the zero train")


def container(S, d, unit):
    sh = S.dims(d, unit=unit)
    l, r = tuple(S.sym(f"l{k}") for k in range(d - 1)), tuple(S.sym(f"r{k}") for k in range(d - 1))
    C = S.cls("sketch_container", "SketchContainer")
    X = S.run("zero", lambda: S.call(S.get(C, "zero"), sh, l, r))
    S.eqtuple("shape", S.get(X, "shape"), sh, "shape")
    S.eqtuple("left rank", S.get(X, "left_rank"), l, "left rank")
    S.eqtuple("right rank", S.get(X, "right_rank"), r, "right rank")
    Ps, Om = S.list(S.get(X, "Psi_cores")), S.list(S.get(X, "Omega_mats"))
    S.true("number", len(Ps) == d and len(Om) == d - 1, f"{len(Ps)} cores and {len(Om)} matrices")
    le, re_ = (1,) + l, r + (1,)
    for k, p in enumerate(Ps):
        S.eq(f"Psi {k}", S.net(p), N.zero_net((le[k], sh[k], re_[k])), "core")
    for k, p in enumerate(Om):
        S.eq(f"Omega {k}", S.net(p), N.zero_net((l[k], r[k])), "matrix")


def eye(S, d, unit):
    sh = S.dims(d, unit=unit)
    M = S.run("eye", lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "eye"), sh))
    S.eqtuple("in_shape", S.get(M, "in_shape"), sh, "in_shape")
    S.eqtuple("out_shape", S.get(M, "out_shape"), sh, "out_shape")
    S.eqtuple("rank", S.get(M, "rank"), (1,) * (d - 1), "rank")
    X = S.tt("X", sh, S.ranks(sh))
    Y = S.run("apply", lambda: S.call(M, X))
    S.eq("identity", (S.to_numpy(Y)), (S.to_numpy(X)), "identity applied to a train")
    S.eqtuple("identity rank", S.get(Y, "rank"), S.get(X, "rank"), "rank")
    for k, c in enumerate(S.list(S.get(M, "cores"))):
        S.eq(f"core {k}", S.net(c), N.reshape(N.eye_net(sh[k]), (1, sh[k], sh[k], 1)), "core")


def mpo(S, d, how, square):
    si = S.dims(d, name="i")
    so = si if square else S.dims(d, name="o")
    r = (S.sym("r"),) * (d - 1) if how == "int" else tuple(S.sym(f"r{k}") for k in range(d - 1))
    M = S.run("random", lambda: S.call(S.get(S.cls("tt_gmres", "MPO"), "random"), give(r, how) if d > 1 or how != "int" else S.sym("r"), si, so))
    S.eqtuple("in_shape", S.get(M, "in_shape"), si, "in_shape")
    S.eqtuple("out_shape", S.get(M, "out_shape"), so, "out_shape")
    got = S.get(M, "rank")
    sh = tuple(P.pmul(a, b) for a, b in zip(si, so))
    want = closed(sh, r)
    ext = (1,) + tuple(got) + (1,)
    for k in range(d - 1):
        S.ge(f"rank at most the request [{k}]", r[k], got[k], "request and rank")
        S.ge(f"rank [{k}]", got[k], want[k], "rank and largest rank")
    for k, c in enumerate(S.list(S.get(M, "cores"))):
        S.eqtuple(f"core {k}", S.net(c).shape, (ext[k], si[k], so[k], ext[k + 1]), "shape of the core")
        if square:
            n = S.net(c)
            S.eq(f"core {k} symmetric", n, N.transpose(n, (0, 2, 1, 3)), "core and its transpose")


CASES = []
for d in (1, 2, 3, 4):
    q = "quick" if d <= 3 else "thorough"
    for unit in unit_variants(d) if d < 4 else [()]:
        CASES.append(Case("C29", f"cp_{d}_{unit}", cp, (d, unit), tier=q))
        CASES.append(Case("C29", f"dense_{d}_{unit}", dense, (d, unit), tier=q))
        for seeded in (False, True):
            CASES.append(Case("C29", f"sparse_{d}_{seeded}_{unit}", sparse, (d, seeded, unit), tier=q))
        CASES.append(Case("C29", f"eye_{d}_{unit}", eye, (d, unit), tier=q))
        CASES.append(Case("C29", f"container_{d}_{unit}", container, (d, unit), tier=q))
        for how in ("int", "tuple", "list"):
            CASES.append(Case("C29", f"zero_{d}_{how}_{unit}", ttzero, (d, how, unit), tier=q))
            CASES.append(Case("C29", f"tucker_{d}_{how}_{unit}", tucker, (d, how, unit), tier=q))
    for how in ("int", "tuple", "list"):
        for trim in (None, False, True):
            for orthog in (None, False, True):
                for goal in (None, "norm-1", "norm-preserve", "norm-2"):
                    if how == "list" and goal not in (None,):
                        continue
                    if d == 4 and (trim or orthog) and how != "int":
                        continue
                    if goal == "norm-2" and (d == 1 and orthog):
                        continue
                    CASES.append(Case("C29", f"tt_{d}_{how}_{trim}_{orthog}_{goal}", tt, (d, how, trim, orthog, goal, ()), tier=q))
        for sq in (False, True):
            if d <= 3:
                CASES.append(Case("C29", f"mpo_{d}_{how}_{sq}", mpo, (d, how, sq), tier=q))
