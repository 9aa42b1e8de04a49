"""C24 Rounding a sum of trains.

Rule: with truncation replaced by the identity, the inferred value of round_tt_sum is the sum of all summands; with truncation and sketches replaced by
recorders, the tensor handed to the last truncation or to the sketch has the type of the full sum and the bound handed over is the
requested one; with the real truncations the inferred ranks are at most the admissible bound."""
from spec.common import *


def summands(S, sh, n, nest, unit=False, zeros=()):
    """(sum, dense sum, list of trains)"""
    ts = [(mk_zero(S, "tt", sh), N.zero_net(sh)) if k in zeros else mkd(S, "tt", f"x{k}", sh, unit) for k in range(n)]
    tot = ts[0][1]
    for t in ts[1:]:
        tot = N.add(tot, t[1])
    xs = [t[0] for t in ts]
    if nest == "flat":
        T = S.sum(xs)
    elif nest == "left":
        T = xs[0]
        T = S.sum([T])
        for x in xs[1:]:
            T = S.sum([T, x])
    elif nest == "right":
        T = S.sum([xs[-1]])
        for x in xs[-2::-1]:
            T = S.sum([x, T])
    elif nest == "tt":
        T = xs[0]
    elif nest == "added":
        T = xs[0]
        for x in xs[1:]:
            T = S.binop("Add", T, x)
        if n == 1:
            T = S.sum([T])
    return T, tot, xs


def bound(S, sh, form):
    d = len(sh)
    if form == "int":
        return S.sym("mr", 1)
    r = tuple(S.sym(f"mr{k}", 1) for k in range(d - 1))
    return r if form == "tuple" else ListObj(list(r))


def trimmed(S, mr, sh):
    return S.call(S.ns("utils")["process_tt_rank"], mr, sh, True)


def identity(S, d, u, n, nest, method, eps):
    """nothing is truncated"""
    sh = S.dims(d, u)
    T, tot, xs = summands(S, sh, n, nest)
    S.I.overrides["tt_sketch.tensor.TensorTrain.round"] = lambda args, kw: args[0]
    f = S.ns("tt_gmres")["round_tt_sum"]
    Y = S.run("round_tt_sum", lambda: S.call(f, T, 5, eps, method))
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape")
    S.eq("sum", S.to_numpy(Y), tot, f"the sum rounded with method {method!r} without truncation")
    if method is not None:
        S.true("train", Y.cls.name == "TensorTrain", f"the result is a {Y.cls.name}")


def truncated(S, d, u, n, nest, method, form, eps):
    """what is truncated, and how"""
    sh = S.dims(d, u)
    T, tot, xs = summands(S, sh, n, nest)
    mr = bound(S, sh, form)
    calls = []

    def rec(args, kw):
        names = ("self", "eps", "max_rank", "orthogonalized")
        a = dict(zip(names, args))
        a.update(kw)
        k = len(calls)
        Z = S.tt(f"z{k}", sh, tuple(S.sym(f"z{k}.r{j}", 1) for j in range(d - 1)))
        calls.append((a, S.to_numpy(a["self"]), Z, S.to_numpy(Z), S.I.loc()))
        return Z
    S.I.overrides["tt_sketch.tensor.TensorTrain.round"] = rec
    f = S.ns("tt_gmres")["round_tt_sum"]
    Y = S.run("round_tt_sum", lambda: S.call(f, T, mr, eps, method))
    y = S.to_numpy(Y)
    hit = [c for c in calls if c[2] is Y] or [c for c in calls if N.equal(c[3], y)]
    if not hit:
        S.bad("truncated", f"the result of method {method!r} is not the result of a truncation ({len(calls)} truncations)")
        return
    raw = lambda r: S.call(S.ns("utils")["process_tt_rank"], r, sh, False)
    for k, (a, net, Z, z, loc) in enumerate(calls):
        got = a.get("max_rank")
        if got is not None and all(P.peq(x, y) for x, y in zip(raw(got), raw(mr))):
            S.ok(f"bound {k}")
            got = DONE
        if got is None:
            S.bad(f"bound {k}", "a truncation is done without the rank bound", loc)
        elif got is not DONE:
            S.eqtuple(f"bound {k}", trimmed(S, got, sh), trimmed(S, mr, sh), "rank bound of a truncation")
        e = a.get("eps")
        S.true(f"eps {k}", (e is None) == (eps is None) and (e is None or e == eps), f"a truncation uses eps {S.desc(e)} instead of {S.desc(eps)}", loc)
        S.true(f"orthogonalisation {k}", a.get("orthogonalized") in (None, False), "a sum is truncated as if it were orthogonal", loc)
    # every truncation replaced by what was truncated: the full sum
    net = y
    for a, nt, Z, z, loc in reversed(calls):
        coef = None
        # z occurs linearly: the other terms of the sum stay
        if N.equal(net, z):
            net = nt
        else:
            rest = N.sub(net, z)
            if any(h[0] == "in" and str(h[1]).startswith(S.get(Z, "cores").items[0].net.terms[0][1][0][0][1].split(".")[0] + ".") for c, at in rest.terms for h, _ in at):
                S.undet("sum", "truncations are combined in an unexpected way")
                return
            net = N.add(rest, nt)
    S.eq("sum", net, tot, f"the sum rounded with method {method!r}")


def sketched(S, d, u, n, nest, method, form, over):
    sh = S.dims(d, u)
    T, tot, xs = summands(S, sh, n, nest)
    mr = bound(S, sh, form)
    calls = []
    out = mkd(S, "stt", "sk", sh)[0] if method == "sketch" else mkd(S, "tt", "sk", sh)[0]

    def rec(args, kw):
        names = ("tensor", "left_rank", "right_rank", "seed")
        a = dict(zip(names, args))
        a.update(kw)
        calls.append((a, S.to_numpy(a["tensor"]), S.I.loc()))
        return out
    S.I.overrides["tt_sketch.sketch.stream_sketch" if method == "sketch" else "tt_sketch.sketch.orthogonal_sketch"] = rec
    f = S.ns("tt_gmres")["round_tt_sum"]
    kw = {} if over is None else {"oversample_factor": over}
    Y = S.run("round_tt_sum", lambda: S.call(f, T, mr, method=method, **kw))
    if not calls:
        S.undet("sketch", "the sum is not sketched through the public entry point")
        return
    S.true("one sketch", len(calls) == 1, f"{len(calls)} sketches")
    a, net, loc = calls[0]
    S.eq("sum", net, tot, "the sketched tensor")
    want = trimmed(S, mr, sh)
    S.eqtuple("left rank", S.call(S.ns("utils")["process_tt_rank"], a["left_rank"], sh, False), want, "left rank of the sketch")
    rr = S.call(S.ns("utils")["process_tt_rank"], a["right_rank"], sh, False)
    for k, (x, y) in enumerate(zip(want, rr)):
        S.ge(f"oversampling {k}", y, P.padd(x, 1), "right rank of the sketch")
        if over is None or over == 2:
            S.eqint(f"right rank {k}", y, P.pmul(2, x), "right rank of the sketch")
    S.eq("result", S.to_numpy(Y), S.to_numpy(out), "the returned train")
    S.true("train", Y.cls.name == "TensorTrain", f"the result is a {Y.cls.name}")


def ranks(S, d, u, n, method, form, eps, one=False, zeros=()):
    """the ranks of the result with the real truncation"""
    sh = S.dims(d, u)
    T, tot, xs = summands(S, sh, n, "flat", unit=one, zeros=zeros)
    mr = bound(S, sh, form) if form != "1" else 1
    f = S.ns("tt_gmres")["round_tt_sum"]
    Y = S.run("round_tt_sum", lambda: S.call(f, T, mr, eps, method))
    S.eqtuple("shape", S.get(Y, "shape"), sh, "shape")
    S.true("train", Y.cls.name == "TensorTrain", f"the result is a {Y.cls.name}")
    req = mr if isinstance(mr, tuple) else tuple(S.list(mr)) if isinstance(mr, ListObj) else (mr,) * (d - 1)
    adm = trimmed(S, mr, sh) if method in ("sketch", "orth_sketch") else None
    for k, r in enumerate(S.list(S.get(Y, "rank"))):
        S.ge(f"bound [{k}]", req[k], r, "rank bound and rank")
        if adm is not None:
            S.eqint(f"rank [{k}]", r, adm[k], "rank of the sketched sum")
    cs = S.list(S.get(Y, "cores"))
    # the result depends on every summand
    names = set()

    def walk(net, seen):
        for c, at in net.terms:
            for h, _ in at:
                see(h, seen)

    def see(h, seen):
        if isinstance(h, tuple):
            if h and h[0] == "in":
                names.add(str(h[1]).split(".")[0])
            for x in h:
                see(x, seen)
        elif isinstance(h, str) and h in N.REG and h not in seen:
            seen.add(h)
            walk(N.REG[h], seen)
    for c in cs:
        walk(S.net(c), set())
    if zeros:
        if len(zeros) == n:
            S.eq("zero", S.to_numpy(Y), N.zero_net(sh), "a rounded sum of zero trains")
        return
    for k in range(n):
        S.true(f"uses summand {k}", f"x{k}" in names, f"the result of method {method!r} does not depend on summand {k}")


DONE = object()
METHODS = ("exact", "pairwise", "sketch", "orth_sketch")
CASES = []
for d in (1, 2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    for n in (1, 2, 3, 4):
        for nest in ("flat", "left", "right", "added") + (("tt",) if n == 1 else ()):
            for u in ((), (0,)):
                for m in ("exact", "pairwise", None):
                    CASES.append(Case("C24", f"identity_{d}_{u}_{n}_{nest}_{m}", identity, (d, u, n, nest, m, None), tier=t))
                    if m is None or nest not in ("flat", "right") or u:
                        continue
                    for form in ("int", "tuple", "list"):
                        for eps in (None, Fraction(1, 10)):
                            CASES.append(Case("C24", f"truncated_{d}_{n}_{nest}_{m}_{form}_{eps is None}", truncated, (d, u, n, nest, m, form, eps), tier=t))
            if nest in ("flat", "left") and d > 1:
                for m in ("sketch", "orth_sketch"):
                    for form in ("int", "tuple", "list"):
                        for over in (None, 3):
                            CASES.append(Case("C24", f"sketched_{d}_{n}_{nest}_{m}_{form}_{over}", sketched, (d, (), n, nest, m, form, over), tier=t))
for d in (2, 3):
    for n in (1, 2, 3):
        for m in METHODS:
            for form in ("int", "tuple", "list", "1"):
                for eps in (None, Fraction(1, 10)):
                    if m in ("sketch", "orth_sketch") and eps is not None or m == "orth_sketch" and d > 2 and form != "1":
                        continue
                    CASES.append(Case("C24", f"ranks_{d}_{n}_{m}_{form}_{eps is None}", ranks, (d, (), n, m, form, eps), max_paths=60,
                                      tier="quick" if d == 2 else "thorough", timeout=200))

for n, nest in ((5, "flat"), (5, "left"), (6, "flat"), (7, "flat"), (7, "right"), (8, "flat"), (9, "flat")):
    for m in ("exact", "pairwise"):
        CASES.append(Case("C24", f"identity_many_{n}_{nest}_{m}", identity, (2, (), n, nest, m, None), timeout=300))
        CASES.append(Case("C24", f"truncated_many_{n}_{nest}_{m}", truncated, (2, (), n, nest, m, "int", None), timeout=300))
for n, zeros in ((1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1)), (3, (0, 1, 2)), (3, (1,))):
    for m in METHODS:
        for form in ("int", "1"):
            for eps in (None, Fraction(1, 10)):
                if m in ("sketch", "orth_sketch") and eps is not None:
                    continue
                CASES.append(Case("C24", f"zero_{n}_{zeros}_{m}_{form}_{eps is None}", ranks, (2, (), n, m, form, eps, False, zeros), max_paths=60, timeout=200))
