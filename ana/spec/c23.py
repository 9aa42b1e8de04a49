"""C23 TT-GMRES.

Rule: the solver is interpreted with every rounding step replaced by a fresh train (rounding itself is C24); the inferred type of each
argument of a rounding step, of the projected matrix and right-hand side, of the recorded history and of the final combination is compared with the Arnoldi
recurrence over those trains.  The loop exit is judged by trace partitioning: a partition that leaves (continues) the loop must have decided exactly
`recorded residual < tolerance` to be true (false)."""
import numeval as NE
from spec.common import *
from spec.c21 import act, op


class Solve:
    def __init__(self, S, d, nmaps, pre, x0, method, final, sym, maxiter, ranks, fr, unit, tol=Fraction(1, 1000), verbose=False, keep_sum=False):
        self.S, self.d, self.sym, self.maxiter, self.method, self.final, self.tol = S, d, sym, maxiter, method, final, tol
        self.sh = sh = S.dims(d, unit)
        ops = [op(S, f"M{k}", sh, sh) for k in range(nmaps)]
        self.D = [o[1] for o in ops]
        self.A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([o[0] for o in ops]))
        self.b, self.bnet = mkd(S, "tt", "b", sh)
        self.pre = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("P", sh[pre], sh[pre]), sh, pre) if pre is not None else None
        self.x0, self.xnet = mkd(S, "tt", "x0", sh) if x0 else (None, None)
        self.rounds = []
        S.I.overrides["tt_sketch.tt_gmres.round_tt_sum"] = self.rounded
        self.ranks, self.fr = ranks, fr
        kw = dict(precond=self.pre, x0=self.x0, maxiter=maxiter, symmetric=sym, rounding_method=method, rounding_method_final=final,
                  save_basis=True, tolerance=tol)
        if verbose:
            kw["verbose"] = True
        if fr is not None:
            kw["final_round_rank"] = fr
        mark = len(S.I.events)
        r = S.run("solve", lambda: S.call(S.ns("tt_gmres")["tt_sum_gmres"], self.A, self.b, ranks, **kw))
        self.ls = [e for e in S.I.events[mark:] if e["kind"] == "small_lstsq"]
        if not isinstance(r, tuple) or len(r) != 2:
            S.bad("result", f"the solver returns {S.desc(r)}")
            raise Stop()
        self.x, self.hist = r

    def rounded(self, args, kw):
        S = self.S
        names = ("tt_sum", "max_rank", "eps", "method", "oversample_factor")
        a = dict(zip(names, args))
        a.update(kw)
        n = len(self.rounds)
        T, t = mkd(S, "tt", f"t{n}", self.sh)
        if a.get("method", "sketch") is None:
            T = S.sum([T])
        self.rounds.append((a, S.to_numpy(a["tt_sum"]), T, t, S.I.loc()))
        return T

    def image(self, x):
        """(preconditioned) image of a dense tensor"""
        y = None
        for D in self.D:
            v = act(D, x, self.d)
            y = v if y is None else N.add(y, v)
        return self.prec(y)

    def prec(self, y):
        if self.pre is None:
            return y
        return self._prec(y)

    def _prec(self, y):
        # the map that the preconditioner applies to the chosen mode (judged in C22), read off a train with identity core
        S, k = self.S, self.mode
        e = self.probe()
        return N.contract([e, y], [["o", "i"], ["i" if j == k else ("n", j) for j in range(self.d)]], ["o" if j == k else ("n", j) for j in range(self.d)])

    def probe(self):
        if not hasattr(self, "_probe"):
            S, k = self.S, self.mode
            n = self.sh[k]
            q = N.reshape(N.eye_net(n), (n, n))
            pr = S.call(S.cls("tt_gmres", "TTPrecond"), S.get(self.pre, "A"), (n, n), 0)
            T = S.call(S.cls("tensor", "TensorTrain"), ListObj([S.arr(N.reshape(N.eye_net(n), (1, n, n))), S.arr(N.reshape(N.eye_net(n), (n, n, 1)))]))
            self._probe = S.to_numpy(S.call(pr, T))
        return self._probe

    @property
    def mode(self):
        return self.S.get(self.pre, "mode")


def less(S, a, b):
    """the truth of a < b in this partition; None if the code decided nothing equivalent"""
    u = S.lib.compare("Lt", a, b)
    if isinstance(u, bool):
        return u
    memo = S.I.decider.memo
    if u.key in memo:
        return (not memo[u.key]) if u.neg else memo[u.key]
    me = S.lib.cmp_nets.get(u.key[1])
    if me is None:
        return None
    for k, v in memo.items():
        if k[0] != "lt0" or k[1] not in S.lib.cmp_nets:
            continue
        d = S.lib.cmp_nets[k[1]]
        signs = set()
        for env in NE.assignments(12, seed=7):
            try:
                signs.add((float(env.net(me)) < 0, float(env.net(d)) < 0))
            except Exception:
                continue
        if signs and all(x == y for x, y in signs) and len(signs) == 2:
            return v
        if signs and all(x != y for x, y in signs) and len(signs) == 2:
            return not v
    return None


def solve(S, *a, **kw):
    G = Solve(S, *a, **kw)
    d, sh = G.d, G.sh
    rs = G.rounds
    hist = G.hist
    get = lambda k: S.list(S.lib.getitem(hist, k))
    if not rs or len(rs) % 2:
        S.bad("rounding steps", f"{len(rs)} rounding steps; expected one for the residual, two for each iteration and one for the result")
        return
    its = len(rs) // 2 - 1
    S.true("number of iterations", 0 <= its <= G.maxiter, f"{its} iterations with a limit of {G.maxiter}")
    # ---- arguments of the rounding steps
    rr = S.call(S.ns("utils")["process_tt_rank"], G.ranks, sh, True)
    for k, (arg, net, T, t, loc) in enumerate(rs):
        last = k == len(rs) - 1
        meth = arg.get("method", "sketch")
        want = G.final if last and G.final is not None else G.method
        S.true(f"rounding method {k}", meth == want, f"rounding step {k} uses {meth!r} instead of {want!r}", loc)
        mr = arg.get("max_rank")
        if last and G.fr is not None:
            S.eqtuple(f"rounding rank {k}", S.call(S.ns("utils")["process_tt_rank"], mr, sh, True), S.call(S.ns("utils")["process_tt_rank"], G.fr, sh, True), "rank of the final rounding")
        else:
            S.eqtuple(f"rounding rank {k}", S.call(S.ns("utils")["process_tt_rank"], mr, sh, True), rr, "rank of a rounding step")
    # ---- initial residual
    r0 = G.prec(G.bnet)
    if G.x0 is not None:
        r0 = N.sub(r0, G.image(G.xnet))
    S.eq("initial residual", rs[0][1], r0, "initial residual")
    T0 = rs[0][2]
    beta = S.m(T0, "norm")
    bnorm = S.m(G.b, "norm")
    nu = [S.lib.binop("Div", T0, beta)]
    res = [S.lib.binop("Div", beta, bnorm)]
    H = {}
    ys = None
    resid = [beta]                  # candidates for the norm of the projected residual before step j
    for k in (0, len(rs) - 1):
        e = rs[k][0].get("eps")
        S.true(f"threshold {k}", e is None, f"the {'residual' if k == 0 else 'result'} is rounded with threshold {S.desc(e)}", rs[k][4])
    for j in range(its):
        # ---- Arnoldi step
        a1, a2 = rs[1 + 2 * j], rs[2 + 2 * j]
        # thresholds are relaxed as the residual decreases
        want = [S.lib.tonet(S.lib.binop("Div", S.lib.binop("Mult", G.tol, beta), r)) for r in resid]
        for k, a in ((1 + 2 * j, a1), (2 + 2 * j, a2)):
            e = a[0].get("eps")
            if e is None:
                S.bad(f"threshold {k}", "an Arnoldi step is rounded without a threshold", a[4])
            elif any(N.equal(S.lib.tonet(e), w) for w in want):
                S.ok(f"threshold {k}")
            else:
                S.eq(f"threshold {k}", S.lib.tonet(e), want[0], "threshold of a rounding step")
        S.eq(f"image {j}", a1[1], G.image(S.to_numpy(nu[j])), "image of the last basis vector")
        lo = max(0, j - 2) if G.sym else 0
        w = a1[3]
        for i in range(lo, j + 1):
            H[i, j] = S.m(a1[2], "dot", nu[i])
            w = N.sub(w, N.contract([S.lib.tonet(H[i, j]), S.to_numpy(nu[i])], [[], list(range(d))], list(range(d))))
        S.eq(f"orthogonalised {j}", a2[1], w, "image minus its components along the previous basis vectors")
        H[j + 1, j] = S.m(a2[2], "norm")
        nu.append(S.lib.binop("Div", a2[2], H[j + 1, j]))
        # ---- projected problem
        if j >= len(G.ls):
            S.undet(f"least squares {j}", "the projected problem is not solved by a least-squares routine")
            return
        e = G.ls[j]
        A_, b_, y_ = e["a"], e["b"], e["y"]
        S.eqtuple(f"projected matrix {j} shape", tuple(A_.shape), (j + 2, j + 1), "shape of the projected matrix")
        if tuple(A_.shape) != (j + 2, j + 1) or tuple(b_.shape) != (j + 2,):
            S.bad(f"projected problem {j}", f"projected problem of shape {A_.shape}, {b_.shape}", e["loc"])
            return
        for r in range(j + 2):
            for c in range(j + 1):
                S.eq(f"projected matrix {j} [{r},{c}]", S.lib.tonet(A_.get((r, c))), S.lib.tonet(H.get((r, c), 0)), f"entry ({r}, {c}) of the projected matrix")
            S.eq(f"projected right-hand side {j} [{r}]", S.lib.tonet(b_.get((r,))), S.lib.tonet(beta if r == 0 else 0), f"entry {r} of the projected right-hand side")
        ys = [y_.get((i,)) for i in range(j + 1)]
        sq = None
        for r in range(j + 2):
            v = N.neg(S.lib.tonet(beta)) if r == 0 else N.zero_net(())
            for c in range(j + 1):
                if (r, c) in H:
                    v = N.add(v, N.ewise_mul(S.lib.tonet(H[r, c]), S.lib.tonet(ys[c])))
            v = N.ewise_mul(v, v)
            sq = v if sq is None else N.add(sq, v)
        cand = [N.scal_pow(sq, Fraction(1, 2)), N.scal_pow(N.scal_var(f"lsq{e['key']}.res2", nonneg=True), Fraction(1, 2))]
        resid = [S.arr(c) for c in cand]
        rec = get("residual_norm")
        if len(rec) <= j + 1:
            S.bad(f"residual {j}", f"{len(rec)} residuals are recorded after {j + 1} iterations")
            return
        ok = None
        for c in cand:
            v = S.lib.binop("Div", S.arr(c), bnorm)
            if N.equal(S.lib.tonet(v), S.lib.tonet(rec[j + 1])):
                ok = v
        if ok is None:
            S.eq(f"residual {j}", S.lib.tonet(rec[j + 1]), S.lib.tonet(S.lib.binop("Div", S.arr(cand[0]), bnorm)), "recorded residual")
            ok = S.lib.binop("Div", S.arr(cand[0]), bnorm)
        else:
            S.ok(f"residual {j}")
        res.append(ok)
        # ---- stopping rule
        stop = less(S, ok, G.tol)
        if j == its - 1:
            if its < G.maxiter:
                S.true(f"stops {j}", stop is True, f"the iteration ends after {its} of {G.maxiter} steps although the recorded residual is not known to be below the tolerance")
            else:
                S.ok(f"limit {j}")
        else:
            S.true(f"continues {j}", stop is False, f"iteration {j + 2} starts although the recorded residual was not found to be at least the tolerance")
    if its == 0:
        S.true("no iterations", G.maxiter == 0, f"no iterations with a limit of {G.maxiter}")
    rec = get("residual_norm")
    S.true("recorded residuals", len(rec) == its + 1, f"{len(rec)} residuals recorded for {its} iterations")
    if rec:
        S.eq("first residual", S.lib.tonet(rec[0]), S.lib.tonet(res[0]), "first recorded residual")
    # ---- result: guess plus combination of the basis vectors
    want = G.xnet if G.x0 is not None else N.zero_net(sh)
    for i in range(its):
        want = N.add(want, N.contract([S.lib.tonet(ys[i]), S.to_numpy(nu[i])], [[], list(range(d))], list(range(d))))
    S.eq("solution", rs[-1][1], want, "final combination")
    S.eq("returned", S.to_numpy(G.x), rs[-1][3], "returned solution")
    # ---- saved basis
    vs = get("nu_list")
    for i in range(min(len(vs), len(nu))):
        S.eq(f"basis {i}", S.to_numpy(vs[i]), S.to_numpy(nu[i]), "basis vector")
    S.true("basis size", its == 0 or its <= len(vs) <= its + 1, f"{len(vs)} basis vectors after {its} iterations")


def runs(S, d, method, final, pre, x0, maxiter, kw):
    """every option combination runs; the results of truncations and sketches are fresh trains"""
    sh = S.dims(d)
    cnt = [0]

    def fresh(args, kw):
        cnt[0] += 1
        return S.tt(f"f{cnt[0]}", sh, (1,) * (d - 1))
    ov = S.I.overrides
    ov["tt_sketch.tensor.TensorTrain.round"] = fresh
    ov["tt_sketch.sketch.orthogonal_sketch"] = fresh
    ov["tt_sketch.sketch.SketchedTensorTrain.to_tt"] = fresh
    sk = mkd(S, "stt", "sk", sh)[0]
    ov["tt_sketch.sketch.stream_sketch"] = lambda a, k: sk
    A = S.call(S.cls("tt_gmres", "TTLinearMapSum"), ListObj([op(S, f"M{k}", sh, sh)[0] for k in range(1 if method is None else 2)]))
    b = S.tt("b", sh, (1,) * (d - 1))
    p = S.call(S.cls("tt_gmres", "TTPrecond"), S.atom("P", sh[0], sh[0]), sh, 0) if pre else None
    x = S.tt("x0", sh, (1,) * (d - 1)) if x0 else None
    r = S.run("solve", lambda: S.call(S.ns("tt_gmres")["tt_sum_gmres"], A, b, 1, precond=p, x0=x, maxiter=maxiter, rounding_method=method,
                                      rounding_method_final=final, **kw))
    S.true("result", isinstance(r, tuple) and len(r) == 2, "a solution and a history are returned")
    S.eqtuple("shape", S.get(r[0], "shape"), sh, "shape of the solution")
    S.true("history", len(S.list(S.lib.getitem(r[1], "residual_norm"))) >= 1, "residuals are recorded")


CASES = []
for d, u in ((1, ()), (1, (0,)), (2, ()), (2, (0,)), (3, ())):
    for nm in (1, 2):
        for sym in (False, True):
            for pre in ((None, 0) if d == 1 else (None, 0, d - 1)):
                for x0 in (False, True):
                    for it in (0, 1, 2, 3):
                        if it == 3 and (d > 1 or nm > 1):
                            continue
                        if d == 3 and (it > 1 or nm == 2 and pre is not None):
                            continue
                        m, f = (("pairwise", None), ("exact", "sketch"), (None, None), ("sketch", "orth_sketch"))[(it + nm + x0) % 4]
                        CASES.append(Case("C23", f"solve_{d}{u}_{nm}_{sym}_{pre}_{x0}_{it}", solve, (d, nm, pre, x0, m, f, sym, it, 2, None, u), timeout=400))
for sym in (False, True):
    for it in (4, 5, 6):
        CASES.append(Case("C23", f"solve_long_{sym}_{it}", solve, (1, 1, None, True, "pairwise", None, sym, it, 2, None, ()), timeout=400,
                          tier="quick" if it == 4 or sym and it == 5 else "thorough", max_paths=200))
CASES.append(Case("C23", "final_rank", lambda S: solve(S, 3, 1, None, True, "pairwise", "exact", False, 1, (2, 3), (4, 5), ())))
CASES.append(Case("C23", "final_rank_list", lambda S: solve(S, 3, 1, 1, True, "pairwise", "exact", False, 1, ListObj([2, 3]), 7, ())))
CASES.append(Case("C23", "verbose", lambda S: solve(S, 2, 1, None, False, "exact", None, False, 2, 2, None, (), verbose=True)))
for d in (1, 2, 3):
    for m, f in (("exact", None), ("pairwise", None), ("sketch", None), ("orth_sketch", None), (None, None), ("pairwise", "exact"), (None, "exact"), ("exact", "sketch"),
                 ("sketch", "orth_sketch")):
        for pre, x0 in ((False, False), (True, True)):
            for it in (0, 1, 2):
                if it == 2 and (d > 1 or m is None) or d == 3 and it and m is None:
                    continue
                for k, kw in (("", {}), ("_opts", {"symmetric": True, "save_basis": True, "verbose": True, "final_round_rank": 1})):
                    CASES.append(Case("C23", f"runs_{d}_{m}_{f}_{pre}_{it}{k}", runs, (d, m, f, pre, x0, it, kw), timeout=300, tier="quick" if d < 3 else "thorough"))
