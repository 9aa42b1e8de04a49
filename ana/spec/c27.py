"""C27 Parallel random fills are complete and their failures surface.

Rule: the fill is interpreted for symbolic sizes and every worker count with three schedules of the tasks (a task runs as soon as
it is submitted, as late as possible in order, as late as possible in reverse order).  The writes of the tasks partition the
array (window arithmetic for symbolic sizes, position by position for small sizes), every task draws from a stream no other task
uses, nothing uninitialised is returned, all tasks are waited for, the three schedules give the same array, and a failure planted
in any task (at its start or in its draw) is raised to the caller."""
from spec.common import *
import itertools

SCHEDULES = ("eager", "lazy", "reverse")


def build(S, maker, shape, threads):
    m = S.ns("utils")
    if maker == "class":
        r = S.call(m["MultithreadedRNG"], shape, S.seed, threads) if threads is not None else S.call(m["MultithreadedRNG"], shape, S.seed)
        return S.get(r, "values")
    return S.call(m["random_normal"], shape, seed=S.seed)


def rnds(term):
    return [h for h, _ in term[1] if h[0] == "rnd"]


def bad_atoms(net):
    return sorted({h[0] for c, at in net.terms for h, _ in at if h[0] in ("uninit", "nonfinite")})


def windows(net):
    """[(start, end, stream)] of a one-dimensional net made of windows of streams, in the order of the terms"""
    out = []
    for c, at in net.terms:
        r = [h for h, _ in at if h[0] == "rnd"]
        inj = [(h, a) for h, a in at if h[0] == "Inj"]
        chi = [(h, a) for h, a in at if h[0] == "Chi"]
        if len(r) != 1 or c != N.ONE or len(inj) + len(chi) > 1 or len(at) != 1 + len(inj) + len(chi):
            return None
        if chi:
            if chi[0][0][1] != 0:
                return None
            out.append((0, chi[0][0][2], r[0]))
        elif inj:
            (h, (K, L)) = inj[0]
            size = 1
            for l in K:
                size = P.pmul(size, l.size)
            out.append((h[1], P.padd(h[1], size), r[0]))
        else:
            out.append((0, net.shape[0], r[0]))
    return out


def indicator(S, a):
    net = N.const_net(tuple(a.shape), 1)
    while a.view is not None:
        par, get, put = a.view
        net = put(N.zero_net(tuple(par.net.shape)), net)
        a = par
    return net, a


def cover(S, tag, root, wr, total, shape, threads):
    """the tasks write every element of a small array once"""
    count = {}
    for a, w in wr:
        n, r = indicator(S, a)
        if r is not root:
            continue
        tot = 1
        for x in r.shape:
            tot = P.pmul(tot, x)
        if tot == 0 or not n.terms:
            continue
        if len(n.terms) != 1:
            return S.undet(f"{tag} elements", "region of a write")
        lo, hi = 0, tot
        for h, args in n.terms[0][1]:
            if h[0] == "Chi":
                lo, hi = max(lo, h[1]), min(hi, h[2])
            elif h[0] == "Inj" and not args[0]:
                lo, hi = h[1], h[1] + 1
            else:
                return S.undet(f"{tag} elements", "region of a write")
        for k in range(lo, hi):
            count.setdefault(k, set()).add(w.id)
    if not count:
        # the result is put together from the tasks' own arrays: the symbolic cases decide
        S.ok(f"{tag} elements by windows")
        return
    gaps = [k for k in range(total) if k not in count]
    two = [k for k in sorted(count) if len(count[k]) > 1]
    if gaps:
        S.bad(f"{tag} elements", f"element {gaps[0]} of an array of shape {shape} is not written (workers: {threads})", loc="MultithreadedRNG")
    elif two:
        S.bad(f"{tag} elements", f"element {two[0]} of an array of shape {shape} is written by tasks {sorted(count[two[0]])} (workers: {threads})", loc="MultithreadedRNG")
    else:
        S.ok(f"{tag} elements")


def run(S, maker, shape, threads, schedule, fault=None):
    lib = S.lib
    lib.schedule, lib.fault, lib.nworkers, lib.writes = schedule, fault, 0, []
    mark = len(S.I.events)
    return mark, build(S, maker, shape, threads)


def judge(S, maker, shape, threads, schedule, tag):
    mark, v = S.run(f"{tag} fill", lambda: run(S, maker, shape, threads, schedule))
    ev = S.I.events[mark:]
    writes = list(S.lib.writes)
    S.lib.writes = None
    if not isinstance(v, NDArr):
        S.undet(f"{tag} result", f"{v!r}")
        return None
    net = v.net
    S.eqtuple(f"{tag} shape", tuple(net.shape), tuple(shape))
    un = bad_atoms(net)
    if un and all(isinstance(x, int) for x in shape):
        pass        # decided by the windows below
    elif un:
        # small concrete sizes decide whether it is read
        S.undet(f"{tag} initialised", "part of the array may be uninitialised")
    else:
        S.ok(f"{tag} initialised")
    # all tasks done
    fs = [e["future"] for e in ev if e["kind"] == "submit"]
    late = [f for f in fs if not f.waited]
    if late:
        S.bad(f"{tag} waited", f"{len(late)} of {len(fs)} tasks may still run when the array is returned", loc="MultithreadedRNG")
    else:
        S.ok(f"{tag} waited")
    # own streams
    by = {}
    for e in ev:
        if e["kind"] == "draw" and e.get("worker") is not None:
            by.setdefault(e["worker"].id, []).append(e)
    shared = None
    for i, j in itertools.combinations(sorted(by), 2):
        for x in by[i]:
            for y in by[j]:
                if (x["rng"] is y["rng"] or x["skey"] == y["skey"]) and not (x["size"] == 0 or y["size"] == 0):
                    shared = shared or (i, j)
    if shared:
        S.bad(f"{tag} own stream", f"tasks {shared[0]} and {shared[1]} draw from the same stream", loc="MultithreadedRNG")
    else:
        S.ok(f"{tag} own stream")
    # every element exactly once
    total = 1
    for s in shape:
        total = P.pmul(total, s)
    conc = all(isinstance(s, int) for s in shape)
    wr = [(a, w) for a, w in writes if w is not None]
    root = v.root()
    if conc and total <= 64:
        cover(S, tag, root, wr, total, shape, threads)
        return net
    flat = N.reshape(net, (total,)) if len(shape) != 1 else net
    ws = windows(flat)
    if ws is None:
        S.undet(f"{tag} windows", S.show(flat)[:200])
        return net
    todo = list(ws)
    cur = 0
    while todo:
        nxt = [w for w in todo if P.peq(w[0], cur)]
        if not nxt:
            break
        # an empty window may start where the next one does
        nxt.sort(key=lambda w: not P.peq(w[0], w[1]))
        todo.remove(nxt[0])
        cur = nxt[0][1]
    if todo or not P.peq(cur, total):
        S.undet(f"{tag} windows", f"{[(w[0], w[1]) for w in ws]}")
    else:
        S.ok(f"{tag} windows")
    size = 0
    for a, w in wr:
        t = 1
        for s in a.shape:
            t = P.pmul(t, s)
        size = P.padd(size, t)
    if wr:
        S.eqint(f"{tag} written once", size, total, "number of elements written")
    return net


def fill(S, maker, shape, threads):
    S.seed = S.sym("seed", 0)
    if isinstance(shape, str):
        shape = tuple(S.sym(x, 0) for x in shape)
    nets = [judge(S, maker, shape, threads, sc, sc) for sc in SCHEDULES]
    for sc, n in zip(SCHEDULES[1:], nets[1:]):
        if n is not None and nets[0] is not None:
            if N.equal(n, nets[0]) or any(x == 0 for x in shape) or all(isinstance(x, int) for x in shape) and bad_atoms(n):
                S.ok(f"{sc} same result")
            else:
                S.bad(f"{sc} same result", "the array depends on the schedule of the tasks")


def faults(S, maker, shape, threads, schedule):
    S.seed = S.sym("seed", 0)
    if isinstance(shape, str):
        shape = tuple(S.sym(x, 0) for x in shape)
    for k in range(threads or 64):
        for how in ("start", "draw"):
            mark = len(S.I.events)
            try:
                S.I.call(NativeFn("run", lambda a, kw: run(S, maker, shape, threads, schedule, (k, how))[1]), [], {})
            except PyRaise as e:
                if S.is_exc(e, MemoryError):
                    S.ok(f"task {k} {how}")
                else:
                    S.ok(f"task {k} {how} raised {S.excname(e)}")
                continue
            hit = any(e["kind"] == "fault" for e in S.I.events[mark:])
            if hit:
                S.bad(f"task {k} {how}", f"an exception in task {k} of {threads} is not raised to the caller", loc="MultithreadedRNG")
            elif k < S.lib.nworkers and how == "start":
                S.bad(f"task {k} {how}", f"task {k} never ran", loc="MultithreadedRNG")
            else:
                S.ok(f"task {k} {how} not reached")
        if k >= S.lib.nworkers and S.lib.nworkers:
            break


CASES = []
for T_ in (1, 2, 3, 4, 5, 7, 8, None):
    CASES.append(Case("C27", f"fill_n_{T_}", fill, ("class", "n", T_), raw_rng=True))
    if T_ in (1, 2, 3, 8, None):
        CASES.append(Case("C27", f"fill_nm_{T_}", fill, ("class", "nm", T_), raw_rng=True))
    for n in (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17):
        CASES.append(Case("C27", f"fill_{n}_{T_}", fill, ("class", (n,), T_), raw_rng=True))
    for sc in SCHEDULES:
        CASES.append(Case("C27", f"fault_n_{T_}_{sc}", faults, ("class", "n", T_, sc), raw_rng=True, raise_ok=True))
        CASES.append(Case("C27", f"fault_9_{T_}_{sc}", faults, ("class", (9,), T_, sc), raw_rng=True, raise_ok=True))
for sh in ("n", "nm", "nmk", (3, 4), (2, 0), (5, 1, 3), (11,)):
    CASES.append(Case("C27", f"random_normal_{sh}", fill, ("fn", sh, None), raw_rng=True))
