"""C30 Test-function tensors have the requested shape and entries.

Rule: the generators are interpreted for symbolic mode sizes and every order up to five; the inferred tensor must be the
elementwise function of the sum of the coordinates, each coordinate varying along its own mode, that the documentation states
(the same structure is inferred from the formula written down independently), normalised by its own Frobenius norm for the
square-root tensor; the power-decay tensor must have the requested shape, a single Gaussian draw from the seed, and in the last
treated mode singular values decaying by the documented law."""
from spec.common import *

REF = '''
import numpy as np

def along(v, k, d):
    sh = [1] * d
    sh[k] = len(v)
    return v.reshape(sh)

def hilbert(shape):
    d = len(shape)
    t = along(np.arange(shape[0]), 0, d)
    for k in range(1, d):
        t = t + along(np.arange(shape[k]), k, d)
    return 1 / (t + 1)

def sqrt_(shape, a, b):
    d = len(shape)
    t = along(np.linspace(a, b, shape[0]), 0, d)
    for k in range(1, d):
        t = t + along(np.linspace(a, b, shape[k]), k, d)
    x = np.sqrt(np.abs(t))
    return x / np.linalg.norm(x)

def decay(A, mode, pow, matricize, dematricize):
    M = matricize(A, mode)
    U, S, V = np.linalg.svd(M, full_matrices=False)
    S = S / S[0] * (1 / np.arange(1, len(S) + 1) ** pow)
    return dematricize(U @ np.diag(S) @ V, mode, A.shape)
'''


def hilbert(S, d, n):
    n = S.sym("n") if n is None else n
    r = S.run("hilbert", lambda: S.call(S.ns("utils")["hilbert_tensor"], d, n))
    S.eqtuple("shape", tuple(r.shape), (n,) * d, "shape")
    want = S.run("reference", lambda: S.call(S.client(REF)["hilbert"], (n,) * d))
    S.eq("entries", S.net(r), S.net(want), "Hilbert tensor")


def sqrt_(S, d, unit, how):
    sh = S.dims(d, unit=unit)
    kw, a, b = {}, Fraction(-1, 5), 2
    if how == "range":
        a, b = Fraction(-3, 2), Fraction(7, 2)
        kw = {"a": a, "b": b}
    r = S.run("sqrt", lambda: S.call(S.ns("utils")["sqrt_tensor"], sh, **kw))
    S.eqtuple("shape", tuple(r.shape), sh, "shape")
    want = S.run("reference", lambda: S.call(S.client(REF)["sqrt_"], sh, a, b))
    S.eq("entries", S.net(r), S.net(want), "square-root tensor")
    nrm = N.contract([S.net(r), S.net(r)], [list(range(d)), list(range(d))], [])
    S.eq("norm", nrm, N.scalar_net(1), "squared norm")


def power(S, d, unit, pw, seeded):
    sh = S.dims(d, unit=unit)
    kw = {}
    if pw is not None:
        kw["pow"] = pw
    if seeded:
        kw["seed"] = S.sym("seed", 0)
    mark = len(S.I.events)
    r = S.run("power", lambda: S.call(S.ns("utils")["power_decay_tensor"], sh, **kw))
    S.eqtuple("shape", tuple(r.shape), sh, "shape")
    ev = [e for e in S.I.events[mark:] if e["kind"] == "draw"]
    if len(ev) != 1:
        S.undet("draw", f"{len(ev)} draws")
        return
    S.eqint("draw", ev[0]["size"], S.lib.tot(sh), "number of random entries")
    # the tensor is what successive weighting of the unfoldings gives
    rng = ev[0]["rng"]
    A = S.arr(N.reshape(draw_net(ev[0]), sh))
    ns = S.client(REF)
    u = S.ns("utils")
    for mode in range(d):
        A = S.run("reference", lambda: S.call(ns["decay"], A, mode, pw if pw is not None else Fraction(2), u["matricize"], u["dematricize"]))
    if d <= 2:
        S.eq("entries", S.net(r), S.net(A), "power-decay tensor")


def draw_net(e):
    L = N.mkleg(e["size"])
    return Net((L,), [(N.ONE, ((("rnd", e["family"], e["skey"], e["dist"], repr(e["pos"])), (L,)),))])


CASES = []
for d in (1, 2, 3, 4, 5):
    q = "quick" if d <= 4 else "thorough"
    for n in (None, 1):
        CASES.append(Case("C30", f"hilbert_{d}_{n}", hilbert, (d, n), tier=q))
    for unit in unit_variants(d) if d < 5 else [()]:
        for how in ("default", "range"):
            CASES.append(Case("C30", f"sqrt_{d}_{unit}_{how}", sqrt_, (d, unit, how), tier=q))
    if d <= 4:
        for unit in unit_variants(d):
            for pw in (None, Fraction(1), Fraction(5, 2), 3):
                for seeded in (False, True):
                    CASES.append(Case("C30", f"power_{d}_{unit}_{pw}_{seeded}", power, (d, unit, pw, seeded), tier=q))
