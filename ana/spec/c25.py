"""C25 Lazily hashed map entries are a pure, collision-free function of position.

Rule: the compiled kernels are interpreted abstractly (loops generalised over their index, 64-bit values as terms over wrapping
arithmetic).  The inferred entry at (nonzero n, row r) may mention only the index tuple of n, the mode sizes, the absolute row
number and the seed: no other nonzero, no n, no rank window, no uninitialised memory.  The hash input is a polynomial in the
indices that is injective (mixed radix in full width), the mixing steps are bijective, rows and consecutive seeds do not shift it by the distance of
indices, every mode index and the seed occur, and
entries are finite.  The maps pass the tensor's leading index rows, the mode sizes, the window and a seed that depends on the
seed and the mode only."""
import glob
import hashlib
import itertools
import os

import pyx
from harness import AstCase
from pyx import KRaise, Kernel, MAXV, Store, Arr, T, Unsup, V, mkT
from spec.common import *
import harness

NAMES = {"normal": "inds_to_normal", "sign": "inds_to_sparse_sign"}


def module(fn=None):
    """the Cython module that defines the kernels"""
    for f in sorted(glob.glob(os.path.join(harness.REPO, "tt_sketch", "**", "*.pyx"), recursive=True)):
        m = pyx.Module(f, os.path.relpath(f, harness.REPO))
        if fn is None or fn in m.funcs:
            return m
    raise harness.MissingAnchor(fn or "kernel module")


def infer(kind, d, rec, values, visited):
    """(kernel, result array) for symbolic arguments"""
    m = module(NAMES[kind])
    pyx.reset()
    k = Kernel(m, rec, values=values, rows=("N",))
    n, a, w, R, z = (P.new_sym(x, 0) for x in ("N", "a", "w", "R", "m"))
    for x in ("R", "m", "a", "w"):
        MAXV[x] = 2 ** 30
    P.add_fact(P.psub(R, z))
    st = Store("indices", [d, n], "long")
    st.value = V("u", mkT("idx", P.new_sym(st.params[0], 0), P.new_sym(st.params[1], 0)), "long")
    ind = Arr(st, [(0,), (1,)])
    sh = [V("i", P.new_sym(f"s{j}", 1)) for j in range(d)]
    seed = V("u", mkT("seed"))
    num = lambda x: V("i", x)
    args = {"indices": ind, "shape": sh, "rank_min": num(a), "rank_max": num(P.padd(a, w)), "seed": seed, "rank": num(R), "non_zero_per_row": num(z)}
    fn = m.funcs[NAMES[kind]]
    try:
        call = [args[x.arg] for x in fn.args.args]
    except KeyError as e:
        raise Unsupported(f"kernel argument {e}")
    try:
        r = k.call(NAMES[kind], call)
    except Unsup as e:
        raise Unsupported(f"{e} at {k.loc()}")
    except KRaise as e:
        raise Unsupported(f"the kernel raises {e}")
    finally:
        visited |= k.visited
    if not isinstance(r, Arr):
        raise Unsupported("result of the kernel")
    return k, r


def walk(t, seen=None):
    """all subterms, also those behind data dependent integers"""
    seen = {} if seen is None else seen
    if isinstance(t, T):
        if t.id in seen:
            return seen
        seen[t.id] = t
        for a in t.args:
            walk(a, seen)
    elif isinstance(t, Poly):
        for s in t.symbols():
            if s in pyx.SYMDEP:
                walk(pyx.SYMDEP[s][0], seen)
    return seen


def symbols(seen):
    out = set()
    for t in seen.values():
        for a in t.args:
            if isinstance(a, Poly):
                out |= {s for s in a.symbols() if s not in pyx.SYMDEP}
    return out


class Ring:
    """normal form: polynomials modulo 2^64 over atoms"""

    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.base = None        # the innermost hash input

    def atom(self, t):
        self.atoms[f"A{t.id}"] = t
        return {((f"A{t.id}", 1),): 1}

    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = {m: c % 2 ** 64 for m, c in self.go(t).items() if c % 2 ** 64}
        return r

    def go(self, t):
        if t.op == "p":
            x = t.args[0]
            return {(): x} if isinstance(x, int) else dict(x.t)
        if t.op in ("+", "-"):
            r = dict(self.nf(t.args[0]))
            for m, c in self.nf(t.args[1]).items():
                r[m] = r.get(m, 0) + (c if t.op == "+" else -c)
            return r
        if t.op == "*":
            r = {}
            for m1, c1 in self.nf(t.args[0]).items():
                for m2, c2 in self.nf(t.args[1]).items():
                    m = P._mul_mono(m1, m2)
                    r[m] = r.get(m, 0) + c1 * c2
            return r
        if t.op == "<<" and t.args[1].op == "p" and isinstance(t.args[1].args[0], int):
            return {m: c * 2 ** t.args[1].args[0] for m, c in self.nf(t.args[0]).items()}
        return self.atom(t)


def has_idx(t):
    return any(x.op == "idx" for x in walk(t).values())


def injective(t, d, R):
    """(True/False/None, explanation): is the integer term t injective in the index tuple?"""
    nf = R.nf(t)
    deps = {n for m in nf for n, _ in m if n in R.atoms and has_idx(R.atoms[n])}
    if deps and all(R.atoms[n].op == "idx" for n in deps):
        R.base = nf
        return radix(nf, deps, d, R)
    if len(deps) == 1:
        (n,) = deps
        c = [(m, c) for m, c in nf.items() if any(x == n for x, _ in m)]
        if len(c) == 1 and c[0][0] == ((n, 1),):
            if c[0][1] % 2 == 0:
                return False, "a mixing step multiplies by an even number"
            u = R.atoms[n]
            if u.op == "^":
                return xorshift(u, d, R)
            if u.op in (">>", "//", "%", "&", "|"):
                return False, f"a step of the hash loses information ({u.op})"
            if u is t or u.op in ("p", "+", "-", "*"):
                return None, "mixing step"
            return None, f"mixing step {u.op}"
        return None, "mixing step"
    if not deps:
        return False, "the index tuple does not enter the hash"
    if len(deps) == 2:
        return None, "mixing of two parts"
    return None, "hash input"


def xorshift(t, d, R):
    """x ^ (x >> s), x ^ (x << s), x ^ c"""
    a, b = t.args
    for x, y in ((a, b), (b, a)):
        if not has_idx(y):
            return injective_in(x, d, R)
        if y.op in (">>", "<<") and R.nf(y.args[0]) == R.nf(x) and y.args[1].op == "p":
            s = y.args[1].args[0]
            if isinstance(s, int) and s == 0:
                return False, "a number is combined with itself"
            if isinstance(s, int) and 0 < s < 64:
                return injective_in(x, d, R)
    return None, "mixing step"


def injective_in(x, d, R):
    return injective(x, d, R)


def radix(nf, deps, d, R):
    """sum over k of idx_k * prod(sizes of the modes before k in some order)"""
    coef = {}
    for m, c in nf.items():
        hit = [(n, e) for n, e in m if n in deps]
        if not hit:
            continue
        if len(hit) > 1 or hit[0][1] > 1:
            return None, "hash input is not linear in the indices"
        k = R.atoms[hit[0][0]].args[0]
        rest = tuple(x for x in m if x[0] != hit[0][0])
        coef.setdefault(k, {})
        coef[k][rest] = coef[k].get(rest, 0) + c
    missing = [k for k in range(d) if k not in coef]
    if missing:
        return False, f"the index of mode {missing[0]} does not enter the hash"
    cs = {k: P.mk({m: c for m, c in v.items()}) for k, v in coef.items()}
    sizes = [P.new_sym(f"s{k}", 1) for k in range(d)]
    for perm in itertools.permutations(range(d)):
        want, ok = 1, True
        for k in perm:
            if not P.peq(cs[k], want):
                ok = False
                break
            want = P.pmul(want, sizes[k])
        if ok:
            return True, ""
    # a concrete collision between two index tuples
    for shape in itertools.product((2, 3, 4), repeat=d):
        env = {f"s{k}": x for k, x in enumerate(shape)}

        def val(x):
            if isinstance(x, int):
                return x
            r = 0
            for m, c in x.t.items():
                for n, e in m:
                    if n not in env:
                        return None
                    c *= env[n] ** e
                r += c
            return r
        cv = [val(cs[k]) for k in range(d)]
        if any(c is None for c in cv):
            return None, "coefficients of the hash input"
        seen = {}
        for t in itertools.product(*[range(x) for x in shape]):
            h = sum(a * b for a, b in zip(t, cv)) % 2 ** 64
            if h in seen:
                return False, f"indices {seen[h]} and {t} of a tensor of shape {shape} have the same hash input"
            seen[h] = t
    return None, "hash input is not a mixed radix number"


def oracle(*key):
    return int(hashlib.sha1(repr(key).encode()).hexdigest()[:15], 16)


def plain(t, seed):
    """value of a term that is a remainder of the seed, None for others"""
    if t.op == "seed":
        return seed
    if t.op == "p":
        return t.args[0] if isinstance(t.args[0], int) else None
    if t.op in ("+", "-", "*", "%", "//"):
        a, b = (plain(x, seed) for x in t.args)
        if a is None or b is None or t.op in ("%", "//") and not b:
            return None
        return a + b if t.op == "+" else a - b if t.op == "-" else a * b if t.op == "*" else a % b if t.op == "%" else a // b
    return None


def separated(nf, d, R):
    """(True/False/None, explanation): do different (index tuple, row, seed) lead to different hash inputs?  Steps that mix the row
    or the seed beforehand count as random functions of them."""
    names = {n for m in nf for n, _ in m}
    atoms = {n: R.atoms[n] for n in names if n in R.atoms}
    deps = {}
    for n, t in atoms.items():
        seen = walk(t)
        deps[n] = (any(x.op == "seed" for x in seen.values()), frozenset(symbols(seen)))
    raw = {n for n in names if n not in R.atoms}
    rows = sorted((raw | set().union(*[x for _, x in deps.values()])) - {f"s{k}" for k in range(d)} - {"n", "N"})
    hit = None
    for shape in ((3,) * d, (4, 3, 2, 3, 2)[:d]):
        seen = {}
        for t in itertools.product(*[range(x) for x in shape]):
            for rv in itertools.product(range(3), repeat=min(len(rows), 2)):
                for sd in (11, 12, 13):
                    env = {f"s{k}": x for k, x in enumerate(shape)}
                    env.update(zip(rows, rv))
                    h = 0
                    for m, c in nf.items():
                        for n, e in m:
                            if n in atoms:
                                a = atoms[n]
                                if a.op == "idx":
                                    if not isinstance(a.args[0], int):
                                        return None, "index of a symbolic mode"
                                    v = t[a.args[0]]
                                else:
                                    v = plain(a, sd)
                                    if v is None:
                                        s, sy = deps[n]
                                        v = oracle(n, sd if s else None, [env.get(x) for x in sorted(sy)])
                            elif n in env:
                                v = env[n]
                            else:
                                return None, f"symbol {n} in the hash input"
                            c *= v ** e
                        h += c
                    h %= 2 ** 64
                    if h in seen and seen[h] != (t, rv, sd):
                        (t0, r0, s0) = seen[h]
                        what = []
                        for x, y, z in (("indices", t0, t), ("rows", r0, rv), ("seeds", s0, sd)):
                            if y != z:
                                what.append(f"{x} {y} and {z}")
                        if hit is None or len(what) < len(hit[1]):
                            hit = (shape, what)
                    seen.setdefault(h, (t, rv, sd))
        if hit:
            return False, f"entries at {', '.join(hit[1])} of a tensor of shape {hit[0]} have the same hash input"
    return True, ""


def bitmask(t):
    """(inner term, retained bits) of and/or with constants"""
    keep = 2 ** 64 - 1
    while t.op in ("&", "|"):
        a, b = t.args
        if a.op == "p" and isinstance(a.args[0], int):
            a, b = b, a
        if b.op != "p" or not isinstance(b.args[0], int):
            break
        c = b.args[0] % 2 ** 64
        keep &= c if t.op == "&" else ~c
        t = a
    return t, keep


def kernel(rec, visited, kind, d):
    k, r = infer(kind, d, lambda st, lab, det, loc: rec(st, lab, det, loc) if lab == "finite" else None, True, visited)
    loc = f"{k.mod.rel} in {NAMES[kind]}"
    if len(r.dims) != 2 or any(len(x) != 1 for x in r.dims):
        raise Unsupported("result is not a matrix")
    a, w = P.new_sym("a", 0), P.new_sym("w", 0)
    want = [P.new_sym("N", 0), w]
    for j, (x, y) in enumerate(zip(r.shape, want)):
        if P.peq(x, y):
            rec("ok", f"shape {j}")
        else:
            rec("violation", f"shape {j}", f"extent {x!r} instead of {y!r}", loc)
    n, row = P.new_sym("n", 0), P.new_sym("r", 0)
    try:
        pos = k.qpos(r, [n, row])
        t = k.read(r.store, pos).term()
    except Unsup as e:
        raise Unsupported(str(e))
    # absolute row number
    q = P.new_sym("row", 0)
    if kind == "sign":
        # the position in the row is the absolute one
        if any(isinstance(p, Poly) and P.peq(p, P.padd(row, a)) for p in pos):
            rec("ok", "window")
        else:
            rec("violation", "window", "row r of the window [a, b) is not row a+r of the map", loc)
    t = pyx.subst(t, "r", P.psub(q, a))
    seen = walk(t)
    syms = symbols(seen)
    ops = {x.op for x in seen.values()}
    allowed = {f"s{j}" for j in range(d)} | {"row"} | ({"R", "m"} if kind == "sign" else set())
    what = {"N": "the number of nonzeros", "n": "the position of the nonzero in the list", "a": "the rank window", "w": "the size of the rank window",
            "R": "the total rank", "m": "the number of nonzeros per row"}
    bad = sorted(s for s in syms if s not in allowed and s in what)
    # the row atoms
    idx = [x for x in seen.values() if x.op == "idx"]
    if kind == "normal" or not any(x.op == "row" and False for x in seen.values()):
        foreign = [x for x in idx if isinstance(x.args[1], int) or not P.peq(x.args[1], n)]
    bad = [s for s in bad if s != "n" or any(x.op == "p" and isinstance(x.args[0], Poly) and "n" in x.args[0].symbols() for x in seen.values())]
    for s in ("N", "n", "a", "w") + (("R", "m") if kind == "normal" else ()):
        if s in bad:
            rec("violation", f"independent of {what[s]}", f"entries depend on {what[s]}", loc)
        else:
            rec("ok", f"independent of {what[s]}")
    if foreign:
        rec("violation", "own index only", f"an entry depends on the indices of another nonzero ({foreign[0].args[1]!r} instead of n)", loc)
    elif "otherrow" in ops or "carried" in ops:
        rec("violation" if "otherrow" in ops else "undet", "own index only", "an entry depends on values computed for other nonzeros", loc)
    else:
        rec("ok", "own index only")
    if "uninitialised" in ops:
        rec("violation" if kind == "normal" else "undet", "initialised", "an entry depends on uninitialised memory", loc)
    else:
        rec("ok", "initialised")
    if "seed" in ops:
        rec("ok", "seed enters")
    else:
        rec("violation", "seed enters", "entries do not depend on the seed", loc)
    if kind == "normal":
        if "row" in syms:
            rec("ok", "row enters")
        else:
            rec("violation", "row enters", "all rows of the map are equal", loc)
    bits = [x.args[0] for x in seen.values() if x.op == "bits"]
    if not bits:
        raise Unsupported("hash values are not reinterpreted as floating point numbers")
    R = Ring()
    for b in bits:
        inner, keep = bitmask(b)
        cnt = bin(keep).count("1")
        if cnt < 32:
            rec("violation", "entropy", f"only {cnt} bits of the hash enter an entry", loc)
        else:
            rec("ok", "entropy")
        r, why = injective(inner, d, R)
        if any(x.op == "trunc" and has_idx(x) for x in walk(inner).values()):
            r, why = False, "the hash input is truncated: " + next(f"{x.args[0]} bits of {x.args[1]!r}"[:120] for x in walk(inner).values() if x.op == "trunc" and has_idx(x))
        tr = [x for x in walk(inner).values() if x.op == "trunc"]
        if r is None and tr:
            r, why = False, f"a factor of the hash input is truncated to {tr[0].args[0]} bits"
        rec("ok" if r else "undet" if r is None else "violation", "injective", why, loc)
        if r and R.base is not None:
            r, why = separated(R.base, d, R)
            rec("ok" if r else "undet" if r is None else "violation", "rows and seeds separated", why, loc)


def streams(S, kind, name, X):
    """sketches of a map with the kernel calls they make"""
    mark = len(S.I.events)
    meth = "sketch_sparse"
    out = S.run("sketch", lambda: [S.net(x) for x in S.list(S.m(S.maps[name], meth, X))])
    return out, [e for e in S.I.events[mark:] if e["kind"] == "kernel"]


def driver(S, kind, d, transpose, window, nnz):
    sh = S.dims(d)
    rank = tuple(S.sym(f"R{k}", 2) for k in range(d - 1))
    kw = {}
    if kind == "SparseSignDRM" and nnz:
        z = tuple(S.sym(f"z{k}", 1) for k in range(d - 1))
        for a, b in zip(z, rank):
            P.add_fact(P.psub(b, a))
        kw["num_non_zero_per_row"] = z
    S.maps = {"m": mk_drm(S, kind, rank, sh, transpose, seed_sym(S), **kw)}
    lo, hi = (0,) * (d - 1), rank
    if window:
        lo = tuple(S.sym(f"lo{k}", 1) for k in range(d - 1))
        hi = tuple(P.padd(l, S.sym(f"w{k}", 1)) for k, l in enumerate(lo))
        for a, b in zip(hi, rank):
            P.add_fact(P.psub(b, a))
        S.maps["m"] = S.run("slice", lambda: S.m(S.maps["m"], "slice", lo, hi))
    X = mk(S, "sparse", "X", sh)
    Y = mk(S, "sparse", "Y", sh)
    a, ea = streams(S, kind, "m", X)
    b, eb = streams(S, kind, "m", Y)
    if transpose:
        ea, eb = ea[::-1], eb[::-1]
    if len(ea) != d - 1 or len(eb) != d - 1:
        S.undet("kernel calls", f"{len(ea)} kernel calls for {d - 1} modes")
        return
    # the kernel called with the leading index rows, the sizes and the window
    ns = S.lib.pyx_module("tt_sketch.drm.fast_lazy_gaussian")
    for T_, outs, evs, nm in ((X, a, ea, "X"), (Y, b, eb, "Y")):
        idx = S.get(T_, "indices")
        for mu in range(d - 1):
            modes = list(range(mu + 1)) if not transpose else list(range(d - 1, mu, -1))
            rows = [S.lib.array_getitem(idx, j) for j in modes]
            rows = IntStack(rows, rows[0].shape[0])
            dims = tuple(sh[j] for j in modes)
            e = evs[mu]
            if kind == "SparseSignDRM":
                k = ns["inds_to_sparse_sign"].fn([rows, dims, rank[mu], lo[mu], hi[mu], kw["num_non_zero_per_row"][mu] if kw else rank[mu], e["seed"]], {})
            else:
                k = ns["inds_to_normal"].fn([rows, dims, lo[mu], hi[mu], e["seed"]], {})
            S.eq(f"{nm} entries {mu}", N.transpose(outs[mu], (1, 0)) if outs[mu].ndim == 2 else outs[mu], k.net, "entries of the map")
    for mu in range(d - 1):
        if S.lib.seedkey(ea[mu]["seed"]) == S.lib.seedkey(eb[mu]["seed"]):
            S.ok(f"seed {mu}")
        else:
            S.bad(f"seed {mu}", "the seed of a mode depends on the sketched tensor")


CASES = [AstCase("C25", f"kernel_{kind}_{d}", kernel, (kind, d)) for kind in NAMES for d in (1, 2, 3, 4, 5)]
for d in (2, 3, 4):
    for t in (False, True):
        CASES.append(Case("C25", f"map_SparseGaussianDRM_{d}_{t}", driver, ("SparseGaussianDRM", d, t, False, False)))
        for win in (False, True):
            for nnz in (False, True):
                CASES.append(Case("C25", f"map_SparseSignDRM_{d}_{t}_{win}_{nnz}", driver, ("SparseSignDRM", d, t, win, nnz)))
        CASES.append(Case("C25", f"map_SparseGaussianDRM_{d}_{t}_slice", driver, ("SparseGaussianDRM", d, t, True, False)))
