"""Refutation guard: random finite models of the abstract domain.

A mismatch of normal forms is only reported when the two abstract values also
differ in a random finite model (sizes -> small integers, input atoms -> random
arrays, QR/SVD/pinv heads -> the factors of the modelled matrix).  This can
only *suppress* reports (incomplete normal forms); it never produces one and
never touches the repository's code.
"""
from __future__ import annotations

import hashlib
import random
import time
from fractions import Fraction

import net as N
import poly as P
from net import INF, Leg, Net
from poly import Poly

try:
    import numpy as np
except ImportError:        # pragma: no cover
    np = None

INFSIZE = 48


class CantEval(Exception):
    pass


def _seed(*parts):
    return int(hashlib.sha1(repr(parts).encode()).hexdigest()[:12], 16)


class Env:
    """assignment of the base symbols"""

    def __init__(self, vals, seed):
        self.vals = dict(vals)
        self.seed = seed
        self.memo = {}
        self.keep = []
        self.styles = {}

    # ---------------------------------------------------------- integers
    def sym(self, n):
        if n in self.vals:
            return self.vals[n]
        s = P.CTX.syms.get(n)
        if s is None:
            raise CantEval(f"symbol {n}")
        v = self._derived(n, s)
        self.vals[n] = v
        return v

    def _derived(self, n, s):
        op, a = s.op, s.args
        if op == "min":
            return min(self.poly(x) for x in a)
        if op == "max":
            return max(self.poly(x) for x in a)
        if op in ("floordiv", "mod", "ceildiv"):
            x, y = self.poly(a[0]), self.poly(a[1])
            if y == 0:
                raise CantEval("division by zero")
            return x // y if op == "floordiv" else x % y if op == "mod" else -((-x) // y)
        if op == "count":
            return self._count(n)
        if op == "nonzeros" and n in N.NONZEROS:
            return int(np.sum(np.abs(self.net(N.NONZEROS[n])) > 1e-12))
        r = random.Random(_seed(self.seed, n))
        lo = s.lo if s.lo is not None else 0
        return lo + r.randrange(0, 5)

    def _count(self, n):
        info = getattr(N, "SVCOUNT", {}).get(n)
        if info is not None:
            key, base, tn, size = info
            A = self.matrix(key)
            sv = np.linalg.svd(A, compute_uv=False)
            m = self.poly(size)
            sv = np.concatenate([sv, np.zeros(max(0, m - len(sv)))])[:m]
            thr = float(self.net(tn)) if tn.terms else 0.0
            sv = np.where(sv < 1e-12, 0.0, sv)
            return int(np.sum(sv > thr) if base == "Gt" else np.sum(sv >= thr))
        raise CantEval("mask count")

    def poly(self, p):
        if p is INF:
            return INFSIZE
        if isinstance(p, (int, Fraction)):
            return p
        tot = 0
        for m, c in p.t.items():
            v = c
            for n, e in m:
                v *= self.sym(n) ** e
            tot += v
        return tot

    def size(self, leg):
        v = self.poly(leg.size)
        if v < 0:
            raise CantEval("negative size")
        if v > 4096:
            raise CantEval("too large")
        return v

    # ---------------------------------------------------------- scalars
    def scal(self, k):
        kind = k[0]
        if kind == "sym":
            return float(self.sym(k[1]))
        if kind == "num":
            return float(k[1])
        if kind == "var":
            r = random.Random(_seed(self.seed, "var", k[1]))
            v = {"zero": 0.0, "one": 1.0, "eye": 1.0, "tiny": 1e-13}.get(self.styles.get(k), r.uniform(0.4, 1.6))
            if not N.SCALS.get(k, {}).get("nonneg") and r.random() < 0.5:
                v = -v
            return v
        n = N.SCALS.get(k, {}).get("net")
        if n is None:
            if kind == "abs":
                inner = k[1]
                r = random.Random(_seed(self.seed, k))
                return r.uniform(0.4, 1.6)
            raise CantEval(f"scalar {k}")
        v = self.net(n)
        if kind in ("f:max", "f:min"):
            if np.size(v) == 0:
                raise CantEval("extremum of an empty array")
            return float(np.max(v) if kind == "f:max" else np.min(v))
        if np.ndim(v):
            raise CantEval(f"scalar {kind} of an array")
        v = float(v)
        if kind == "net":
            return v
        if kind == "abs":
            return abs(v)
        if kind.startswith("f:"):
            return float(self.fn(kind[2:], np.array(v)))
        raise CantEval(f"scalar {kind}")

    def coef(self, c):
        v = float(c[0])
        for k, e in c[1]:
            b = self.scal(k)
            if b < 0 and e.denominator != 1:
                raise CantEval("root of a negative number")
            if b == 0 and e < 0:
                raise CantEval("division by zero")
            v *= b ** float(e)
        return v

    def fn(self, name, x):
        if name in ("abs",):
            return np.abs(x)
        if name == "sqrt":
            if np.any(x < 0):
                raise CantEval("sqrt")
            return np.sqrt(x)
        if name == "recip":
            return 1.0 / x
        if name in ("exp", "log", "sin", "cos", "tanh", "sign", "floor", "ceil"):
            return getattr(np, name)(x)
        r = random.Random(_seed("fn", name))
        return np.sin(r.uniform(1, 2) * x + r.uniform(0, 1))

    # ---------------------------------------------------------- atoms
    def matrix(self, key):
        n = N.REG.get(key)
        if n is None:
            raise CantEval("unregistered factor")
        return self.net(n)

    def rnd(self, tag, shape):
        k = ("rnd", tag, tuple(shape))
        if k not in self.memo:
            g = np.random.RandomState(_seed(self.seed, tag) % (2 ** 32))
            tot = 1
            for s in shape:
                tot *= s
            if tot > 2_000_000:
                raise CantEval("too large")
            self.memo[k] = g.uniform(-1, 1, size=tuple(shape))
        return self.memo[k]

    def fac(self, key):
        k = ("fac", key)
        if k not in self.memo:
            A = self.matrix(key)
            self.memo[k] = A
        return self.memo[k]

    def atom(self, h, args):
        """array of shape [size(leg) for leg in flattened args]"""
        shp = [[self.size(l) for l in a] for a in args]
        flat = [int(np.prod(s, dtype=int)) for s in shp]
        full = [x for s in shp for x in s]
        k = ("atom", h, tuple(map(tuple, shp)), tuple(l.id for a in args for l in a if l.param))
        if k in self.memo:
            return self.memo[k]
        v = self._atom(h, args, flat)
        v = np.asarray(v, dtype=float)
        if v.size != int(np.prod(full, dtype=int)):
            raise CantEval(f"atom {h[0]}: {v.shape} vs {full}")
        v = v.reshape(full)
        self.memo[k] = v
        return v

    def _atom(self, h, args, flat):
        t = h[0]
        if t == "I":
            if flat[0] != flat[1]:
                raise CantEval("identity of different sizes")
            return np.eye(flat[0])
        if t == "Inj":
            s = self.poly(h[1])
            if s + flat[0] > flat[1] and args[1] and args[1][0].size is INF:
                raise CantEval("unbounded leg")
            m = np.zeros(flat)
            for i in range(flat[0]):
                if 0 <= s + i < flat[1]:
                    m[i, s + i] = 1
            return m
        if t == "Nz":
            return np.ones(flat)
        if t == "Chi":
            a, b = self.poly(h[1]), self.poly(h[2])
            i = np.arange(flat[0])
            return ((i >= a) & (i < b)).astype(float)
        if t == "E":
            g = np.random.RandomState(_seed(self.seed, "E", h[1]) % (2 ** 32))
            m = np.zeros(flat)
            if flat[1] == 0:
                return m
            fixed = self.styles.get(h) is not None
            for i in range(flat[0]):
                m[i, 0 if fixed else g.randint(flat[1])] = 1
            return m
        if t == "idx":
            return np.arange(flat[0])
        if t == "Flip":
            return np.eye(flat[0])[::-1]
        if t in ("Q", "R", "Rinv"):
            A = self.fac(h[1])
            A = np.where(np.abs(A) < 1e-13 * max(np.max(np.abs(A), initial=0.0), 1e-300), 0.0, A)
            q, r = np.linalg.qr(A)      # signs of the diagonal as they come, of either kind
            return {"Q": lambda: q, "R": lambda: r, "Rinv": lambda: np.linalg.inv(r)}[t]()
        if t in ("Qf", "Rf"):
            q, r = np.linalg.qr(self.fac(h[1]), mode="complete")
            return q if t == "Qf" else r
        if t in ("U", "S", "V"):
            A = self.fac(h[1])
            u, s, v = np.linalg.svd(A, full_matrices=True)
            s = np.where(s < 1e-12 * (s[0] if len(s) else 1), 0, s)
            if t == "U":
                # deterministic signs
                m = np.zeros((A.shape[0], flat[1]))
                k = min(u.shape[1], flat[1])
                m[:, :k] = u[:, :k]
                return m
            if t == "S":
                m = np.zeros(flat[0])
                k = min(len(s), flat[0])
                m[:k] = s[:k]
                return m
            m = np.zeros((flat[0], A.shape[1]))
            k = min(v.shape[0], flat[0])
            m[:k] = v[:k]
            return m
        if t == "P":
            return np.linalg.pinv(self.fac(h[1]))
        if t == "Inv":
            return np.linalg.inv(self.fac(h[1]))
        if t == "fn":
            name = h[1]
            x = self.net(N.REG[h[2]])
            if name in ("isEq", "isNotEq", "isGt", "isGtE"):
                x = np.where(np.abs(x) < 1e-11, 0.0, x)
                return {"isEq": x == 0, "isNotEq": x != 0, "isGt": x > 0, "isGtE": x >= 0}[name].astype(float)
            if name.startswith("is") or name.startswith("sv"):
                raise CantEval("mask")
            return self.fn(name, x)
        if t == "Sel":
            raise CantEval("selection")
        st = self.styles.get(h)
        if st is not None:
            return structured(st, self.rnd(("atom",) + (("shared",) if st == "copy" else tuple(h)), flat))
        return self.rnd(("atom",) + tuple(h), flat)

    # ---------------------------------------------------------- nets
    def net(self, n):
        k = ("net", id(n))
        if k in self.memo:
            return self.memo[k]
        self.keep.append(n)
        v = self._net(n)
        self.memo[k] = v
        return v

    def _net(self, n):
        n = N._undiag(n)
        out_legs = [l for a in n.axes for l in a]
        out_shape = [self.size(l) for l in out_legs]
        res = np.zeros(out_shape)
        for c, at in n.terms:
            cv = self.coef(c)
            ids = {}
            ops = []

            def lab(l):
                if l.id not in ids:
                    ids[l.id] = (len(ids), self.size(l))
                return ids[l.id][0]
            for h, args in at:
                arr = self.atom(h, args)
                ops.append(arr)
                ops.append([lab(l) for a in args for l in a])
            outl = []
            miss = []
            for l in out_legs:
                if l.id in ids:
                    outl.append(ids[l.id][0])
                else:
                    ops.append(np.ones(self.size(l)))
                    ops.append([lab(l)])
                    outl.append(ids[l.id][0])
            if len(ids) > 50:
                raise CantEval("too many legs")
            if not ops:
                res = res + cv
                continue
            dims = {}
            for i, (x, s) in ids.items():
                dims[x] = s
            res = res + cv * self.einsum(ops, outl, dims)
        return res.reshape([int(np.prod([self.size(l) for l in a], dtype=int)) for a in n.axes])

    def einsum(self, ops, outl, dims):
        """greedy pairwise contraction (labels beyond 52 relabelled per step)"""
        items = [(ops[i], list(ops[i + 1])) for i in range(0, len(ops), 2)]

        # repeated labels inside one operand -> diagonal
        def red(arr, l, keep):
            return self._es([(arr, l)], keep)
        while len(items) > 1:
            best = None
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    s1, s2 = set(items[i][1]), set(items[j][1])
                    rest = set(outl)
                    for k, it in enumerate(items):
                        if k not in (i, j):
                            rest |= set(it[1])
                    keep = [x for x in dict.fromkeys(items[i][1] + items[j][1]) if x in rest]
                    sz = 1
                    for x in keep:
                        sz *= dims[x]
                    cost = (0 if s1 & s2 else 1, sz)
                    if best is None or cost < best[0]:
                        best = (cost, i, j, keep)
            _, i, j, keep = best
            if best[0][1] > 4_000_000:
                raise CantEval("intermediate too large")
            r = self._es([items[i], items[j]], keep)
            items = [it for k, it in enumerate(items) if k not in (i, j)] + [(r, keep)]
        return self._es(items, outl)

    def _es(self, items, out):
        m = {}
        args = []
        for arr, ls in items:
            for x in ls:
                m.setdefault(x, len(m))
            args.append(arr)
            args.append([m[x] for x in ls])
        return np.einsum(*args, [m[x] for x in out])


STYLES = ("zero", "one", "eye", "unitdiag", "unitlower", "unitupper", "copy", "const", "left", "right", "diag", "upper",
          "lower", "sym", "zeroone", "first", "rows", "tiny", "big", "nonneg", "signs", "perm", "neg")


def structured(st, g):
    """an array of a special form, of the shape of the generic array g"""
    sh = g.shape
    core = [i for i, s in enumerate(sh) if s != 1]
    if st == "zero":
        return np.zeros(sh)
    if st == "one":
        return np.ones(sh)
    if st == "const":
        return np.full(sh, 0.7)
    if st == "tiny":
        return g * 1e-13
    if st == "big":
        return g * 1e3
    if st == "nonneg":
        return np.abs(g)
    if st == "zeroone":
        return (g > 0).astype(float)
    if st == "first":
        x = np.zeros(sh)
        if x.size:
            x.flat[0] = 1
        return x
    if st == "rows":
        return np.broadcast_to(g[:1], sh).copy() if g.ndim else g
    if st in ("left", "right") and g.ndim >= 2:
        m = g.reshape(-1, sh[-1]) if st == "left" else g.reshape(sh[0], -1).T
        if m.size == 0:
            return g
        q = np.linalg.qr(m)[0]
        if q.shape != m.shape:
            return g
        return q.reshape(sh) if st == "left" else q.T.reshape(sh)
    if st == "copy":
        return g
    # matrix structure over the first two axes of equal size that are not singletons
    pair = next(((i, j) for i in core for j in core if i < j and sh[i] == sh[j]), None) or tuple(core[:2])
    if len(pair) < 2:
        return np.ones(sh) if st in ("eye", "unitdiag", "unitlower", "unitupper") else g
    i, j = pair
    a = np.arange(sh[i]).reshape([-1 if k == i else 1 for k in range(g.ndim)])
    b = np.arange(sh[j]).reshape([-1 if k == j else 1 for k in range(g.ndim)])
    on = np.broadcast_to(a == b, sh)
    low = np.broadcast_to(a > b, sh)
    if st == "signs":
        return np.where(on, np.where(g > 0, 1.0, -1.0), 0.0)
    if st == "neg":
        return -on.astype(float)
    if st == "perm":
        return np.broadcast_to((a + 1) % max(sh[i], 1) == b, sh).astype(float)
    if st == "eye":
        return on.astype(float)
    if st == "diag":
        return np.where(on, g, 0)
    if st == "unitdiag":
        return np.where(on, 1, g)
    if st in ("unitlower", "lower"):
        return np.where(on, 1 if st == "unitlower" else g, np.where(low, g, 0))
    if st in ("unitupper", "upper"):
        return np.where(on, 1 if st == "unitupper" else g, np.where(low, 0, g))
    if st == "sym" and sh[i] == sh[j]:
        return g + np.swapaxes(g, i, j)
    return g


def heads_of(net, out=None, seen=None):
    """the input atoms and scalar symbols that a net is made of"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if id(net) in seen:
        return out
    seen.add(id(net))

    def scal(k):
        if k[0] == "var":
            out[k] = None
        n = N.SCALS.get(k, {}).get("net")
        if n is not None:
            heads_of(n, out, seen)
    for c, at in net.terms:
        for k, _ in c[1]:
            scal(k)
        for h, _ in at:
            sub = [x for x in h[1:] if isinstance(x, str) and x in N.REG]
            for x in sub:
                heads_of(N.REG[x], out, seen)
            if not sub and h[0] not in ("I", "Inj", "Nz", "Chi", "idx", "Flip"):
                out[h] = None
    return out


def holds(env, kind, net):
    v = env.net(net)
    if not np.all(np.isfinite(v)):
        raise CantEval("not finite")
    if kind in ("zero", "close"):
        return bool(np.all(np.abs(v) < (1e-11 if kind == "zero" else 1e-9)))
    if kind == "lt0":
        return bool(np.all(v < 0))
    if kind == "all":
        return bool(np.all(v != 0))
    return bool(np.any(v != 0))


def nongeneric(kind, net, truth):
    """a condition that generic data do not meet"""
    if kind in ("zero", "close"):
        return truth
    masks = {h[1] for _, at in net.terms for h, _ in at if h[0] == "fn"}
    if kind == "all":
        return truth and bool(masks & {"isEq"})
    if kind == "any":
        return not truth and bool(masks & {"isNotEq"})
    return False


def meets(env, data):
    """the model satisfies the assumed conditions on array values"""
    for kind, net, truth in data:
        try:
            with np.errstate(all="ignore"):
                if holds(env, kind, net) is not truth:
                    return False
        except (CantEval, np.linalg.LinAlgError, ValueError, MemoryError, OverflowError):
            if nongeneric(kind, net, truth):
                return False
    return True


def models(count=2, seed=1, span=3):
    """finite models of the sizes that also satisfy the assumed conditions on array values"""
    data = list(P.CTX.data)
    if not data:
        yield from assignments(count, seed, span)
        return
    heads = {}
    for _, net, _ in data:
        heads_of(net, heads)
    got, tried = 0, 0
    rng = random.Random(seed)
    for env in assignments(6, seed, span):
        for st in (None, None, None) + STYLES + ("mix",) * 6:
            e = Env(dict(env.vals), seed=(env.seed, tried))
            tried += 1
            if st == "mix":
                e.styles = {h: rng.choice(STYLES) for h in heads}
            elif st is not None:
                e.styles = {h: st for h in heads}
            if meets(e, data):
                yield e
                got += 1
                if got >= count:
                    return


def cached_models(count, seed):
    """models() with the models of one set of conditions found once"""
    if not P.CTX.data:
        yield from models(count, seed)
        return
    key = (tuple((k, id(n), t) for k, n, t in P.CTX.data), count, seed, len(P.CTX.facts), len(P.CTX.ne), len(P.CTX.subst))
    mem = P.CTX.models
    if key not in mem:
        mem.clear()
        mem[key] = ([], models(count, seed), [n for _, n, _ in P.CTX.data])
    have, gen, _ = mem[key]
    i = 0
    while True:
        if i == len(have):
            e = next(gen, None)
            if e is None:
                return
            have.append(e)
        yield have[i]
        i += 1


def data_sat():
    """the assumed conditions on array values have a model (True when none of them is special)"""
    if np is None or not any(nongeneric(*x) for x in P.CTX.data):
        return True
    for env in models(1, seed=9):
        return True
    return False


PURE = (None, "ss", "min", "max", "floordiv", "mod", "ceildiv")


def _violates_ne(env):
    for k in P.CTX.ne:
        p = Poly(dict(k))
        if any(P.CTX.syms[n].op not in PURE for n in p.symbols()):
            continue
        try:
            if env.poly(p) == 0:
                return True
        except CantEval:
            pass
    return False


def sizes_only(x):
    """an expression over the free sizes alone (no data-dependent counts)"""
    return isinstance(x, int) or all(P.CTX.syms[n].op in PURE and all(sizes_only(a) for a in P.CTX.syms[n].args)
                                     for n in x.symbols())


def assignments(count=2, seed=1, span=3, tries=4000):
    """yield environments whose base symbols satisfy the recorded facts"""
    rng = random.Random(seed)
    base = [(n, s) for n, s in P.CTX.syms.items() if s.op is None or s.op == "ss"]
    derived_ok = 0
    for t in range(tries):
        vals = {}
        width = span if t < tries // 2 else span + 3
        for n, s in base:
            lo = s.lo if s.lo is not None else 0
            vals[n] = lo + rng.randrange(0, width)
        env = Env(vals, seed=(seed, t))
        ok = True
        for f in list(P.CTX.facts):
            if any(P.CTX.syms[n].op not in (None, "ss", "min", "max", "floordiv", "mod", "ceildiv")
                   for n in f.symbols()):
                continue
            try:
                if env.poly(f) < 0:
                    ok = False
                    break
            except CantEval:
                ok = False
                break
        if ok and _violates_ne(env):
            ok = False
        if ok:
            yield env
            derived_ok += 1
            if derived_ok >= count:
                return


def counted(a, b, count):
    """models of the sizes; special arrays too if the numbers count nonzero entries"""
    heads = {}
    for p in (a, b):
        for n in (p.symbols() if isinstance(p, Poly) else ()):
            if n in N.NONZEROS:
                heads_of(N.NONZEROS[n], heads)
    for env in assignments(count, seed=11, span=4):
        yield env
        for st in ("zero", "zeroone", "eye") if heads else ():
            e = Env(dict(env.vals), seed=env.seed)
            for n in list(e.vals):
                if n in N.NONZEROS:
                    del e.vals[n]
            e.styles = {h: st for h in heads}
            if meets(e, P.CTX.data):
                yield e


def ints_differ(a, b, count=6):
    """True if two symbolic ints differ in some model of the facts"""
    got = False
    for env in counted(a, b, count):
        try:
            if env.poly(a) != env.poly(b):
                return True
            got = True
        except CantEval:
            continue
    return False if got else None


def sat():
    """the recorded facts have a model (None: none found)"""
    for env in assignments(1, seed=5, span=4, tries=3000):
        return True
    return None


def nets_differ(a, b, count=2):
    """True: differ in a model; False: agree in all tried; None: could not evaluate"""
    if np is None:
        return None
    got = False
    if any(nongeneric(*x) for x in P.CTX.data):
        count = 3 * len(STYLES)         # special arrays: one kind of them is not enough
    left = count
    stop = time.monotonic() + 1.5
    for env in cached_models(3 * count, 3):
        if not left or got and left < count - 1 and time.monotonic() > stop:
            break
        try:
            with np.errstate(all="ignore"):
                x, y = env.net(a), env.net(b)
        except (CantEval, np.linalg.LinAlgError, ValueError, MemoryError, OverflowError):
            continue
        if x.shape != y.shape:
            return True
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            continue
        if x.size == 0:
            continue
        scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-30)
        if scale == 1e-30 and a.terms and b.terms:
            continue        # both vanish in this model: nothing learned
        if np.max(np.abs(x - y)) > 1e-7 * scale:
            return True
        got = True
        left -= 1
    return False if got else None
