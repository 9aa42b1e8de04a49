"""C10 Independent random objects use distinct random streams.

Rule: effect analysis of the generators.  Every random array is a term over (generator family, seed expression, position)
streams.  The seed expressions of the streams that build the left and the right map, the cores of a tensor, the factors of a
Tucker tensor or the blocks of a parallel fill are compared pairwise: they must denote different seeds (or disjoint windows
of one stream) for every sampled value of the symbolic seed, including the wrap-around points of the modular seed arithmetic;
words generated from a seed sequence are free distinct values.  The streams of two calls with different seeds must differ."""
from spec.common import *
from spec.c08 import arrays
import numeval as NE

FULL = 2 ** 32
OFFS = (0x5BD1E995,)
SEEDS = sorted({0, 1, 2, 3, 5, 7, 10, 41, 99, 100, 1000, 2 ** 16, 2 ** 31 - 1, 2 ** 31, FULL - 1000, FULL - 12, FULL - 3, FULL - 2}
               | {x % (FULL - 1) for o in OFFS for b in (0, -FULL) for k in range(-7, 3) for x in [-(b + o + k)]})


class SEnv(NE.Env):
    """values of seeds; generated words and entropy are distinct random words"""

    def __init__(self, S, vals):
        super().__init__(vals, 3)
        self.S = S

    def word(self, *parts):
        return NE._seed(*parts) % (FULL - 1)

    def _derived(self, n, s):
        reg = self.S.lib.SSREG.get(n)
        if reg is not None:
            ent, path, i = reg
            return self.word("ss", self.canon(ent), path, i, n[:4])
        if s.op not in ("min", "max", "floordiv", "mod", "ceildiv", "count") and \
                (n.startswith(("entropy", "randint", "ss")) or s.op in ("hash", "ss")):
            return self.word(n)
        return super()._derived(n, s)

    def canon(self, v):
        S = self.S
        if isinstance(v, NativeObj) and v.kind == "seedseq":
            return ("SS", self.canon(v.attrs.get("entropy"))) + tuple(v.path)
        if isinstance(v, NDArr):
            p = S.lib.net_as_poly(v)
            return self.canon(p) if p is not None else ("key", repr(N.key(v.net)))
        if isinstance(v, CArr):
            v = tuple(v.flat())
        if isinstance(v, ListObj):
            v = tuple(v.items)
        if isinstance(v, (tuple, list)):
            t = tuple(self.canon(x) for x in v)
            return t if len(t) != 1 else t[0]
        if isinstance(v, (int, Poly)):
            return int(self.poly(v))
        return ("?", repr(v))


class Streams:
    """streams seen since a mark of the event trace"""

    def __init__(self, S, mark):
        self.seed, self.size, self.loc, self.open = {}, {}, {}, set()
        for e in S.I.events[mark:]:
            if e["kind"] == "rng_new":
                self.seed[(e["family"], repr(e["skey"]))] = e["seed"]
            elif e["kind"] == "draw":
                r = e["rng"]
                self.seed.setdefault((e["family"], repr(e["skey"])), r.seed if r.skey == e["skey"] else None)
                self.size[(e["family"], repr(e["skey"]), repr(e["pos"]))] = (e["pos"], e["size"])
                self.loc[(e["family"], repr(e["skey"]))] = e["loc"]
            elif e["kind"] == "kernel":
                k = ("lazy", repr(S.lib.seedkey(e["seed"])))
                self.seed[k] = e["seed"]
                self.loc[k] = e["loc"]

    def of(self, x, out=None):
        """heads of the streams inside a key / net / array"""
        out = {} if out is None else out
        if isinstance(x, (NDArr,)):
            x = x.net
        if isinstance(x, IntArr):
            for _, n in x.comps:
                self.of(n, out)
            return out
        if isinstance(x, Net):
            for _, fs in x.terms:
                for f in fs:
                    self.of(f[0], out)
            return out
        if isinstance(x, tuple):
            if x and x[0] == "rnd" and len(x) >= 5:
                out[("draw", x[1], repr(x[2]), x[4])] = None
            elif x and x[0] == "lazy" and len(x) >= 3:
                out[("lazy", "lazy", repr(x[2]), x[1])] = None
            else:
                for y in x:
                    if isinstance(y, (tuple, Net)) or isinstance(y, str) and y in N.REG:
                        self.of(y, out)
        elif isinstance(x, str) and x in N.REG and x not in self.open:
            self.open.add(x)
            self.of(N.REG[x], out)
            self.open.discard(x)
        return out

    def fix(self, env, heads):
        """[(family, concrete seed, start, stop, loc)]"""
        res = []
        for kind, fam, sk, pos in heads:
            k = (fam, sk)
            sd = self.seed.get(k)
            c = env.canon(sd) if sd is not None else ("key", sk)
            if kind == "lazy":
                res.append(("lazy", (pos, c), 0, 1, self.loc.get(k)))
                continue
            if fam == "PCG" and isinstance(c, int):
                c = ("SS", c)
            p, n = self.size.get((fam, sk, pos), (0, 1))
            p, n = env.poly(p), env.poly(n)
            res.append((fam, c, p, p + n, self.loc.get(k)))
        return res


def overlap(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[2] < b[3] and b[2] < a[3]


def envs(S, names, samples):
    base = {}
    for a in NE.assignments(count=1, seed=5):
        base = {k: v for k, v in getattr(a, "vals", a).items() if k not in names and
                P.CTX.syms.get(k) is not None and P.CTX.syms[k].op is None}
    for s in samples:
        v = dict(base)
        v.update(dict(zip(names, s)))
        yield s, SEnv(S, v)


def disjoint(S, label, st, A, B, what, names=("seed",), samples=None):
    """no stream of A overlaps one of B"""
    for s, env in envs(S, names, samples or [(x,) for x in SEEDS]):
        fa, fb = st.fix(env, A), st.fix(env, B)
        for x in fa:
            for y in fb:
                if overlap(x, y):
                    S.bad(label, f"{what}: both draw from {x[0]} with seed {x[1]} at {x[2]}..{x[3]} when the seed is {s[0]}", y[4] or x[4])
                    return
    S.ok(label)


def novel(S, label, st, groups, what):
    """each group uses a stream window that the groups before it do not"""
    for s, env in envs(S, ("seed",), [(x,) for x in SEEDS]):
        prev = []
        for i, g in enumerate(sorted(groups, key=len)):
            f = st.fix(env, g)
            new = [x for x in f if not any(overlap(x, y) for y in prev)]
            if f and not new:
                S.bad(label, f"{what} {i} repeats the stream {f[0][0]} seed {f[0][1]} of an earlier one when the seed is {s[0]}", f[0][4])
                return
            prev += f
    S.ok(label)


PAIRS = [(a, a + k) for a in (0, 1, 7, 41, 1000, 2 ** 31, FULL - 20) for k in (1, 2, 3, 7, 10)] + \
    [(0, 1000), (0, FULL - 2), (5, 500), (0, 2 ** 16), (0, 2 ** 31), (1, 2 ** 31 + 1), (3, 2 ** 16 + 3), (2, 2 ** 8 + 2)] + \
    [((-o - k) % (FULL - 1), (-o - k + 1) % (FULL - 1)) for o in OFFS for k in range(-2, 8)] + \
    [((-1 - o - k) % (FULL - 1), (-o - k) % (FULL - 1)) for o in OFFS for k in range(-2, 8)]


def differ(S, label, st, A, B, what):
    """the same array for seed and seed2 comes from different streams"""
    for s, env in envs(S, ("seed", "seed2"), PAIRS):
        fa, fb = st.fix(env, A), st.fix(env, B)
        for x in fa:
            for y in fb:
                if overlap(x, y):
                    S.bad(label, f"{what}: seeds {s} give the same stream {x[0]} seed {x[1]}", y[4])
                    return
    S.ok(label)


def drm_arrays(S, D, fmt, X):
    return S.list(S.m(D, SKETCH_METHOD[fmt], X))


def mapheads(st, arrs):
    gs = [st.of(a) for a in arrs]
    al = {}
    for g in gs:
        al.update(g)
    return gs, al


def drm(S, kind, fmt, d, tr):
    sh = S.dims(d)
    r = S.ranks(sh, "r")
    X = mk(S, fmt, "X", sh)
    mark = len(S.I.events)

    def build(sd):
        return S.list(S.m(mk_drm(S, kind, r, sh, tr, sd), SKETCH_METHOD[fmt], X))
    a = S.run(kind, lambda: build(seed_sym(S)))
    b = S.run(kind, lambda: build(seed_sym(S, "seed2")))
    st = Streams(S, mark)
    ga, _ = mapheads(st, a)
    gb, _ = mapheads(st, b)
    S.true(f"{kind} draws", all(ga), "a sketching matrix is not random")
    novel(S, f"{kind} matrices", st, ga, "sketching matrix")
    for k, (x, y) in enumerate(zip(ga, gb)):
        differ(S, f"{kind} seeds[{k}]", st, x, y, f"sketching matrix {k}")


def cores(S, obj):
    for n in ("cores", "factor_matrices", "factors"):
        if n in obj.attrs:
            c = S.list(obj.attrs[n])
            c = c + ([obj.attrs["core"]] if "core" in obj.attrs else [])
            return [y for x in c for y in arrays(S, x)]
    raise MissingAnchor("cores of a tensor")


def tensor(S, name, d, kw, mode):
    sh = S.dims(d) if mode != "equal" else (S.sym("n0", 2),) * d
    cls = S.get(S.cls("tensor", name), "random")
    if name == "TensorTrain":
        r = S.ranks(sh, "r") if mode != "equal" else 1
    elif name == "TuckerTensor":
        r = tuple(S.sym(f"s{k}") for k in range(d)) if mode != "equal" else 1
        if mode != "equal":
            S.bound_ranks(sh + (sh[-1],), list(r))
    else:
        r = S.sym("R")
    mark = len(S.I.events)
    a = S.run(name, lambda: S.call(cls, sh, r, seed=seed_sym(S), **dict(kw)))
    b = S.run(name, lambda: S.call(cls, sh, r, seed=seed_sym(S, "seed2"), **dict(kw)))
    st = Streams(S, mark)
    ga = [st.of(x) for x in cores(S, a)]
    gb = [st.of(x) for x in cores(S, b)]
    S.true(f"{name} draws", all(ga), "a core is not random")
    novel(S, f"{name} cores", st, ga, "core")
    for k, (x, y) in enumerate(zip(ga, gb)):
        differ(S, f"{name} seeds[{k}]", st, x, y, f"core {k}")


def simple(S, name, d):
    sh = S.dims(d)
    f = {"SparseTensor": lambda sd: S.call(S.get(S.cls("tensor", "SparseTensor"), "random"), sh, S.sym("nnz"), seed=sd),
         "random_normal": lambda sd: S.call(S.ns("utils")["random_normal"], sh, sd),
         "power_decay": lambda sd: S.call(S.ns("utils")["power_decay_tensor"], sh, seed=sd)}[name]
    mark = len(S.I.events)
    a = S.run(name, lambda: f(seed_sym(S)))
    b = S.run(name, lambda: f(seed_sym(S, "seed2")))
    st = Streams(S, mark)
    ga, gb = [st.of(x) for x in arrays(S, a)], [st.of(x) for x in arrays(S, b)]
    S.true(f"{name} draws", bool(ga) and all(ga), "the result is not random")
    for k, (x, y) in enumerate(zip(ga, gb)):
        differ(S, f"{name} seeds[{k}]", st, x, y, f"array {k}")


def blocks(S, name, d):
    """the blocks written by the workers of one parallel fill"""
    sh = S.dims(d)
    mark = len(S.I.events)
    S.run(name, lambda: S.call(S.ns("utils")["random_normal"], sh, seed_sym(S)))
    mid = len(S.I.events)
    S.run(name, lambda: S.call(S.ns("utils")["random_normal"], sh, seed_sym(S, "seed2")))
    st = Streams(S, mark)
    dr = [[("draw", e["family"], repr(e["skey"]), repr(e["pos"])) for e in S.I.events[a:b] if e["kind"] == "draw"]
          for a, b in ((mark, mid), (mid, len(S.I.events)))]
    S.true(f"{name} draws", bool(dr[0]), "no random numbers are drawn")
    novel(S, f"{name} blocks", st, [{x: None} for x in dr[0]], "block")
    for i, x in enumerate(dr[0]):
        differ(S, f"{name} seeds[{i}]", st, {x: None}, dict.fromkeys(dr[1]), f"block {i}")


def sketch(S, method, kinds, fmt, d, seeded):
    sh = S.dims(d)
    X = mk(S, fmt, "X", sh)
    lr, rr = sketch_ranks(S, sh, True)
    ns = S.ns("sketch")
    f = ns["stream_sketch" if method == "stream" else "orthogonal_sketch"]
    kw = {}
    for n, k in zip(("left_drm_type", "right_drm_type"), kinds):
        if k:
            kw[n] = drm_cls(S, k)
    mark = len(S.I.events)

    def go(name):
        k2 = dict(kw, seed=seed_sym(S, name)) if seeded else dict(kw)
        r = S.call(f, X, lr, rr, return_drm=True, **k2)
        _, L, R = S.list(r)
        return drm_arrays(S, L, fmt, X), drm_arrays(S, R, fmt, X)
    l1, r1 = S.run(method, lambda: go("seed"))
    l2, r2 = S.run(method, lambda: go("seed2"))
    st = Streams(S, mark)
    gl, al = mapheads(st, l1)
    gr, ar = mapheads(st, r1)
    S.true(f"{method} draws", all(gl) and all(gr), "a map is not random")
    disjoint(S, f"{method} left/right", st, al, ar, "left and right map")
    novel(S, f"{method} left", st, gl, "left sketching matrix")
    novel(S, f"{method} right", st, gr, "right sketching matrix")
    if seeded:
        for nm, g, arr in (("left", gl, l2), ("right", gr, r2)):
            h, _ = mapheads(st, arr)
            for k, (x, y) in enumerate(zip(g, h)):
                differ(S, f"{method} seeds {nm}[{k}]", st, x, y, f"{nm} map {k}")


CASES = []
for d in (2, 3, 4, 5, 6):
    t = "quick" if d < 5 else "thorough"
    for kind, (_, fmts, sl, inc) in DRMS.items():
        for fmt in fmts:
            if kind == "DenseGaussianDRM" and fmt == "dense" and d > 4:
                continue
            for tr in (False, True):
                CASES.append(Case("C10", f"drm_{kind}_{fmt}_{d}_{tr}", drm, (kind, fmt, d, tr), tier=t))
    for nm, kw in (("TensorTrain", ()), ("TensorTrain", (("orthog", True),)), ("TensorTrain", (("norm_goal", "norm-preserve"),)),
                   ("CPTensor", ()), ("TuckerTensor", ())):
        for mode in ("generic", "equal"):
            CASES.append(Case("C10", f"tensor_{nm}_{d}_{kw}_{mode}", tensor, (nm, d, kw, mode), tier=t))
    for nm in ("SparseTensor", "random_normal", "power_decay"):
        CASES.append(Case("C10", f"simple_{nm}_{d}", simple, (nm, d), tier=t))
    if d < 4:
        CASES.append(Case("C10", f"blocks_{d}", blocks, ("random_normal", d), tier=t, raw_rng=True))
    for method in ("stream", "orthogonal"):
        for fmt in FORMATS:
            for kinds in ((None, None), ("TensorTrainDRM", "TensorTrainDRM"), ("DenseGaussianDRM", "DenseGaussianDRM"),
                          ("SparseGaussianDRM", "SparseGaussianDRM"), ("SparseSignDRM", "SparseSignDRM")):
                if all(fmt in DRMS[k or "TensorTrainDRM"][1] for k in kinds) and d < 6:
                    for seeded in (True, False):
                        CASES.append(Case("C10", f"{method}_{fmt}_{kinds}_{d}_{seeded}", sketch, (method, kinds, fmt, d, seeded), tier=t))
