"""Random number generators: symbolic streams (seed, position) with effects."""
from __future__ import annotations

from fractions import Fraction

import net as N
import poly as P
from net import Leg, Net, Unsupported
from poly import Poly
from values import *


def isint(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


class NumpyRandom:
    # stream = (family, seedkey) ; position = Poly (number of draws before)
    def seedkey(self, s):
        if isinstance(s, NDArr):
            p = self.net_as_poly(s)
            s = p if p is not None else N.key(s.net)
        if isinstance(s, CArr):
            s = tuple(self.seedkey(x) for x in s.flat())
            return s if len(s) != 1 else s[0]
        if isinstance(s, (ListObj, tuple)):
            return tuple(self.seedkey(x) for x in (s.items if isinstance(s, ListObj) else s))
        if isinstance(s, NativeObj) and s.kind == "seedseq":
            return ("SS", s.entropy) + tuple(s.path)
        if isinstance(s, bool):
            s = int(s)
        if isint(s):
            return repr(s)
        if isinstance(s, str):
            return s
        if isinstance(s, (Fraction, float)):
            self.throw(TypeError, "seed must be an integer")
        raise Unsupported(f"seed {type(s).__name__}")

    def seed_taints(self, s):
        if isinstance(s, Poly):
            return P.taints_of(s)
        if isinstance(s, (ListObj, tuple)):
            t = frozenset()
            for x in (s.items if isinstance(s, ListObj) else s):
                t |= self.seed_taints(x)
            return t
        if isinstance(s, CArr):
            return self.seed_taints(tuple(s.flat()))
        if isinstance(s, NDArr):
            return self.net_taints(s.net)
        if isinstance(s, NativeObj):
            return getattr(s, "taints", frozenset())
        return frozenset()

    def fresh_ambient(self, what):
        self.ambient += 1
        self.I.event("fresh_entropy", what=what)
        return P.new_sym(f"entropy#{self.ambient}", lo=0, taints=frozenset({"ambient"}), base=False)

    def mkrng(self, family, seed):
        t = self.seed_taints(seed)
        r = NativeObj("rng", family=family, skey=self.seedkey(seed), pos=0, taints=t, seed=seed)
        self.I.event("rng_new", family=family, seed=seed, skey=r.skey, rng=r)
        return r

    def draw(self, rng, dist, size):
        """flat draw of ``size`` numbers"""
        if self.worker is not None and self.fault == (self.worker.id, "draw"):
            self.I.event("fault", future=self.worker)
            self.throw(MemoryError, "injected failure of a worker")
        self.I.event("draw", rng=rng, family=rng.family, skey=rng.skey, pos=rng.pos, size=size, dist=dist, worker=self.worker)
        if P.taints_of(size):
            self.I.event("tainted_branch", taints=P.taints_of(size), desc=f"number of draws {size}")
        if self.I.loops:
            raise Unsupported("random draw in a loop of symbolic length")
        head = ("rnd", rng.family, rng.skey, dist, repr(rng.pos))
        self.RNDTAINT[head] = rng.taints
        rng.pos = P.padd(rng.pos, size)
        L = N.mkleg(size)
        return Net((L,), [(N.ONE, ((head, (L,)),))])

    def sized(self, rng, dist, size):
        if size is None:
            n = self.draw(rng, dist, 1)
            return self.arr(N.reshape(n, ()))
        sh = self.shape_arg(size)
        for s in sh:
            if isinstance(s, int) and s < 0:
                self.throw(ValueError, "negative dimensions are not allowed")
        n = self.draw(rng, dist, self.tot(sh))
        return self.arr(N.reshape(n, sh))

    def rng_method(self, get, name):
        """NativeFn for a distribution method; get() -> rng object"""
        def normal(a, k):
            a = list(a)
            loc = k.pop("loc", a[0] if len(a) > 0 else 0)
            sc = k.pop("scale", a[1] if len(a) > 1 else 1)
            size = k.pop("size", a[2] if len(a) > 2 else None)
            if k:
                raise Unsupported("normal keywords")
            r = self.sized(get(), "normal", size)
            return self.affine(r, loc, sc)

        def stdnormal(a, k):
            a = list(a)
            size = k.pop("size", a[0] if a else None)
            out = k.pop("out", None)
            k.pop("dtype", None)
            if k:
                raise Unsupported("standard_normal keywords")
            if out is not None:
                n = self.draw(get(), "normal", self.tot(out.shape))
                self.I.event("fill", arr=out)
                self.array_setitem(out, ELLIPSIS, self.arr(N.reshape(n, out.shape)))
                return out
            return self.sized(get(), "normal", size)

        def randn(a, k):
            return self.sized(get(), "normal", tuple(a) if a else None)

        def uniform(a, k):
            a = list(a)
            lo = k.pop("low", a[0] if len(a) > 0 else 0)
            hi = k.pop("high", a[1] if len(a) > 1 else 1)
            size = k.pop("size", a[2] if len(a) > 2 else None)
            r = self.sized(get(), "uniform", size)
            return self.affine(r, lo, self.binop("Sub", hi, lo))

        def rand(a, k):
            return self.sized(get(), "uniform", tuple(a) if a else None)

        def random_(a, k):
            return self.sized(get(), "uniform", k.pop("size", a[0] if a else None))

        def integers(a, k):
            a = list(a)
            lo = k.get("low", a[0] if a else 0)
            hi = k.get("high", a[1] if len(a) > 1 else None)
            size = k.get("size", a[2] if len(a) > 2 else None)
            if hi is None:
                lo, hi = 0, lo
            rng = get()
            if size is None:
                self.I.event("draw", rng=rng, family=rng.family, skey=rng.skey, pos=rng.pos, size=1, dist="int")
                nm = f"randint<{rng.family},{rng.skey},{rng.pos!r},{lo!r},{hi!r}>"
                rng.pos = P.padd(rng.pos, 1)
                s = P.new_sym(nm, lo=lo if isinstance(lo, int) else 0, taints=rng.taints, base=False)
                return s
            sh = self.shape_arg(size)
            return self.int_draw(rng, f"int{lo!r}", hi if isinstance(lo, int) and lo == 0 else P.psub(hi, lo), sh, lo)

        def choice(a, k):
            a = list(a)
            pop = a[0]
            size = k.get("size", a[1] if len(a) > 1 else None)
            rep = k.get("replace", a[2] if len(a) > 2 else True)
            if "p" in k or len(a) > 3:
                raise Unsupported("weighted choice")
            rng = get()
            if isinstance(pop, NDArr):
                p = self.net_as_poly(pop)
                if p is not None and pop.ndim == 0:
                    pop = p
            if not isint(pop):
                if isinstance(pop, IntArr):
                    idx = choice([pop.shape[0], size, rep], {})
                    return self.array_getitem(pop, idx)
                if self.iterable(pop):
                    vals = list(self.I.iterate(pop))
                    if size is None:
                        raise Unsupported("choice of a list element")
                    x = self.asarray(pop)
                    idx = choice([x.shape[0], size, rep], {})
                    return self.array_getitem(self.arr(self.tonet(x)), idx)
                raise Unsupported("choice population")
            sh = self.shape_arg(size) if size is not None else ()
            r = self.I.truth(rep)
            ia = self.int_draw(rng, "choice" + ("" if r else "!") + repr(pop), pop, sh, 0)
            ia.distinct = not r
            return ia

        def permutation(a, k):
            if isint(a[0]):
                ia = self.int_draw(get(), "perm", a[0], (a[0],), 0)
                ia.distinct = True
                return ia
            raise Unsupported("permutation of an array")

        def rbytes(a, k):
            raise Unsupported("random bytes")

        def opaque(a, k):
            raise Unsupported(f"random distribution {name}")
        tab = {"normal": normal, "standard_normal": stdnormal, "randn": randn, "uniform": uniform, "rand": rand,
               "random": random_, "random_sample": random_, "sample": random_, "ranf": random_,
               "randint": integers, "integers": integers, "random_integers": integers, "choice": choice,
               "permutation": permutation, "bytes": rbytes}
        return NativeFn("random." + name, tab.get(name, opaque))

    def affine(self, r, loc, sc):
        if not (isinstance(sc, (int, Fraction)) and sc == 1):
            r = self.binop("Mult", r, sc)
        if not (isinstance(loc, (int, Fraction)) and loc == 0):
            r = self.binop("Add", r, loc)
        return r

    def int_draw(self, rng, dist, hi, sh, lo):
        """integer array of draws in [lo, lo+hi)"""
        tot = self.tot(sh)
        self.I.event("draw", rng=rng, family=rng.family, skey=rng.skey, pos=rng.pos, size=tot, dist=dist)
        key = ("rnd", rng.family, rng.skey, dist, repr(rng.pos))
        head = ("E", key)
        self.RNDTAINT[head] = rng.taints
        rng.pos = P.padd(rng.pos, tot)
        Ls = N.mkleg(tot)
        V = N.mkleg(hi)
        n = Net((Ls, V), [(N.ONE, ((head, (Ls, V)),))]) if V else N.const_net((tot, 1), 1)
        n = N.reshape(n, tuple(sh) + (hi,))
        ia = IntArr(tuple(sh), [(1, n)], lo)
        return ia

    # ------------------------------------------------------------ module
    def global_rng(self, op):
        g = getattr(self, "_grng", None)
        if g is None:
            g = self._grng = NativeObj("rng", family="RS", skey="global-ambient", pos=0, taints=frozenset({"ambient"}), seed=None)
        self.I.event("global_rng", op=op, rng=g)
        return g

    def _mk_random(self):
        I = self.I
        ns = {}
        names = ["normal", "standard_normal", "randn", "uniform", "rand", "random", "random_sample", "sample", "ranf",
                 "randint", "random_integers", "choice", "permutation", "bytes", "shuffle", "beta", "binomial",
                 "exponential", "gamma", "laplace", "poisson", "standard_cauchy", "multivariate_normal", "bytes"]
        for n in names:
            ns[n] = self.rng_method(lambda: self.global_rng("draw"), n)

        def seed(a, k):
            s = k.get("seed", a[0] if a else None)
            g = self.global_rng("seed")
            if s is None:
                s = self.fresh_ambient("np.random.seed(None)")
            elif isinstance(s, int) and not 0 <= s < 2 ** 32:
                self.throw(ValueError, "Seed must be between 0 and 2**32 - 1")
            g2 = self.mkrng("RS", s)
            self._grng = g2
        ns["seed"] = NativeFn("seed", seed)

        def get_state(a, k):
            g = self.global_rng("get_state")
            return NativeObj("rngstate", rng=NativeObj("rng", family=g.family, skey=g.skey, pos=g.pos, taints=g.taints, seed=g.seed))

        def set_state(a, k):
            self.global_rng("set_state")
            s = a[0].rng
            self._grng = NativeObj("rng", family=s.family, skey=s.skey, pos=s.pos, taints=s.taints, seed=s.seed)
        ns["get_state"] = NativeFn("get_state", get_state)
        ns["set_state"] = NativeFn("set_state", set_state)

        def randomstate(a, k):
            s = k.get("seed", a[0] if a else None)
            if s is None:
                s = self.fresh_ambient("RandomState()")
            elif isinstance(s, int) and not isinstance(s, bool) and not 0 <= s < 2 ** 32:
                self.throw(ValueError, "Seed must be between 0 and 2**32 - 1")
            elif isinstance(s, NativeObj) and s.kind == "bitgen":
                return NativeObj("rng", family="RS" + s.family, skey=s.skey, pos=0, taints=s.taints, seed=s.seed)
            return self.mkrng("RS", s)

        def default_rng(a, k):
            s = k.get("seed", a[0] if a else None)
            if s is None:
                s = self.fresh_ambient("default_rng()")
            if isinstance(s, NativeObj) and s.kind == "rng":
                return s
            if isinstance(s, NativeObj) and s.kind == "bitgen":
                return NativeObj("rng", family=s.family, skey=s.skey, pos=0, taints=s.taints, seed=s.seed)
            if isinstance(s, int) and not isinstance(s, bool) and s < 0:
                self.throw(ValueError, "expected non-negative integer")
            if isinstance(s, NativeObj) and s.kind == "seedseq":
                return self.mkrng("PCG", s)
            return self.mkrng("PCG", s)

        def seedseq(a, k):
            s = k.get("entropy", a[0] if a else None)
            t = self.seed_taints(s) if s is not None else frozenset({"ambient"})
            if s is None:
                s = self.fresh_ambient("SeedSequence()")
            if isinstance(s, int) and s < 0:
                self.throw(ValueError, "expected non-negative integer")
            sp = k.get("spawn_key", ())
            path = ["k"] + [self.seedkey(x) for x in I.iterate(sp)] if sp != () and self.length(sp) != 0 else []
            if path:
                t |= self.seed_taints(tuple(I.iterate(sp)))
            o = NativeObj("seedseq", entropy=self.seedkey(s), path=path, taints=t, nspawn=0)
            o.attrs["entropy"] = s
            return o

        def bitgen(fam):
            def f(a, k):
                s = k.get("seed", a[0] if a else None)
                if s is None:
                    s = self.fresh_ambient(fam)
                return NativeObj("bitgen", family=fam, skey=self.seedkey(s), taints=self.seed_taints(s), seed=s)
            return f
        ns["RandomState"] = BuiltinType("RandomState", lambda v: isinstance(v, NativeObj) and v.kind == "rng" and v.family.startswith("RS"), randomstate)
        ns["Generator"] = BuiltinType("Generator", lambda v: isinstance(v, NativeObj) and v.kind == "rng" and not v.family.startswith("RS"), default_rng)
        ns["default_rng"] = NativeFn("default_rng", default_rng)
        ns["SeedSequence"] = BuiltinType("SeedSequence", lambda v: isinstance(v, NativeObj) and v.kind == "seedseq", seedseq)
        for fam in ("PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"):
            ns[fam] = BuiltinType(fam, lambda v: isinstance(v, NativeObj) and v.kind == "bitgen", bitgen(fam if fam != "PCG64" else "PCG"))
        ns["BitGenerator"] = BuiltinType("BitGenerator", lambda v: isinstance(v, NativeObj) and v.kind == "bitgen")
        return self.nsmod("numpy.random", **ns)

    def np_native_attr(self, o, name):
        I = self.I
        k = o.kind
        if k == "rng":
            if name == "seed":
                def seed(a, kw):
                    s = a[0] if a else None
                    if s is None:
                        s = self.fresh_ambient("seed()")
                    o.skey, o.pos, o.taints = self.seedkey(s), 0, self.seed_taints(s)
                return NativeFn("seed", seed)
            if name == "spawn":
                def spawn(a, kw):
                    n = self.cint(a[0])
                    return ListObj([NativeObj("rng", family=o.family, skey=(o.skey, "spawn", i), pos=0, taints=o.taints, seed=None) for i in range(n)])
                return NativeFn("spawn", spawn)
            if name in ("shuffle",):
                raise Unsupported("shuffle")
            if name in ("bit_generator",):
                return NativeObj("bitgen", family=o.family, skey=o.skey, taints=o.taints, seed=o.seed)
            if self.known("RandomState", name) or self.known("Generator", name):
                return self.rng_method(lambda: o, name)
            self.throw(AttributeError, f"'{o.family}' object has no attribute '{name}'")
        if k == "seedseq":
            if name == "generate_state":
                def gs(a, kw):
                    n = self.cint_or_poly(a[0] if a else kw["n_words"])
                    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
                    tag = "ss64" if dt is not None and getattr(dt, "name", "") in ("uint64", "ulonglong") else "ss"
                    base = f"{tag}<{'/'.join(map(str, [o.entropy] + list(o.path)))}>"
                    if not isinstance(n, int):
                        leg = Leg(n, param=True)
                        raise Unsupported("generate_state of symbolic length")
                    for i in range(n):
                        self.SSREG[f"{base}[{i}]"] = (o.attrs.get("entropy"), tuple(o.path), i)
                    vals = [P.new_sym(f"{base}[{i}]", lo=0, taints=o.taints, op="ss", base=True) for i in range(n)]
                    return carr_from((n,), vals, "i")
                return NativeFn("generate_state", gs)
            if name == "spawn":
                def sp(a, kw):
                    n = self.cint_or_poly(a[0])
                    st = o.nspawn
                    if P.taints_of(n):
                        self.I.event("tainted_branch", taints=P.taints_of(n), desc=f"number of spawned streams {n}")
                    if not isinstance(n, int):
                        leg = Leg(n, param=True)
                        o2 = NativeObj("seedseq", entropy=o.entropy, path=list(o.path) + [f"spawn@{leg.id}"], taints=o.taints | P.taints_of(n), nspawn=0)
                        return GenericList(leg, o2)
                    o.nspawn += n
                    out = []
                    for i in range(n):
                        c = NativeObj("seedseq", entropy=o.entropy, path=list(o.path) + [st + i], taints=o.taints, nspawn=0)
                        c.attrs["entropy"] = o.attrs.get("entropy")
                        out.append(c)
                    return ListObj(out)
                return NativeFn("spawn", sp)
            if name == "spawn_key":
                return tuple(o.path)
            if self.known("SeedSequence", name):
                raise Unsupported(f"SeedSequence.{name}")
            self.throw(AttributeError, f"'SeedSequence' object has no attribute '{name}'")
        if k == "finfo":
            if name in ("eps", "tiny", "resolution", "smallest_normal"):
                return Fraction(1, 2 ** 52)
            if name == "max":
                return Fraction(2) ** 1023
        if k == "iinfo":
            return None
        if k == "dtype":
            if name == "name":
                return {"f": "float64", "i": "int64", "b": "bool"}.get(o.dt, "object")
            if name == "kind":
                return o.dt
        if k == "flags" and name == "c_contiguous":
            return o.contig
        return None

    def cint_or_poly(self, v):
        if isint(v):
            return v
        return self.dim(v)

    # ------------------------------------------------------------ pyx contract
    def pyx_module(self, name):
        """contract of the compiled kernels (verified separately, see pyxcheck):
        row i of the result depends on the index tuple, the row number, the
        seed and the documented arguments only"""
        def onehots(indices, shape):
            dims = list(self.shape_arg(shape))
            rows = list(indices.rows) if isinstance(indices, IntStack) else [self.array_getitem(indices, i) for i in range(self.length(indices))]
            if len(rows) != len(dims):
                if len(rows) < len(dims):
                    self.throw(IndexError, "index out of bounds on buffer access (axis 0)")
                raise Unsupported("kernel called with more index rows than modes")
            ohs = []
            for r, n in zip(rows, dims):
                ohs.append(self.onehot(self.as_intarr(r, n), n))
            return ohs, dims

        def kernel(kind, indices, shape, total, lo, hi, extra, seed):
            self.I.event("kernel", name=kind, lo=lo, hi=hi, total=total, extra=extra, seed=seed, shape=shape)
            ohs, dims = onehots(indices, shape)
            r = P.psub(hi, lo)
            if not P.nonneg(r):
                if P.nonneg(P.psub(-1, r)):
                    self.throw(ValueError, "negative rank window")
                raise Unsupported("rank window of unknown sign")
            sk = self.seedkey(seed)
            head = ("lazy", kind, sk) + tuple(repr(x) for x in extra)
            self.RNDTAINT[head] = self.seed_taints(seed)
            vlegs = [N.mkleg(n) for n in dims]
            K = Leg(N.INF)
            R = N.mkleg(r)
            base = N.simplify(Net(vlegs + [R], [(N.ONE, ((head, (tuple(l for v in vlegs for l in v), (K,))), (("Inj", lo), (R, (K,)))))]))
            labs = [["N", ("v", i)] for i in range(len(dims))] + [[("v", i) for i in range(len(dims))] + ["r"]]
            return self.arr(N.contract(ohs + [base], labs, ["N", "r"]))

        def normal(a, k):
            names = ["indices", "shape", "rank_min", "rank_max", "seed"]
            v = dict(zip(names, a))
            v.update(k)
            return kernel("normal", v["indices"], v["shape"], None, v["rank_min"], v["rank_max"], (), v["seed"])

        def sign(a, k):
            names = ["indices", "shape", "rank", "rank_min", "rank_max", "non_zero_per_row", "seed"]
            v = dict(zip(names, a))
            v.update(k)
            lo, hi, tot = v["rank_min"], v["rank_max"], v["rank"]
            if P.cmp_gt(hi, tot):
                hi = tot
            return kernel("sign", v["indices"], v["shape"], tot, lo, hi, (tot, v["non_zero_per_row"]), v["seed"])
        src = ""
        path = self.I.module_path(name)
        ns = {"__name__": name}
        ns["inds_to_normal"] = NativeFn("inds_to_normal", normal)
        ns["inds_to_sparse_sign"] = NativeFn("inds_to_sparse_sign", sign)
        ns["hash_int_c"] = NativeFn("hash_int_c", lambda a, k: self._uns("hash_int_c"))
        return ns
