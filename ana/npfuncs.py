"""Model of the numpy / scipy functions (contracts in the net domain)."""
from __future__ import annotations

import itertools
from fractions import Fraction

import net as N
import poly as P
from net import INF, Leg, Net, ShapeError, Unsupported
from nprandom import NumpyRandom
from poly import Poly
from values import *

NUM = (int, Poly, Fraction, float)
ARR = (NDArr, CArr, IntArr, IntStack, Mask)


def isint(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


class NumpyFuncs(NumpyRandom):
    # ------------------------------------------------------------ registration
    def _mk_np(self):
        I = self.I
        self.npf = {}
        self.npT = {}
        self.T["ndarray"] = BuiltinType("ndarray", lambda v: isinstance(v, ARR) and not (isinstance(v, NDArr) and v.ndim == 0 and getattr(v, "aux", None) != "arr0"),
                                        lambda a, k: self._uns("ndarray()"))
        ns = {"ndarray": self.T["ndarray"]}

        def scalar_type(name, pred):
            t = BuiltinType(name, pred, lambda a, k, n=name: self.np_cast(a, n))
            ns[name] = t
            self.npT[name] = t
            return t

        isf = lambda v: isinstance(v, NDArr) and v.ndim == 0 and v.dtype == "f"
        for n in ("float64", "double", "float_", "float32", "float16", "half", "single", "longdouble", "floating"):
            scalar_type(n, isf)
        for n in ("int64", "int32", "int16", "int8", "intp", "intc", "int_", "long", "longlong", "short", "byte",
                  "uint64", "uint32", "uint16", "uint8", "uint", "uintp", "uintc", "ulonglong", "ushort", "ubyte",
                  "integer", "signedinteger", "unsignedinteger"):
            scalar_type(n, lambda v: isinstance(v, (Poly,)) or isinstance(v, IntArr) and v.shape == ())
        for n in ("bool_", "number", "generic", "complex128", "object_", "str_"):
            scalar_type(n, lambda v: False)
        ns["newaxis"] = None
        ns["inf"] = float("inf")
        ns["nan"] = float("nan")
        ns["pi"] = self.arr(N.scal_var("pi", nonneg=True))
        ns["e"] = self.arr(N.scal_var("e", nonneg=True))

        def reg(name, f, kws=(), also=()):
            def g(args, kw, f=f, name=name):
                for k in kw:
                    if k not in kws:
                        raise Unsupported(f"np.{name}({k}=)")
                try:
                    return f(*args, **kw)
                except ShapeError as e:
                    self.throw(ValueError, f"{name}: {e}")
                except TypeError as e:
                    if "positional argument" in str(e) or "required positional" in str(e):
                        raise Unsupported(f"np.{name} arguments: {e}")
                    raise
            nf = NativeFn("np." + name, g)
            self.npf[name] = nf
            for n in (name,) + tuple(also):
                if not n.endswith("_"):
                    ns[n] = nf

        # --- creation
        def zeros(shape, dtype=None, order="C", val=0):
            sh = self.shape_arg(shape)
            for s in sh:
                if isinstance(s, int) and s < 0:
                    self.throw(ValueError, "negative dimensions are not allowed")
            dt = self.dtcode(dtype) or "f"
            if all(isinstance(s, int) for s in sh) and self.tot(sh) != 1:
                v = Fraction(val) if dt == "f" else val
                n = self.tot(sh)
                if n > 20000:
                    raise Unsupported("large concrete array")
                return carr_from(sh, [v] * n, dt)
            a = self.arr(N.const_net(sh, val), dt)
            if a.ndim == 0:
                a.aux = "arr0"
            return a
        reg("zeros", zeros, ("dtype", "order", "shape"))
        reg("ones", lambda shape, dtype=None, order="C": zeros(shape, dtype, val=1), ("dtype", "order", "shape"))

        def full(shape, fill_value, dtype=None, order="C"):
            sh = self.shape_arg(shape)
            if isinstance(fill_value, float):
                self.ambient += 1
                return self.arr(N.atom_net(("nonfinite", self.ambient), sh))
            if all(isinstance(s, int) for s in sh) and self.tot(sh) != 1:
                return carr_from(sh, [fill_value] * self.tot(sh), "f")
            return self.arr(N.broadcast_to(self.tonet(fill_value), sh))
        reg("full", full, ("dtype", "fill_value", "shape"))

        def empty(shape, dtype=None, order="C"):
            sh = self.shape_arg(shape)
            self.ambient += 1
            dt = self.dtcode(dtype) or "f"
            if dt == "o" and all(isinstance(s, int) for s in sh):
                return carr_from(sh, [None] * self.tot(sh), "o")
            a = self.arr(N.atom_net(("uninit", self.ambient), sh), dt)
            a.uninit = True
            I.event("empty", arr=a)
            return a
        reg("empty", empty, ("dtype", "order", "shape"))
        for nm, f in (("zeros_like", zeros), ("ones_like", lambda s, dtype=None: zeros(s, dtype, val=1)), ("empty_like", empty)):
            reg(nm, lambda a, dtype=None, shape=None, f=f: f(tuple(self.asarray(a).shape) if shape is None else shape, dtype=dtype), ("dtype", "shape"))
        reg("full_like", lambda a, fill_value, dtype=None: full(tuple(self.asarray(a).shape), fill_value), ("dtype", "fill_value"))

        def eye(n, M=None, k=0, dtype=None):
            n = self.dim(n)
            M = n if M is None else self.dim(M)
            if not isinstance(k, int):
                raise Unsupported("eye offset")
            if isinstance(n, int) and isinstance(M, int):
                return carr_from((n, M), [Fraction(int(j - i == k)) for i in range(n) for j in range(M)], "f")
            if k != 0:
                raise Unsupported("eye offset")
            if P.peq(n, M):
                return self.arr(N.eye_net(n))
            if P.cmp_ge(M, n):
                a, b = N.mkleg(n), N.mkleg(M)
                return self.arr(N.simplify(Net((a, b), [(N.ONE, ((("Inj", 0), (a, b)),))]))) if b else self.arr(N.eye_net(1))
            if P.cmp_ge(n, M):
                a, b = N.mkleg(n), N.mkleg(M)
                return self.arr(N.simplify(Net((a, b), [(N.ONE, ((("Inj", 0), (b, a)),))])))
            raise Unsupported("rectangular identity")
        reg("eye", eye, ("dtype", "M", "k", "N"))
        reg("identity", lambda n, dtype=None: eye(n), ("dtype",))

        def arange(*a, dtype=None):
            a = [self.dim(x) if not isinstance(x, (Fraction, float)) else x for x in a]
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            if all(isinstance(x, (int, Fraction)) for x in (lo, hi, st)):
                out = []
                x = lo
                while (x < hi) if st > 0 else (x > hi):
                    out.append(x)
                    x += st
                    if len(out) > 20000:
                        raise Unsupported("large arange")
                dt = self.dtcode(dtype) or ("i" if all(isinstance(x, int) for x in (lo, hi, st)) else "f")
                if dt == "f":
                    out = [Fraction(x) for x in out]
                return carr_from((len(out),), out, dt)
            if not (isinstance(st, int) and st == 1) or not isint(lo) or not isint(hi):
                raise Unsupported("arange with symbolic step")
            size = P.psub(hi, lo)
            if not P.nonneg(size):
                size = P.pmax(0, size)
            if self.dtcode(dtype) == "f":
                leg = Leg(size)
                return self.arr(N.add(self.idx_net(leg), N.scalar_net(lo)))
            L = N.mkleg(size)
            if not L:
                return carr_from((1,), [lo], "i")
            M = Leg(size)
            oh = Net((L, (M,)), [(N.ONE, ((("I",), (L, (M,))),))])
            return IntArr((size,), [(1, oh)], lo)
        reg("arange", arange, ("dtype",))

        def linspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
            num = self.dim(num)
            if isinstance(num, int):
                div = num - 1 if endpoint else num
                out = []
                for i in range(num):
                    if div <= 0:
                        out.append(start)
                    else:
                        out.append(self.binop("Add", start, self.binop("Mult", Fraction(i, div), self.binop("Sub", stop, start))))
                return carr_from((num,), out, "f")
            leg = Leg(num)
            div = P.psub(num, 1) if endpoint else num
            step = N.ewise_mul(self.tonet(self.binop("Sub", stop, start)), N.scal_recip(N.scalar_net(div)))
            return self.arr(N.add(self.tonet(start), N.ewise_mul(self.idx_net(leg), step)))
        reg("linspace", linspace, ("num", "endpoint", "dtype", "start", "stop"))

        reg("array", lambda v, dtype=None, copy=True, ndmin=0, order=None: self.np_array(v, dtype, copy), ("dtype", "copy", "order"))
        reg("asarray", lambda v, dtype=None, order=None: self.np_array(v, dtype, False), ("dtype", "order"), also=("asanyarray", "ascontiguousarray", "asfortranarray"))
        reg("copy", lambda v, order="K": self.copy_(self.asarray(v)), ("order",))

        # --- shape
        def mvshape(a, newshape=None, order="C", shape=None):
            s = newshape if newshape is not None else shape
            return self.reshape(self.asarray(a), list(self.shape_arg_neg(s)), order)
        reg("reshape", mvshape, ("order", "newshape", "shape"))
        reg("ravel", lambda a, order="C": self.reshape(self.asarray(a), [-1], order), ("order",))
        reg("flatten_", lambda a, order="C": self.copy_(self.reshape(a, [-1], order)), ("order",))
        reg("transpose", lambda a, axes=None: self.transpose(self.asarray(a), list(I.iterate(axes)) if axes is not None else None), ("axes",))

        def swapaxes(a, i, j):
            a = self.asarray(a)
            p = list(range(len(a.shape)))
            i, j = self.axis_(i, len(p)), self.axis_(j, len(p))
            p[i], p[j] = p[j], p[i]
            return self.transpose(a, p)
        reg("swapaxes", swapaxes, ("axis1", "axis2"))

        def moveaxis(a, src, dst):
            a = self.asarray(a)
            nd = len(a.shape)
            s = [self.axis_(x, nd) for x in (I.iterate(src) if self.iterable(src) else [src])]
            d = [self.axis_(x, nd) for x in (I.iterate(dst) if self.iterable(dst) else [dst])]
            if len(s) != len(d):
                self.throw(ValueError, "`source` and `destination` arguments must have the same number of elements")
            order = [n for n in range(nd) if n not in s]
            for x, y in sorted(zip(d, s)):
                order.insert(x, y)
            return self.transpose(a, order)
        reg("moveaxis", moveaxis, ("source", "destination"))
        reg("rollaxis", lambda *a: self._uns("rollaxis"))

        def squeeze(a, axis=None):
            a = self.asarray(a)
            sh = a.shape
            if axis is None:
                if any(not isinstance(s, int) for s in sh):
                    keep = []
                    for i, s in enumerate(sh):
                        if isinstance(s, int):
                            if s != 1:
                                keep.append(i)
                        elif I.truth(self.compare("NotEq", s, 1)):
                            keep.append(i)
                else:
                    keep = [i for i, s in enumerate(sh) if s != 1]
            else:
                ax = [self.axis_(x, len(sh)) for x in (I.iterate(axis) if self.iterable(axis) else [axis])]
                for x in ax:
                    if not (isinstance(sh[x], int) and sh[x] == 1):
                        if P.cmp_eq(sh[x], 1) is False or P.base_only(sh[x]):
                            self.throw(ValueError, "cannot select an axis to squeeze out which has size not equal to one")
                        raise Unsupported("squeeze")
                keep = [i for i in range(len(sh)) if i not in ax]
            return self.reshape(a, [sh[i] for i in keep])
        reg("squeeze", squeeze, ("axis",))

        def expand_dims(a, axis):
            a = self.asarray(a)
            axs = [self.cint(x) for x in (I.iterate(axis) if self.iterable(axis) else [axis])]
            nd = len(a.shape) + len(axs)
            axs = [x % nd for x in axs]
            sh = list(a.shape)
            for x in sorted(axs):
                sh.insert(x, 1)
            return self.reshape(a, sh)
        reg("expand_dims", expand_dims, ("axis",))

        def atleast(k):
            def f(a):
                a = self.asarray(a)
                sh = list(a.shape)
                if len(sh) >= k:
                    return a
                return self.reshape(a, [1] * (k - len(sh)) + sh)
            return f
        reg("atleast_1d", atleast(1))
        reg("atleast_2d", atleast(2))
        reg("broadcast_to", lambda a, shape: self.arr(self.fit(self.tonet(self.asarray(a)), self.shape_arg(shape))), ("shape",))
        reg("shape", lambda a: tuple(self.asarray(a).shape))
        reg("ndim", lambda a: len(self.asarray(a).shape))
        reg("size", lambda a: self.tot(self.asarray(a).shape))
        reg("flip", self.flip, ("axis",))
        reg("concatenate", self.concatenate, ("axis",))
        reg("stack", self.stack, ("axis",))
        reg("vstack", lambda xs: self.concatenate(ListObj([atleast(2)(x) for x in I.iterate(xs)]), 0))
        reg("hstack", lambda xs: (lambda l: self.concatenate(ListObj(l), 0 if len(l[0].shape) == 1 else 1))([atleast(1)(x) for x in I.iterate(xs)]))
        reg("append", lambda a, v, axis=None: self.concatenate(ListObj([self.reshape(self.asarray(a), [-1]), self.reshape(self.asarray(v), [-1])])) if axis is None else self.concatenate(ListObj([a, v]), axis), ("axis",))
        reg("tile", lambda *a: self._uns("tile"))
        reg("repeat", lambda *a, **k: self._uns("repeat"), ("axis",))
        reg("roll", lambda *a, **k: self._uns("roll"), ("axis",))
        reg("split", lambda *a, **k: self._uns("split"), ("axis",))

        def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
            xs = [self.asarray(x) for x in xs]
            if indexing not in ("xy", "ij"):
                self.throw(ValueError, "Valid values for `indexing` are 'xy' and 'ij'.")
            n = len(xs)
            pos = list(range(n))
            if indexing == "xy" and n > 1:
                pos[0], pos[1] = 1, 0
            sizes = [None] * n
            for i, x in enumerate(xs):
                sizes[pos[i]] = self.tot(x.shape)
            out = []
            for i, x in enumerate(xs):
                sh = [1] * n
                sh[pos[i]] = sizes[pos[i]]
                net = N.reshape(self.tonet(x), sh)
                if not sparse:
                    net = N.broadcast_to(net, sizes)
                out.append(self.arr(net))
            return ListObj(out)
        reg("meshgrid", meshgrid, ("indexing", "sparse", "copy"))

        def indices_(dims, dtype=None, sparse=False):
            sh = self.shape_arg(dims)
            rows = []
            for i, s in enumerate(sh):
                if isinstance(s, int) and s == 1:
                    n = N.const_net(sh + (1,), 1)
                else:
                    n = N.broadcast_to(N.reshape(N.eye_net(s), [s if k == i else 1 for k in range(len(sh))] + [s]), sh + (s,))
                rows.append(IntArr(sh, [(1, n)], 0))
            return IntStack(rows, None)
        reg("indices", indices_, ("dtype", "sparse"))
        reg("ix_", lambda *a: self._uns("ix_"))

        # --- products
        reg("einsum", self.einsum, ("optimize", "out"))
        reg("dot", self.dot_)
        reg("matmul", self.matmul)
        reg("inner", self.inner)
        reg("vdot", lambda a, b: self.dot_(self.reshape(self.asarray(a), [-1]), self.reshape(self.asarray(b), [-1])))
        reg("outer", self.outer)
        reg("tensordot", self.tensordot, ("axes",))
        reg("kron", self.kron)
        reg("trace", lambda a: self.num_or_arr(N.contract([self.tonet(a)], [["i", "i"]], [])))
        reg("diag", self.diag, ("k",))
        reg("diagonal", lambda a: self.arr(N.diag_of(self.tonet(a))))
        reg("multi_dot_", lambda xs: self._uns("multi_dot"))

        # --- elementwise
        ops = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
               "power": "Pow", "floor_divide": "FloorDiv", "float_power": "Pow"}
        for n, o in ops.items():
            reg(n, lambda a, b, o=o, dtype=None, out=None: self.ufunc_out(self.binop(o, self.operand(a), self.operand(b)), out), ("out", "dtype"))
        reg("mod", lambda a, b, dtype=None: self.np_mod(a, b, dtype), ("dtype",), also=("remainder",))
        for n, o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
            reg(n, lambda a, b, o=o: self.compare(o, self.operand(a), self.operand(b)))
        reg("negative", lambda a: self.unop("USub", self.operand(a)))
        reg("logical_not", lambda a: self.unop("Invert", a) if isinstance(a, (Mask, UnknownBool)) else not I.truth(a))
        reg("logical_and", lambda a, b: self.binop("BitAnd", self.operand(a), self.operand(b)))
        reg("logical_or", lambda a, b: self.binop("BitOr", self.operand(a), self.operand(b)))
        for n in ("sqrt", "abs", "square", "exp", "log", "log2", "log10", "sin", "cos", "tan", "tanh", "sign", "expm1", "log1p",
                  "arctan", "cbrt"):
            reg(n, lambda a, n=n, out=None: self.ufunc_out(self.np_fn(n, a), out), ("out",), also=("absolute", "fabs") if n == "abs" else ())
        reg("reciprocal", lambda a: self.binop("Div", 1, a))
        reg("ceil", lambda a: self.np_round("ceil", a))
        reg("floor", lambda a: self.np_round("floor", a))
        for n in ("round", "around", "rint", "trunc"):
            reg(n, lambda a, decimals=0, n=n: a if isint(a) else self.arr(self.fnet(n, self.tonet(a))), ("decimals",))
        reg("conj_", lambda a: a, ())
        reg("real", lambda a: a)
        reg("conj", lambda a: a, also=("conjugate",))
        reg("minimum", lambda a, b: self.minmax2("min", a, b))
        reg("maximum", lambda a, b: self.minmax2("max", a, b))
        reg("clip", lambda a, lo=None, hi=None: self.minmax2("min", self.minmax2("max", a, lo) if lo is not None else a, hi) if hi is not None else self.minmax2("max", a, lo))
        reg("isnan", lambda a: self.isfinite_(a, "isnan") if not isinstance(a, ARR) else False)
        reg("isinf", lambda a: self.isfinite_(a, "isinf") if not isinstance(a, ARR) else False)
        reg("isfinite", lambda a: self.isfinite_(a, "isfinite") if not isinstance(a, ARR) else True)
        reg("isscalar", lambda a: isinstance(a, NUM) or isinstance(a, NDArr) and a.ndim == 0)
        reg("iterable", lambda a: self.iterable(a))

        # --- reductions
        reg("sum", self.np_sum, ("axis", "keepdims", "dtype", "initial"))
        reg("prod", self.np_prod, ("axis", "dtype", "keepdims", "initial"), also=("product",))
        reg("mean", self.np_mean, ("axis", "keepdims"))
        reg("count_nonzero", self.count_nonzero, ("axis",))
        reg("searchsorted", self.np_searchsorted, ("side",))
        reg("all", lambda a, axis=None: self.np_all(a, axis), ("axis",))
        reg("any", lambda a, axis=None: self.np_any(a, axis), ("axis",))
        reg("max", lambda a, axis=None, initial=None: self.np_minmax("max", a, axis), ("axis",), also=("amax",))
        reg("min", lambda a, axis=None, initial=None: self.np_minmax("min", a, axis), ("axis",), also=("amin",))
        reg("cumsum", lambda a, axis=None: self.cumul("Add", a, axis), ("axis",))
        reg("cumprod", lambda a, axis=None: self.cumul("Mult", a, axis), ("axis",))
        reg("argmax", lambda a, axis=None: self.argm("max", a), ("axis",))
        reg("argmin", lambda a, axis=None: self.argm("min", a), ("axis",))
        reg("sort", lambda a: (lambda c: carr_from(c.shape, self.sort_(c.flat()), c.dtype) if isinstance(c, CArr) and c.ndim == 1 else self._uns("np.sort"))(self.asarray(a)))
        reg("argsort", self.argsort, ("kind",))
        reg("unique", lambda a: self._uns("np.unique"))
        reg("diff", lambda a: self.binop("Sub", self.getitem(self.asarray(a), SliceObj(1, None, None)), self.getitem(self.asarray(a), SliceObj(None, -1, None))))

        # --- logic
        reg("array_equal", self.array_equal)
        reg("allclose", lambda a, b, rtol=None, atol=None: self.allclose(a, b), ("rtol", "atol", "equal_nan"))
        reg("isclose", lambda a, b, rtol=None, atol=None: self.allclose(a, b), ("rtol", "atol", "equal_nan"))
        reg("where", self.np_where)
        reg("nonzero", lambda a: self.np_where(a), also=("flatnonzero",))
        ns["flatnonzero"] = NativeFn("flatnonzero", lambda a, k: self.np_where(a[0])[0])
        reg("take", self.take, ("axis", "mode"))
        reg("ravel_multi_index", self.ravel_multi_index, ("order", "mode", "dims"))
        reg("unravel_index", self.unravel_index, ("order", "shape"))
        reg("frombuffer", lambda *a, **k: self._uns("frombuffer"), ("dtype",))
        reg("errstate_", lambda **k: NativeObj("ctx"))
        ns["errstate"] = NativeFn("errstate", lambda a, k: NativeObj("ctx"))
        ns["seterr"] = NativeFn("seterr", lambda a, k: None)
        ns["set_printoptions"] = NativeFn("set_printoptions", lambda a, k: None)
        ns["iinfo"] = NativeFn("iinfo", lambda a, k: self.iinfo(a[0]))
        ns["finfo"] = NativeFn("finfo", lambda a, k: NativeObj("finfo"))
        ns["dtype"] = NativeFn("dtype", lambda a, k: NativeObj("dtype", dt=self.dtcode(a[0])))
        ns["r_"] = NativeObj("r_")
        ns["c_"] = NativeObj("c_")
        ns["s_"] = NativeObj("s_")
        ns["c_"] = NativeObj("c_")
        ns["isin"] = NativeFn("isin", lambda a, k: self._uns("isin"))
        ns["vectorize"] = NativeFn("vectorize", lambda a, k: self._uns("vectorize"))
        ns["frompyfunc"] = NativeFn("frompyfunc", lambda a, k: self._uns("frompyfunc"))

        # --- linalg
        def L(name, f, kws=()):
            def g(args, kw, f=f, name=name):
                for k in kw:
                    if k not in kws:
                        raise Unsupported(f"linalg.{name}({k}=)")
                try:
                    r = f(*args, **kw)
                except ShapeError as e:
                    self.throw(ValueError, f"{name}: {e}")
                for i, k in enumerate(("overwrite_a", "overwrite_b")):
                    if kw.get(k) is True:
                        j = 0 if name == "qr" or name == "svd" or i == 0 else 1
                        if j < len(args):
                            self.overwritten(args[j], f"{name}({k}=True)")
                return r
            return NativeFn("linalg." + name, g)

        self._L = L
        la = {
            "norm": L("norm", self.norm, ("axis", "ord", "keepdims")),
            "qr": L("qr", self.qr, ("mode",)),
            "svd": L("svd", self.svd, ("full_matrices", "compute_uv", "hermitian")),
            "svdvals": L("svdvals", lambda a: self.svd(a, compute_uv=False)),
            "pinv": L("pinv", self.pinv, ("rcond", "hermitian", "rtol")),
            "inv": L("inv", self.inv),
            "solve": L("solve", self.solve),
            "lstsq": L("lstsq", lambda a, b, rcond="warn": self.lstsq(a, b, rcond), ("rcond",)),
            "multi_dot": L("multi_dot", self.multi_dot),
            "matrix_rank": L("matrix_rank", lambda a: self._uns("matrix_rank")),
            "LinAlgError": ExcClass(ValueError),
            "det": L("det", lambda a: self._uns("det")),
            "eigh": L("eigh", lambda a: self._uns("eigh")),
            "cond": L("cond", lambda a: self._uns("cond")),
            "matrix_power": L("matrix_power", lambda a, n: self._uns("matrix_power")),
        }
        lam = self.nsmod("numpy.linalg", **la)
        sla = {
            "qr": L("qr", self.scipy_qr, ("mode", "overwrite_a", "pivoting", "check_finite", "lwork")),
            "svd": L("svd", lambda a, full_matrices=True, compute_uv=True, **k: self.svd(a, full_matrices, compute_uv), ("full_matrices", "compute_uv", "overwrite_a", "check_finite", "lapack_driver")),
            "svdvals": L("svdvals", lambda a: self.svd(a, compute_uv=False)),
            "pinv": L("pinv", lambda a, **k: self.pinv(a, k.get("rtol")), ("rtol", "atol", "return_rank", "check_finite")),
            "inv": L("inv", lambda a, **k: self.inv(a), ("overwrite_a", "check_finite")),
            "solve": L("solve", self.scipy_solve, ("assume_a", "overwrite_a", "overwrite_b", "check_finite", "transposed", "lower")),
            "lstsq": L("lstsq", self.scipy_lstsq, ("cond", "lapack_driver", "overwrite_a", "overwrite_b", "check_finite")),
            "solve_triangular": L("solve_triangular", self.solve_triangular, ("lower", "trans", "overwrite_b", "check_finite", "unit_diagonal")),
            "norm": L("norm", self.norm, ("axis", "ord", "keepdims", "check_finite")),
            "block_diag": L("block_diag", lambda *a: self._uns("block_diag")),
            "orth": L("orth", lambda a: self._uns("orth")),
            "khatri_rao": L("khatri_rao", lambda a, b: self._uns("khatri_rao")),
            "LinAlgError": ExcClass(ValueError),
        }
        slm = self.nsmod("scipy.linalg", **sla)
        rnd = self._mk_random()
        npt = self.nsmod("numpy.typing", NDArray=TypingVal("NDArray"), ArrayLike=TypingVal("ArrayLike"), DTypeLike=TypingVal("DTypeLike"))
        npm = self.nsmod("numpy", linalg=lam, random=rnd, typing=npt, **ns)
        self.nsmod("scipy", linalg=slm)

    def iinfo(self, t):
        nm = getattr(t, "name", t)
        o = NativeObj("iinfo")
        bits = {"uint64": (0, 2 ** 64 - 1), "uint32": (0, 2 ** 32 - 1), "uint": (0, 2 ** 64 - 1), "int64": (-2 ** 63, 2 ** 63 - 1),
                "int32": (-2 ** 31, 2 ** 31 - 1), "int_": (-2 ** 63, 2 ** 63 - 1), "int": (-2 ** 63, 2 ** 63 - 1)}.get(nm)
        if bits is None:
            raise Unsupported("iinfo")
        o.attrs["min"], o.attrs["max"] = bits
        return o

    # ------------------------------------------------------------ helpers
    def axis_(self, ax, nd):
        a = self.cint(ax)
        if not -nd <= a < nd:
            self.throw(ValueError, f"axis {a} is out of bounds for array of dimension {nd}")
        return a % nd

    def shape_arg_neg(self, v):
        if isinstance(v, (tuple, ListObj, RangeObj, GenObj, LazyIter)) or isinstance(v, CArr) and v.ndim == 1:
            return tuple(self.dim(x) for x in self.I.iterate(v))
        return (self.dim(v),)

    def ufunc_out(self, r, out):
        if out is None:
            return r
        if isinstance(out, tuple):
            out = out[0]
        self.array_setitem(out, ELLIPSIS, r)
        return out

    def np_cast(self, a, name):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (ListObj, tuple)) or isinstance(v, ARR) and v.shape != ():
            return self.astype(self.asarray(v), self.npT[name])
        return self.cast_scalar(v, self.npT[name])

    def operand(self, v):
        """operand of a ufunc: sequences are converted to arrays"""
        if isinstance(v, (ListObj, tuple, GenericList, RangeObj)):
            return self.asarray(v)
        return v

    def asarray(self, v):
        if isinstance(v, ARR):
            return v
        return self.np_array(v, None, False)

    def np_array(self, v, dtype=None, copy=True):
        I = self.I
        dt = self.dtcode(dtype) if dtype is not None else None
        if isinstance(v, ARR):
            r = self.copy_(v) if copy else v
            if dt is not None and dt != self.dt_of(v):
                r = self.astype(v, dtype)
            elif dt == "i" and isinstance(v, CArr):
                r = self.astype(v, dtype)
            if isinstance(r, NDArr) and r.ndim == 0:
                r = self.arr(r.net, r.dtype)
                r.aux = "arr0"
            return r
        if isinstance(v, (bool, int, Fraction, float, Poly, UnknownBool)):
            if dt is not None:
                v = self.cast_scalar(v, dtype)
            if isinstance(v, float):
                return carr_from((), [v], "f")
            if isinstance(v, (UnknownBool, bool)):
                return carr_from((), [v], "b")
            a = self.arr(self.tonet(v), "i" if isint(v) else "f")
            a.aux = "arr0"
            return a
        if isinstance(v, GenericList):
            e = v.elem
            n = self.tonet(e)
            if isinstance(e, (IntArr, GIdx)):
                raise Unsupported("array of symbolic index list")
            return self.arr(N.open_param(n, v.leg, 0))
        if isinstance(v, (RangeObj,)):
            if self.generic_of(v) is not None:
                return self.npf["arange"].fn([v.lo, v.hi], {})
            v = ListObj(self.iterate(v))
        if isinstance(v, (ListObj, tuple)):
            items = list(v.items if isinstance(v, ListObj) else v)
            if not items:
                return carr_from((0,), [], dt or "f")
            if any(isinstance(x, (ListObj, tuple, RangeObj)) or isinstance(x, ARR) and x.shape != () for x in items):
                subs = [self.asarray(x) for x in items]
                nd = {len(s.shape) for s in subs}
                if len(nd) > 1:
                    self.throw(ValueError, "setting an array element with a sequence. The requested array has an inhomogeneous shape")
                r = self.stack(ListObj(subs), 0)
                if dt is not None:
                    r = self.astype(r, dtype)
                return r
            if all(isinstance(x, (InstObj, str, FuncObj, ClassObj, type(None), DictObj)) for x in items):
                if dt == "o" or dt is None:
                    return carr_from((len(items),), items, "o")
                self.throw(TypeError, "cannot convert objects to numbers")
            if any(isinstance(x, IntArr) for x in items):
                raise Unsupported("array of data-dependent integers")
            vals = []
            isf = False
            for x in items:
                if dt is not None:
                    x = self.cast_scalar(x, dtype)
                if isinstance(x, (Fraction, float)) or isinstance(x, NDArr) and x.dtype == "f":
                    isf = True
                elif x is None or isinstance(x, (str, InstObj)):
                    raise Unsupported("object array")
                elif not isinstance(x, (bool, int, Poly, NDArr, UnknownBool)):
                    raise Unsupported(f"array element {type(x).__name__}")
                vals.append(x)
            if isf:
                vals = [Fraction(x) if isinstance(x, int) else x for x in vals]
            return carr_from((len(vals),), vals, dt or ("f" if isf else "i"))
        if isinstance(v, (LazyIter,)):
            raise Unsupported("array of an iterator")
        if isinstance(v, InstObj):
            m, _ = I.class_lookup(v.cls, "__array__")
            if m is not None:
                return I.call(BoundMethod(v, m), [], {})
            raise Unsupported("array of a library object")
        if v is None:
            raise Unsupported("array(None)")
        raise Unsupported(f"array of {type(v).__name__}")

    def np_r(self, kind, idx):
        if kind == "s_":
            return idx
        xs = idx if isinstance(idx, tuple) else (idx,)
        if kind != "r_" or any(isinstance(x, SliceObj) for x in xs):
            raise Unsupported("np.r_")
        return self.concatenate(ListObj([self.npf["atleast_1d"].fn([x], {}) for x in xs]))

    def np_fn(self, name, a):
        if isinstance(a, (int, Fraction)) and not isinstance(a, bool):
            if name == "abs":
                return abs(a)
            if name == "sqrt" and a >= 0:
                import math
                f = Fraction(a)
                p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if p * p == f.numerator and q * q == f.denominator:
                    return Fraction(p, q)
            if name == "sign":
                return (a > 0) - (a < 0)
            if name == "square":
                return a * a
        if isinstance(a, Poly) and name == "abs":
            return self.unop("Abs", a)
        if isinstance(a, InstObj):
            raise Unsupported(f"np.{name} of a library object")
        if a is None or isinstance(a, str):
            self.throw(TypeError, f"ufunc '{name}' not supported for the input types")
        return self.scal_fn(name, a)

    def np_round(self, name, a):
        if isint(a):
            return a
        if isinstance(a, (Fraction,)):
            import math
            return Fraction(getattr(math, name)(a))
        if isinstance(a, float):
            return a
        if isinstance(a, CArr):
            return carr_from(a.shape, [self.np_round(name, x) for x in a.flat()], a.dtype)
        if isinstance(a, NDArr) and a.ndim == 0:
            return (self.ceil_scalar if name == "ceil" else self.floor_scalar)(a)
        return self.arr(self.fnet(name, self.tonet(a)))

    def np_mod(self, a, b, dtype=None):
        if isinstance(a, CArr):
            return carr_from(a.shape, [self.np_mod(x, b, dtype) for x in a.flat()], a.dtype)
        a2 = a
        if isinstance(a, NDArr) and a.ndim == 0:
            p = self.net_as_poly(a)
            if p is not None:
                a2 = p
        if isint(a2) and isint(b):
            if dtype is not None and isinstance(a2, int) and isinstance(b, int) and a2 < 0 and getattr(dtype, "name", "").startswith("uint"):
                self.throw(OverflowError, "Python integer out of bounds for uint64")
            return P.pmod(a2, b)
        return self.binop("Mod", a, b)

    def minmax2(self, op, a, b):
        if isint(a) and isint(b):
            return (P.pmin if op == "min" else P.pmax)(a, b)
        if isinstance(a, (CArr, ListObj, tuple)) or isinstance(b, (CArr, ListObj, tuple)):
            a2, b2 = self.coerce(a), self.coerce(b)
            if (isinstance(a2, CArr) or isinstance(a2, NUM)) and (isinstance(b2, CArr) or isinstance(b2, NUM)):
                sh = self.bshape(a2.shape if isinstance(a2, CArr) else (), b2.shape if isinstance(b2, CArr) else ())
                xa = self.cbroadcast(a2, sh) if isinstance(a2, CArr) else None
                xb = self.cbroadcast(b2, sh) if isinstance(b2, CArr) else None
                idx = (xa or xb).indices_list()
                return carr_from(sh, [self.minmax2(op, xa.get(i) if xa else a2, xb.get(i) if xb else b2) for i in idx], "i")
        if isinstance(a, NUM + (NDArr,)) and isinstance(b, NUM + (NDArr,)) and not (isinstance(a, NDArr) and a.ndim) and not (isinstance(b, NDArr) and b.ndim):
            return self.minmax(op, [a, b], {})
        raise Unsupported(f"np.{op}imum of arrays")

    # ------------------------------------------------------------ reductions
    def red_axes(self, a, axis):
        nd = len(a.shape)
        if axis is None:
            return list(range(nd))
        if isinstance(axis, (tuple, ListObj)):
            return [self.axis_(x, nd) for x in self.I.iterate(axis)]
        return [self.axis_(axis, nd)]

    def np_sum(self, a, axis=None, keepdims=False, dtype=None, initial=None):
        if isinstance(a, (int, Fraction, Poly)) and not isinstance(a, bool):
            return a
        a = self.asarray(a)
        if isinstance(a, Mask):
            aux = getattr(a, "aux", None)
            if aux is not None and axis is None:
                return self.sval_count(aux)
            if axis is None and len(a.shape) == 1:
                return self.mask_count(a)
            raise Unsupported("sum of boolean array")
        if dtype is not None and isinstance(a, CArr):
            a = self.astype(a, dtype)
        if isinstance(a, CArr):
            axes = self.red_axes(a, axis)
            return self.carr_reduce(a, axes, "Add", keepdims, 0)
        if isinstance(a, (IntArr, IntStack)):
            a = self.arr(self.tonet(a))
        axes = self.red_axes(a, axis)
        n = N.sum_axes(self.tonet(a), axes)
        if keepdims:
            sh = [1 if i in axes else s for i, s in enumerate(a.shape)]
            return self.arr(N.reshape(n, sh), a.dtype)
        return self.num_or_arr(n, a.dtype) if n.ndim == 0 else self.arr(n, a.dtype)

    def carr_reduce(self, a, axes, op, keepdims, init):
        keep = [i for i in range(a.ndim) if i not in axes]
        sh = [a.shape[i] for i in keep]
        acc = {}
        for idx in a.indices():
            k = tuple(idx[i] for i in keep)
            v = a.get(idx)
            if isinstance(v, (bool, UnknownBool)):
                v = int(self.I.truth(v))
            acc[k] = v if k not in acc else self.binop(op, acc[k], v)
        for k in itertools.product(*[range(s) for s in sh]):
            acc.setdefault(k, Fraction(init) if a.dtype == "f" else init)
        if keepdims:
            sh2 = [1 if i in axes else s for i, s in enumerate(a.shape)]
            return carr_from(sh2, [acc[tuple(i[j] for j in keep)] for i in itertools.product(*[range(s) for s in sh2])], a.dtype)
        if not sh:
            return acc[()]
        return carr_from(sh, [acc[k] for k in itertools.product(*[range(s) for s in sh])], a.dtype)

    def np_prod(self, a, axis=None, dtype=None, keepdims=False, initial=None):
        if isinstance(a, (int, Fraction, Poly)):
            return a
        if isinstance(a, (GenObj, LazyIter)):
            raise Unsupported("np.prod of an iterator")
        a = self.asarray(a)
        if dtype is not None and isinstance(a, CArr):
            a = self.astype(a, dtype)
        if isinstance(a, CArr):
            r = self.carr_reduce(a, self.red_axes(a, axis), "Mult", keepdims, 1)
            if isinstance(r, int) and not isinstance(r, bool) and a.dtype != "f" and not -2 ** 63 <= r < 2 ** 63:
                r = (r + 2 ** 63) % 2 ** 64 - 2 ** 63      # machine integers wrap around
            return r
        if isinstance(a, NDArr) and all(isinstance(s, int) for s in a.shape):
            return self.carr_reduce(self.net_elements(a), self.red_axes(a, axis), "Mult", keepdims, 1)
        raise Unsupported("np.prod of an array of symbolic shape")

    def np_mean(self, a, axis=None, keepdims=False):
        a = self.asarray(a)
        axes = self.red_axes(a, axis)
        n = self.tot([a.shape[i] for i in axes])
        return self.binop("Div", self.np_sum(a, axis, keepdims), n)

    def count_nonzero(self, a, axis=None):
        a = self.asarray(a)
        if isinstance(a, Mask):
            return self.np_sum(a)
        if isinstance(a, CArr):
            return sum(1 for x in a.flat() if self.I.truth(x))
        s = self.sval_of(a)
        if s is not None:
            return self.sval_count(("svals", s[0], s[1], s[2], "Gt", N.scalar_net(0)))
        if isinstance(a, NDArr) and axis is None:
            n = N.simplify(a.net)
            if not n.terms:
                return 0
            c = P.new_sym(f"nonzeros<{N.key(n)}>", lo=0, op="nonzeros", args=(), base=False)
            P.add_fact(P.psub(self.tot(a.shape), c))
            N.NONZEROS[f"nonzeros<{N.key(n)}>"] = n
            return c
        raise Unsupported("count_nonzero")

    def np_searchsorted(self, a, v, side="left"):
        a = self.asarray(a)
        if isinstance(v, ARR) and v.shape != ():
            raise Unsupported("searchsorted of several values")
        if isinstance(a, CArr) and a.ndim == 1:
            op = "Lt" if side == "left" else "LtE"
            return sum(1 for x in a.flat() if self.I.truth(self.compare(op, x, v)))
        if isinstance(a, NDArr) and a.ndim == 1:
            # singular values are sorted in descending order
            m = self.arr(N.neg(a.net))
            s = self.sval_of(m)
            if s is not None:
                t = N.simplify(self.tonet(self.binop("Mult", v, -1)))
                return self.sval_count(("svals", *s, "Gt" if side == "left" else "GtE", t))
            n = N.simplify(a.net)
            s = None
            if len(n.terms) == 1:
                c, at = n.terms[0]
                fl = [(h, x) for h, x in at if h == ("Flip",) and x[0] == n.axes[0]]
                if len(fl) == 1:
                    s = self.sval_of(self.arr(Net([fl[0][1][1]], [(c, tuple(x for x in at if x is not fl[0] and x != fl[0]))])))
            if s is not None:
                return self.sval_count(("svals", *s, "Lt" if side == "left" else "LtE", N.simplify(self.tonet(v))))
        raise Unsupported("searchsorted")

    def np_all(self, a, axis=None):
        if isinstance(a, (bool, UnknownBool)):
            return a
        if axis is not None:
            raise Unsupported("np.all over an axis")
        if isinstance(a, (GenObj, LazyIter)):
            return True
        a = self.asarray(a)
        if isinstance(a, CArr):
            return all(self.I.truth(x) for x in a.flat())
        if isinstance(a, Mask):
            n = N.simplify(a.net)
            if not n.terms:
                return False
            if len(n.terms) == 1 and n.terms[0] == (N.ONE, ()):
                return True
            return UnknownBool(("all", N.key(n)), "all(...)").on("all", n)
        raise Unsupported("np.all")

    def np_any(self, a, axis=None):
        if isinstance(a, (bool, UnknownBool)):
            return a
        if axis is not None:
            raise Unsupported("np.any over an axis")
        a = self.asarray(a)
        if isinstance(a, CArr):
            return any(self.I.truth(x) for x in a.flat())
        if isinstance(a, Mask):
            n = N.simplify(a.net)
            if not n.terms:
                return False
            return UnknownBool(("any", N.key(n)), "any(...)").on("any", n)
        raise Unsupported("np.any")

    def np_minmax(self, op, a, axis):
        if isinstance(a, (GenObj, LazyIter)):
            raise Unsupported("np.max of iterator")
        a = self.asarray(a)
        if isinstance(a, CArr) and axis is None:
            return self.minmax(op, a.flat(), {})
        if axis is not None:
            raise Unsupported("min or max over an axis")
        if isinstance(a, IntArr):
            raise Unsupported("extreme index")
        n = self.tonet(a)
        k = ("f:" + op, N.key(N.reshape(n, [self.tot(n.shape)])))
        N.SCALS.setdefault(k, {"nonneg": N.manifestly_nonneg(n) if n.ndim == 0 else False, "net": n})
        return self.arr(Net((), [((Fraction(1), ((k, Fraction(1)),)), ())]))

    def cumul(self, op, a, axis):
        a = self.asarray(a)
        if isinstance(a, CArr) and a.ndim == 1:
            out = []
            for x in a.flat():
                out.append(x if not out else self.binop(op, out[-1], x))
            return carr_from(a.shape, out, a.dtype)
        raise Unsupported("cumulative operation")

    def argm(self, op, a):
        a = self.asarray(a)
        if isinstance(a, CArr) and a.ndim == 1:
            best = 0
            for i, x in enumerate(a.flat()):
                if i and self.I.truth(self.compare("Gt" if op == "max" else "Lt", x, a.flat()[best])):
                    best = i
            return best
        raise Unsupported("argmax")

    def argsort(self, a, kind=None):
        a = self.asarray(a)
        if isinstance(a, CArr) and a.ndim == 1 and all(isinstance(x, (int, Fraction)) for x in a.flat()):
            fl = a.flat()
            return carr_from(a.shape, sorted(range(len(fl)), key=lambda i: fl[i]), "i")
        raise Unsupported("argsort")

    def array_equal(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if len(a.shape) != len(b.shape):
            return False
        for x, y in zip(a.shape, b.shape):
            if not self.I.truth(self.compare("Eq", x, y)):
                return False
        if isinstance(a, CArr) and isinstance(b, CArr):
            return all(self.I.truth(self.compare("Eq", x, y)) for x, y in zip(a.flat(), b.flat()))
        d = N.simplify(N.sub(self.tonet(a), self.tonet(b)))
        if not d.terms:
            return True
        return UnknownBool(("eqarr", N.key(d)), "array_equal").on("zero", d)

    def allclose(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        self.bshape(a.shape, b.shape)
        d = N.simplify(N.sub(self.tonet(a), self.tonet(b)))
        if not d.terms:
            return True
        return UnknownBool(("close", N.key(d)), "allclose").on("close", d)

    def np_where(self, *a):
        if len(a) == 1:
            m = a[0]
            if isinstance(m, Mask):
                if len(m.shape) != 1:
                    raise Unsupported("np.where on an n-d mask")
                return (WhereIdx(m),)
            if isinstance(m, CArr) and m.ndim == 1:
                ix = [i for i, x in enumerate(m.flat()) if self.I.truth(x)]
                return (carr_from((len(ix),), ix, "i"),)
            raise Unsupported("np.where")
        c, x, y = a
        if isinstance(c, (bool, UnknownBool)):
            return x if self.I.truth(c) else y
        if isinstance(c, Mask):
            m = self.arr(c.net)
            one = self.binop("Sub", 1, m)
            return self.binop("Add", self.binop("Mult", m, x), self.binop("Mult", one, y))
        raise Unsupported("np.where with three arguments")

    # ------------------------------------------------------------ joining
    def flip(self, a, axis=None):
        a = self.asarray(a)
        nd = len(a.shape)
        axes = self.red_axes(a, axis)
        idx = tuple(SliceObj(None, None, -1) if i in axes else SliceObj(None, None, None) for i in range(nd))
        return self.getitem(a, idx)

    def concatenate(self, xs, axis=0):
        xs = [self.asarray(x) for x in self.I.iterate(xs)]
        if not xs:
            self.throw(ValueError, "need at least one array to concatenate")
        nd = len(xs[0].shape)
        if axis is None:
            xs = [self.reshape(x, [-1]) for x in xs]
            axis = 0
            nd = 1
        if nd == 0:
            self.throw(ValueError, "zero-dimensional arrays cannot be concatenated")
        ax = self.axis_(axis, nd)
        for x in xs[1:]:
            if len(x.shape) != nd:
                self.throw(ValueError, "all the input array dimensions must match exactly")
            for k in range(nd):
                if k != ax:
                    self.check_dim(xs[0].shape[k], x.shape[k], "all the input array dimensions except for the concatenation axis must match exactly")
        if all(isinstance(x, CArr) for x in xs):
            tot = sum(x.shape[ax] for x in xs)
            sh = list(xs[0].shape)
            sh[ax] = tot
            data = {}
            off = 0
            for x in xs:
                for i, v in x.items():
                    j = list(i)
                    j[ax] += off
                    data[tuple(j)] = v
                off += x.shape[ax]
            return CArr(sh, data, "f" if any(x.dtype == "f" for x in xs) else xs[0].dtype)
        if all(isinstance(x, IntStack) for x in xs):
            if ax == 0:
                return IntStack([r for x in xs for r in x.rows], xs[0].cols)
            rows = [self.concatenate(ListObj([x.rows[i] for x in xs])) for i in range(len(xs[0].rows))]
            return IntStack(rows, rows[0].shape[0])
        if all(isinstance(x, IntArr) for x in xs):
            if not all(len(x.comps) == 1 and x.comps[0][0] == 1 and x.const == 0 for x in xs):
                raise Unsupported("concatenation of computed indices")
            V = N.axsize(xs[0].comps[0][1].axes[-1])
            for x in xs:
                if not P.peq(N.axsize(x.comps[0][1].axes[-1]), V):
                    raise Unsupported("concatenation of index ranges")
            n = N.concat([x.comps[0][1] for x in xs], ax)
            return IntArr(n.shape[:-1], [(1, n)])
        nets = [self.tonet(x) for x in xs]
        return self.arr(N.concat(nets, ax))

    def stack(self, xs, axis=0):
        I = self.I
        if isinstance(xs, GenericList):
            if isinstance(xs.elem, (IntArr, IntStack, GIdx, Mask)):
                raise Unsupported("stack of symbolically many index arrays")
            n = self.tonet(xs.elem)
            return self.arr(N.open_param(n, xs.leg, self.cint(axis) % (len(n.axes) + 1)))
        xs0 = list(I.iterate(xs))
        xs = [self.asarray(x) for x in xs0]
        if not xs:
            self.throw(ValueError, "need at least one array to stack")
        nd = len(xs[0].shape)
        for x in xs[1:]:
            if len(x.shape) != nd:
                self.throw(ValueError, "all input arrays must have the same shape")
            for k in range(nd):
                self.check_dim(xs[0].shape[k], x.shape[k], "all input arrays must have the same shape")
        ax = self.cint(axis) % (nd + 1)
        if all(isinstance(x, IntArr) for x in xs) and nd == 1:
            if ax == 0:
                return IntStack(xs, xs[0].shape[0])
            raise Unsupported("stack of index arrays along axis 1")
        if all(isinstance(x, CArr) for x in xs):
            sh = list(xs[0].shape)
            sh.insert(ax, len(xs))
            data = {}
            for q, x in enumerate(xs):
                for i, v in x.items():
                    j = list(i)
                    j.insert(ax, q)
                    data[tuple(j)] = v
            return CArr(sh, data, "f" if any(x.dtype == "f" for x in xs) else xs[0].dtype)
        L = N.mkleg(len(xs))
        res = None
        for q, x in enumerate(xs):
            n = N._undiag(N.fresh(self.tonet(x)))
            axes = list(n.axes)
            axes.insert(ax, L)
            m = Net(axes, [(c, at + (((("Inj", q), ((), L)),) if L else ())) for c, at in n.terms])
            res = m if res is None else N.add(res, m)
        return self.arr(N.simplify(res))

    # ------------------------------------------------------------ products
    def einsum(self, *ops, optimize=False, out=None):
        I = self.I
        if not isinstance(ops[0], str):
            # interleaved form: op0, sub0, op1, sub1, ..., [out]
            arrs, subs = [], []
            i = 0
            while i + 1 < len(ops):
                arrs.append(ops[i])
                subs.append([("e",) if x is ELLIPSIS else x for x in I.iterate(ops[i + 1])])
                i += 2
            outl = [x for x in I.iterate(ops[i])] if i < len(ops) else None
            if any(("e",) in s for s in subs):
                raise Unsupported("einsum ellipsis in list form")
            return self._einsum(arrs, [list(s) for s in subs], outl)
        sub = ops[0].replace(" ", "")
        arrs = list(ops[1:])
        if "->" in sub:
            ins, outs = sub.split("->")
        else:
            ins, outs = sub, None
        ins = ins.split(",")
        if len(ins) != len(arrs):
            self.throw(ValueError, "einsum: number of operands does not match subscripts")
        arrs = [self.asarray(a) for a in arrs]
        labs = []
        ell = 0
        for s, a in zip(ins, arrs):
            nd = len(a.shape)
            if "..." in s:
                pre, post = s.split("...")
                k = nd - len(pre) - len(post)
                if k < 0:
                    self.throw(ValueError, "einstein sum subscripts string contains too many subscripts for operand")
                labs.append(list(pre) + [("...", k - 1 - q) for q in range(k)] + list(post))
                ell = max(ell, k)
            else:
                if len(s) != nd:
                    self.throw(ValueError, f"einsum: operand has {nd} dimensions but subscripts '{s}'")
                labs.append(list(s))
        el = [("...", ell - 1 - q) for q in range(ell)]
        if outs is None:
            cnt = {}
            for s in ins:
                for ch in s.replace("...", ""):
                    cnt[ch] = cnt.get(ch, 0) + 1
            outl = el + sorted(ch for ch, n in cnt.items() if n == 1)
        elif "..." in outs:
            pre, post = outs.split("...")
            outl = list(pre) + el + list(post)
        else:
            if ell:
                self.throw(ValueError, "output had too few broadcast dimensions")
            outl = list(outs)
        r = self._einsum(arrs, labs, outl)
        return self.ufunc_out(r, out)

    def _einsum(self, arrs, labs, outl):
        arrs = [self.asarray(a) for a in arrs]
        sizes = {}
        nets = []
        for a, ls in zip(arrs, labs):
            n = self.tonet(a)
            if len(ls) != n.ndim:
                self.throw(ValueError, "einsum: wrong number of subscripts")
            for l, s in zip(ls, n.shape):
                if l in sizes and not (isinstance(sizes[l], int) and sizes[l] == 1):
                    if not (isinstance(s, int) and s == 1):
                        self.check_dim(sizes[l], s, f"einsum: operands could not be broadcast (index {l})")
                else:
                    sizes[l] = s
            nets.append(n)
        if outl is None:
            raise Unsupported("implicit einsum output")
        for l in outl:
            if l not in sizes:
                self.throw(ValueError, f"einstein sum subscripts string included output subscript '{l}' which never appeared in an input")
        if len(set(outl)) != len(outl):
            self.throw(ValueError, "einstein sum subscripts string includes output subscript multiple times")
        r = N.contract(nets, labs, list(outl))
        return self.num_or_arr(r) if r.ndim == 0 else self.arr(r)

    def _mm(self, a, b, la, lb, out):
        na, nb = self.tonet(a), self.tonet(b)
        r = N.contract([na, nb], [la, lb], out)
        dt = "i" if self.dt_of(a) == "i" and self.dt_of(b) == "i" else "f"
        return self.num_or_arr(N._fold_scal(r), dt) if r.ndim == 0 else self.arr(r, dt)

    def matmul(self, a, b):
        for x in (a, b):
            if isinstance(x, NUM) or x is None or isinstance(x, (str, DictObj)):
                self.throw(TypeError if x is None or isinstance(x, (str, DictObj)) else ValueError, "matmul: Input operand does not have enough dimensions")
        a, b = self.asarray(a), self.asarray(b)
        na, nb = len(a.shape), len(b.shape)
        if na == 0 or nb == 0:
            self.throw(ValueError, "matmul: Input operand does not have enough dimensions")
        ka, kb = a.shape[-1], b.shape[0 if nb == 1 else -2]
        self.check_dim(ka, kb, "matmul: Input operand has a mismatch in its core dimension")
        # numpy does not broadcast the core dimension
        if (isinstance(ka, int) and ka == 1) != (isinstance(kb, int) and kb == 1):
            self.check_dim(ka, kb, "matmul: core dimension")
        la = [("A", na - 1 - i) for i in range(na)]
        lb = [("A", nb - 1 - i) for i in range(nb)]
        la[-1] = "k"
        lb[0 if nb == 1 else -2] = "k"
        if na > 1:
            la[-2] = "m"
        if nb > 1:
            lb[-1] = "n"
        batch = [("A", i) for i in range(max(na, nb) - 1, 1, -1)]
        if na > 2 or nb > 2:
            self.bshape(a.shape[:-2] if na > 2 else (), b.shape[:-2] if nb > 2 else ())
        out = batch + (["m"] if na > 1 else []) + (["n"] if nb > 1 else [])
        return self._mm(a, b, la, lb, out)

    def dot_(self, a, b):
        if isinstance(a, NUM) or isinstance(b, NUM):
            return self.binop("Mult", a, b)
        a, b = self.asarray(a), self.asarray(b)
        if a.shape == () or b.shape == ():
            return self.binop("Mult", a, b)
        na, nb = len(a.shape), len(b.shape)
        self.check_dim(a.shape[-1], b.shape[0 if nb == 1 else -2], "shapes not aligned in dot")
        la = [("a", i) for i in range(na - 1)] + ["k"]
        lb = [("b", i) for i in range(nb)]
        lb[0 if nb == 1 else nb - 2] = "k"
        return self._mm(a, b, la, lb, la[:-1] + [x for x in lb if x != "k"])

    def inner(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape == () or b.shape == ():
            return self.binop("Mult", a, b)
        self.check_dim(a.shape[-1], b.shape[-1], "shapes not aligned in inner")
        la = [("a", i) for i in range(len(a.shape) - 1)] + ["k"]
        lb = [("b", i) for i in range(len(b.shape) - 1)] + ["k"]
        return self._mm(a, b, la, lb, la[:-1] + lb[:-1])

    def outer(self, a, b):
        a, b = self.reshape(self.asarray(a), [-1]), self.reshape(self.asarray(b), [-1])
        return self._mm(a, b, ["a"], ["b"], ["a", "b"])

    def tensordot(self, a, b, axes=2):
        I = self.I
        a, b = self.asarray(a), self.asarray(b)
        na, nb = len(a.shape), len(b.shape)
        if isint(axes):
            k = self.cint(axes)
            ax, bx = list(range(na - k, na)), list(range(k))
        else:
            ax, bx = list(I.iterate(axes))
            ax = [self.axis_(x, na) for x in (I.iterate(ax) if self.iterable(ax) else [ax])]
            bx = [self.axis_(x, nb) for x in (I.iterate(bx) if self.iterable(bx) else [bx])]
        if len(ax) != len(bx):
            self.throw(ValueError, "shape-mismatch for sum")
        la = [("a", i) for i in range(na)]
        lb = [("b", i) for i in range(nb)]
        for q, (i, j) in enumerate(zip(ax, bx)):
            self.check_dim(a.shape[i], b.shape[j], "shape-mismatch for sum")
            la[i] = lb[j] = ("k", q)
        return self._mm(a, b, la, lb, [x for x in la if x[0] == "a"] + [x for x in lb if x[0] == "b"])

    def kron(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        nd = max(len(a.shape), len(b.shape))
        sa = [1] * (nd - len(a.shape)) + list(a.shape)
        sb = [1] * (nd - len(b.shape)) + list(b.shape)
        na, nb = N.reshape(self.tonet(a), sa), N.reshape(self.tonet(b), sb)
        r = N.contract([na, nb], [[("a", i) for i in range(nd)], [("b", i) for i in range(nd)]],
                       [x for i in range(nd) for x in (("a", i), ("b", i))])
        return self.arr(N.reshape(r, [P.pmul(x, y) for x, y in zip(sa, sb)]))

    def multi_dot(self, xs):
        xs = list(self.I.iterate(xs))
        r = xs[0]
        for x in xs[1:]:
            r = self.dot_(r, x)
        return r

    def diag(self, a, k=0):
        a = self.asarray(a)
        if not (isinstance(k, int) and k == 0):
            raise Unsupported("diag offset")
        if isinstance(a, CArr):
            if a.ndim == 1:
                n = a.shape[0]
                return carr_from((n, n), [a.get((i,)) if i == j else Fraction(0) for i in range(n) for j in range(n)], a.dtype)
            n = min(a.shape)
            return carr_from((n,), [a.get((i, i)) for i in range(n)], a.dtype)
        if a.ndim == 1:
            return self.arr(N.diag_from(self.tonet(a)))
        if a.ndim == 2:
            if not P.peq(a.shape[0], a.shape[1]):
                raise Unsupported("diagonal of a rectangular matrix")
            return self.arr(N.diag_of(self.tonet(a)))
        self.throw(ValueError, "Input must be 1- or 2-d.")

    def take(self, a, idx, axis=None, mode="raise"):
        a = self.asarray(a)
        if axis is None:
            a = self.reshape(a, [-1])
            axis = 0
        ax = self.axis_(axis, len(a.shape))
        return self.array_getitem(a, (SliceObj(None, None, None),) * ax + (idx,))

    def ravel_multi_index(self, idx, dims, mode="raise", order="C"):
        I = self.I
        dims = list(self.shape_arg(dims))
        rows = list(idx.rows) if isinstance(idx, IntStack) else list(I.iterate(idx))
        if len(rows) != len(dims):
            self.throw(ValueError, "parameter multi_index must be a sequence of length %d" % len(dims))
        if all(isint(r) for r in rows):
            acc = 0
            for r, n in zip(rows, dims) if order == "C" else zip(rows[::-1], dims[::-1]):
                acc = P.padd(P.pmul(acc, n), r)
            return acc
        ias = [self.as_intarr(self.norm_idx_item(r), n) for r, n in zip(rows, dims)]
        ohs = [self.onehot(ia, n) for ia, n in zip(ias, dims)]
        nd = ohs[0].ndim - 1
        for o in ohs[1:]:
            for k in range(nd):
                self.check_dim(o.shape[k], ohs[0].shape[k], "index arrays of different length")
        x = [("b", q) for q in range(nd)]
        vs = [("v", q) for q in range(len(ohs))]
        m = N.contract(ohs, [x + [v] for v in vs], x + (vs if order == "C" else vs[::-1]))
        axes = list(m.axes[:nd]) + [tuple(l for a in m.axes[nd:] for l in a)]
        return IntArr(ias[0].shape, [(1, Net(axes, m.terms))])

    def unravel_index(self, idx, shape, order="C"):
        dims = list(self.shape_arg(shape))
        if isint(idx):
            out = []
            for n in dims[::-1]:
                out.append(P.pmod(idx, n))
                idx = P.pfloordiv(idx, n)
            return tuple(out[::-1])
        if isinstance(idx, CArr):
            raise Unsupported("unravel_index of small array")
        if not isinstance(idx, IntArr):
            raise Unsupported("unravel_index")
        oh = self.onehot(idx, self.tot(dims))
        nd = oh.ndim - 1
        d2 = dims if order == "C" else dims[::-1]
        m = N.reshape(oh, list(oh.shape[:-1]) + d2)
        out = []
        for q in range(len(dims)):
            qq = q if order == "C" else len(dims) - 1 - q
            labs = list(range(m.ndim))
            out.append(IntArr(idx.shape, [(1, N.contract([m], [labs], labs[:nd] + [nd + qq]))]))
        return tuple(out)

    # ------------------------------------------------------------ linalg
    def matrix_arg(self, a, what):
        a = self.asarray(a)
        if len(a.shape) != 2:
            if len(a.shape) < 2:
                self.throw(ValueError, f"{what}: {len(a.shape)}-dimensional array given. Array must be at least two-dimensional")
            raise Unsupported(f"stacked {what}")
        return a

    def norm(self, a, ord=None, axis=None, keepdims=False, check_finite=True):
        if isinstance(a, InstObj):
            raise Unsupported("norm of a library object")
        a = self.asarray(a)
        if ord is not None and not (isinstance(ord, str) and ord == "fro" and len(a.shape) == 2) and not (
                isinstance(ord, int) and ord == 2 and len(a.shape) == 1):
            n = self.tonet(a)
            k = ("f:norm" + str(ord), N.key(n))
            N.SCALS.setdefault(k, {"nonneg": True, "net": n})
            if axis is not None:
                raise Unsupported("norm ord with axis")
            return self.arr(Net((), [((Fraction(1), ((k, Fraction(1)),)), ())]))
        n = self.tonet(a)
        sq = N.ewise_mul(n, n)
        axes = self.red_axes(a, axis)
        s = N.sum_axes(sq, axes)
        if s.ndim == 0:
            r = N.scal_pow(s, Fraction(1, 2))
            if keepdims:
                return self.arr(N.reshape(r, (1,) * len(a.shape)))
            return self.num_or_arr(r)
        r = self.arr(self.fnet("sqrt", s))
        if keepdims:
            r = self.reshape(r, [1 if i in axes else x for i, x in enumerate(a.shape)])
        return r

    def reg_mat(self, a):
        n = N._undiag(N.fresh(N.simplify(self.tonet(a))))
        k = N.key(n)
        if k not in N.REG:
            N.REG[k] = n
        return k, n

    def qr(self, a, mode="reduced"):
        a = self.matrix_arg(a, "qr")
        if mode == "economic":
            self.throw(ValueError, "Unrecognized mode 'economic'") if False else None
        if mode in ("full", "complete"):
            k, n = self.reg_mat(a)
            m = a.shape[0]
            I_, K = n.axes[0], N.mkleg(m)
            Q = Net((I_, K), [(N.ONE, ((("Qf", k), (I_, K)),))])
            K2 = N.mkleg(m)
            R = Net((K2, n.axes[1]), [(N.ONE, ((("Rf", k), (K2, n.axes[1])),))])
            return (self.arr(Q), self.arr(R))
        if mode not in ("reduced", "r", "economic"):
            raise Unsupported(f"qr mode {mode}")
        k, n = self.reg_mat(a)
        kk = P.pmin(a.shape[0], a.shape[1])
        K = N.mkleg(kk)
        Q = Net((n.axes[0], K), [(N.ONE, ((("Q", k), (n.axes[0], K)),))])
        K2 = N.mkleg(kk)
        R = Net((K2, n.axes[1]), [(N.ONE, ((("R", k), (K2, n.axes[1])),))])
        R = self.arr(R)
        if mode == "r":
            return R
        self.I.event("qr", key=k, m=a.shape[0], n=a.shape[1])
        return (self.arr(Q), R)

    def overwritten(self, a, what):
        """LAPACK works in place on Fortran-ordered arguments and copies the others"""
        if not isinstance(a, NDArr):
            return
        one = a.ndim < 2 or any(isinstance(n, int) and n == 1 for n in a.shape)
        if not (a.fcontig or (one and a.contig)):
            return
        self.note_write(a, what)
        self.opqn = getattr(self, "opqn", 0) + 1
        self.store(a, N.atom_net(("overwritten", self.opqn), a.shape))

    def scipy_qr(self, a, mode="full", overwrite_a=False, pivoting=False, check_finite=True, lwork=None):
        if pivoting is not False:
            raise Unsupported("pivoted qr")
        if mode == "economic":
            return self.qr(a, "reduced")
        if mode == "r":
            return (self.qr(a, "complete")[1],)
        if overwrite_a is not False:
            self.note_write(a, "overwrite_a")
        return self.qr(a, "complete")

    def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
        a = self.matrix_arg(a, "svd")
        k, n = self.reg_mat(a)
        m, nn = a.shape
        kk = P.pmin(m, nn)
        if isinstance(m, int) and m == 0 or isinstance(nn, int) and nn == 0:
            raise Unsupported("svd of an empty matrix")

        def kleg(size):
            K = Leg(INF)
            M = N.mkleg(size)
            return K, M
        K, M = kleg(kk)
        S = N.simplify(Net((M,), [(N.ONE, ((("Inj", 0), (M, (K,))), (("S", k, kk), ((K,),))))]))
        S = self.arr(S)
        if not self.I.truth(compute_uv):
            return S
        fm = self.I.truth(full_matrices)
        K, M = kleg(m if fm else kk)
        U = N.simplify(Net((n.axes[0], M), [(N.ONE, ((("Inj", 0), (M, (K,))), (("U", k), (n.axes[0], (K,)))))]))
        K, M = kleg(nn if fm else kk)
        V = N.simplify(Net((M, n.axes[1]), [(N.ONE, ((("Inj", 0), (M, (K,))), (("V", k), ((K,), n.axes[1]))))]))
        return (self.arr(U), S, self.arr(V))

    def pinv_net(self, a, cond="default"):
        """pseudo-inverse net [J, I] with canonical orientation"""
        n = N._undiag(N.fresh(N.simplify(self.tonet(a))))
        if not n.terms:
            return N.transpose(n, [1, 0])
        nt = N._undiag(N.fresh(N.simplify(N.transpose(n, [1, 0]))))
        k, kt = N.key(n), N.key(nt)
        # pull out a scalar coefficient
        c = N.ONE
        if len(n.terms) == 1 and n.terms[0][0] != N.ONE and n.terms[0][0][0] != 0:
            c = N.cpow(n.terms[0][0], -1)
            n = Net(n.axes, [(N.ONE, n.terms[0][1])])
            nt = Net(nt.axes, [(N.ONE, nt.terms[0][1])])
            k, kt = N.key(n), N.key(nt)
        if kt < k:
            N.REG[kt] = nt
            # pinv(A) = pinv(A^T)^T : head P for A^T has args (J', I') = (rowsof A.., )
            A_rows, A_cols = n.axes
            at = (("P", kt, cond), (tuple(Leg(l.size) for l in A_rows), tuple(Leg(l.size) for l in A_cols)))
            return Net((at[1][1], at[1][0]), [(c, (at,))])
        N.REG[k] = n
        A_rows, A_cols = n.axes
        J = tuple(Leg(l.size) for l in A_cols)
        I_ = tuple(Leg(l.size) for l in A_rows)
        return Net((J, I_), [(c, ((("P", k, cond), (J, I_)),))])

    def condkey(self, c):
        if c is None or isinstance(c, str):
            return "default"
        if isinstance(c, NUM):
            return repr(c)
        return N.key(self.tonet(c))

    def pinv(self, a, rcond=None, hermitian=False, rtol=None):
        a = self.matrix_arg(a, "pinv")
        return self.arr(self.pinv_net(a, self.condkey(rcond if rcond is not None else rtol)))

    def square(self, a, what):
        a = self.matrix_arg(a, what)
        self.check_dim(a.shape[0], a.shape[1], f"{what}: Last 2 dimensions of the array must be square")
        return a

    def inv_net(self, a):
        n = N._undiag(N.fresh(N.simplify(self.tonet(a))))
        if len(n.terms) == 1 and len(n.terms[0][1]) == 1:
            c, ((h, args),) = n.terms[0]
            # inverse of a scaled identity
            if h[0] == "I":
                return Net(n.axes, [(N.cpow(c, -1), n.terms[0][1])])
        if all(not x for x in n.axes):
            return N.reshape(N.scal_recip(N.reshape(n, ())), (1, 1))
        nt = N._undiag(N.fresh(N.simplify(N.transpose(n, [1, 0]))))
        c = N.ONE
        if len(n.terms) == 1 and n.terms[0][0] != N.ONE:
            c = N.cpow(n.terms[0][0], -1)
            n = Net(n.axes, [(N.ONE, n.terms[0][1])])
            nt = Net(nt.axes, [(N.ONE, nt.terms[0][1])])
        # triangular factor of a QR
        if len(n.terms) == 1 and len(n.terms[0][1]) == 1:
            h, args = n.terms[0][1][0]
            if h[0] == "R" and N._same_legs(args[0], n.axes[0]) and N._same_legs(args[1], n.axes[1]):
                J = tuple(Leg(l.size) for l in n.axes[1])
                K = tuple(Leg(l.size) for l in n.axes[0])
                return Net((J, K), [(c, ((("Rinv", h[1]), (J, K)),))])
            if h[0] == "R" and N._same_legs(args[1], n.axes[0]) and N._same_legs(args[0], n.axes[1]):
                J = tuple(Leg(l.size) for l in n.axes[0])
                K = tuple(Leg(l.size) for l in n.axes[1])
                return Net((K, J), [(c, ((("Rinv", h[1]), (J, K)),))])
        k, kt = N.key(n), N.key(nt)
        J = tuple(Leg(l.size) for l in n.axes[1])
        I_ = tuple(Leg(l.size) for l in n.axes[0])
        if kt < k:
            N.REG[kt] = nt
            return Net((J, I_), [(c, ((("Inv", kt), (I_, J)),))])
        N.REG[k] = n
        return Net((J, I_), [(c, ((("Inv", k), (J, I_)),))])

    def inv(self, a):
        return self.arr(self.inv_net(self.square(a, "inv")))

    def solve(self, a, b):
        a = self.square(a, "solve")
        return self.matmul(self.arr(self.inv_net(a)), self.asarray(b))

    def scipy_solve(self, a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a="gen", transposed=False):
        if self.I.truth(transposed):
            a = self.transpose(self.asarray(a), None)
        return self.solve(a, b)

    def solve_triangular(self, a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
        a = self.square(a, "solve_triangular")
        n = N.simplify(self.tonet(a))
        tri = None
        if len(n.terms) == 1 and len(n.terms[0][1]) == 1:
            h, args = n.terms[0][1][0]
            if h[0] == "R" and N._same_legs(args[0], n.axes[0]):
                tri = "upper"
            elif h[0] == "R" and N._same_legs(args[1], n.axes[0]):
                tri = "lower"
        low = self.I.truth(lower)
        if unit_diagonal is not False and self.I.truth(unit_diagonal):
            # the stored diagonal is not read
            n = N.add(N.sub(n, N.diag_from(N.diag_of(n))), N.eye_net(n.shape[0]))
            a, tri = self.arr(n), (None if tri is None else "unit " + tri)
        if tri in ("unit upper", "unit lower") and (tri == "unit lower") == low:
            tri = "unit"
        elif tri is not None and tri.startswith("unit"):
            return self.asarray(b)
        if tri is not None and (tri == "lower") != low:
            # solver reads the other (zero) triangle: only the diagonal is used
            k = N.key(n)
            N.REG[k] = n
            d = N.diag_of(n)
            r = self.binop("Div", self.asarray(b), self.reshape(self.arr(d), [-1] + [1] * (len(self.asarray(b).shape) - 1)))
            return r
        if tri is None:
            a = self.arr(self.fnet("tril" if low else "triu", n))
        if trans in (1, "T", 2, "C"):
            a = self.transpose(a, None)
        elif trans not in (0, "N"):
            raise Unsupported("solve_triangular trans")
        return self.matmul(self.arr(self.inv_net(a)), self.asarray(b))

    def scipy_lstsq(self, a, b, cond=None, overwrite_a=False, overwrite_b=False, check_finite=True, lapack_driver=None):
        for ow, x in ((overwrite_a, a), (overwrite_b, b)):
            if ow is not False and self.I.truth(ow):
                self.note_write(x, "overwrite")
        return self.lstsq(a, b, cond)

    def lstsq(self, a, b, rcond=None):
        I = self.I
        a, b = self.asarray(a), self.asarray(b)
        if isinstance(a, CArr) and isinstance(b, CArr):
            return self.small_lstsq(a, b)
        a = self.matrix_arg(a, "lstsq")
        self.check_dim(a.shape[0], b.shape[0], "lstsq: Incompatible dimensions")
        x = self.matmul(self.arr(self.pinv_net(a, self.condkey(rcond))), b)
        self.ambient += 1
        resid = self.arr(N.atom_net(("resid", self.ambient), (P.new_sym(f"nres{self.ambient}", lo=0, base=False),)))
        rank = P.new_sym(f"lrank{self.ambient}", lo=0, base=False)
        sv = self.arr(N.atom_net(("lsv", self.ambient), (P.pmin(*a.shape),)))
        return (x, resid, rank, sv)

    def small_lstsq(self, a, b):
        """least squares with a concrete (Hessenberg) matrix of scalars: the
        minimiser is an opaque vector determined by the data, the residual
        array is the *squared* residual norm, present only when the matrix has
        full column rank and more rows than columns"""
        I = self.I
        m, n = a.shape
        kk = N.key(N.add(N.zero_net((m, n)), self.carr_net(a))) + "/" + N.key(N.add(N.zero_net(b.shape), self.carr_net(b)))
        import hashlib
        kk = hashlib.sha1(kk.encode()).hexdigest()[:12]
        if len(b.shape) != 1:
            raise Unsupported("small lstsq with several right-hand sides")
        ys = [self.arr(N.scal_var(f"lsq{kk}.y{i}")) for i in range(n)]
        y = carr_from((n,), ys, "f")
        I.event("small_lstsq", a=a, b=b, y=y, key=kk)
        full = UnknownBool(("lsqfull", kk), "least-squares matrix has full column rank")
        if m > n and I.truth(full):
            # residual in numpy/scipy is the squared 2-norm
            r = self.arr(N.scal_var(f"lsq{kk}.res2", nonneg=True))
            scalar = a is not None and getattr(self, "scipy_call", True)
            resid = carr_from((1,), [r], "f")
            resid.lsq = kk
        else:
            resid = carr_from((0,), [], "f")
        rank = P.new_sym(f"lsq{kk}.rank", lo=0, base=False)
        sv = self.arr(N.atom_net(("lsv", kk), (min(m, n),)))
        return (y, resid, rank, sv)
