"""Model of numpy arrays: indexing, views, writes, elementwise operations."""
from __future__ import annotations

import itertools
from fractions import Fraction

import net as N
import poly as P
from net import INF, Leg, Net, ShapeError, Unsupported
from npfuncs import NumpyFuncs
from poly import Poly
from values import *

NUM = (int, Poly, Fraction, float)
ARR = (NDArr, CArr, IntArr, IntStack, Mask)


def isint(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


class NumpyModel(NumpyFuncs):
    # ------------------------------------------------------------ conversion
    def arr(self, net, dtype="f", **kw):
        a = NDArr(net, dtype=dtype, origin=self.I.loc() if self.I else None, **kw)
        self.I.clock += 1
        a.created = self.I.clock
        return a

    def tonet(self, v):
        """any numeric abstract value -> Net"""
        if isinstance(v, NDArr):
            if v.pending is not None:
                raise Unsupported("read of an array while a symbolic loop fills it")
            return v.net
        if isinstance(v, bool):
            return N.scalar_net(int(v))
        if isinstance(v, (int, Poly, Fraction)):
            return N.scalar_net(v)
        if isinstance(v, float):
            raise Unsupported("infinite value in array arithmetic")
        if isinstance(v, CArr):
            return self.carr_net(v)
        if isinstance(v, Mask):
            return v.net
        if isinstance(v, UnknownBool):
            return N.scalar_net(int(self.I.truth(v)))
        if isinstance(v, (ListObj, tuple)):
            return self.tonet(self.asarray(v))
        if isinstance(v, IntArr):
            return self.intarr_net(v)
        if isinstance(v, GIdx):
            return N.add(self.idx_net(v.leg, param=True), N.scalar_net(v.off))
        raise Unsupported(f"numeric value of {type(v).__name__}")

    def idx_net(self, leg, param=False):
        """the value of a position itself (0-d net for a param leg)"""
        if param:
            return Net((), [(N.ONE, ((("idx",), ((leg,),)),))])
        return Net(((leg,),), [(N.ONE, ((("idx",), ((leg,),)),))])

    def intarr_net(self, v):
        out = N.const_net(v.shape, v.const)
        for c, n in v.comps:
            val = n.axes[-1]
            if len(val) > 1:
                n = N.merge_axis(n, n.ndim - 1)
                val = n.axes[-1]
            m = N.contract([n, self.idx_net(Leg(N.axsize(val)))] if val else [n],
                           [list(range(n.ndim)), [n.ndim - 1]] if val else [list(range(n.ndim))],
                           list(range(n.ndim - 1)))
            if not val:
                m = N.zero_net(v.shape)
            out = N.add(out, N.scale(m, N.poly_terms(c)))
        return out

    def carr_net(self, v):
        vals = v.flat()
        sh = v.shape
        if not vals:
            return N.zero_net(sh)
        nets = [self.tonet(x) for x in vals]
        for n in nets:
            if n.ndim != 0:
                raise Unsupported("object array")
        k0 = N.key(nets[0])
        if all(N.key(n) == k0 for n in nets):
            if not sh:
                return nets[0]
            return N.broadcast_to(nets[0], sh)
        res = N.zero_net(sh)
        axes = res.axes
        terms = []
        for idx, n in zip(v.indices(), nets):
            pos = tuple((("Inj", i), ((), ax)) for i, ax in zip(idx, axes) if ax)
            for c, at in n.terms:
                terms.append((c, tuple(at) + pos))
        return N.simplify(Net(axes, terms))

    def net_as_poly(self, a):
        """exact symbolic integer value of a 0-d array, or None"""
        n = a.net if isinstance(a, NDArr) else a
        if n.ndim != 0:
            if all(isinstance(s, int) and s == 1 for s in n.shape):
                n = N.reshape(n, ())
            else:
                return None
        n = N.simplify(n)
        out = 0
        for c, at in n.terms:
            if at or c[0].denominator != 1:
                return None
            m = int(c[0])
            for k, e in c[1]:
                if k[0] != "sym" or e.denominator != 1 or e < 0:
                    return None
                s = P.new_sym(k[1]) if k[1] in P.CTX.syms or k[1] in P.CTX.subst else None
                if s is None:
                    return None
                m = P.pmul(m, P.ppow(s, int(e)))
            out = P.padd(out, m)
        return out

    SCALTAINT = {}
    RNDTAINT = {}
    SSREG = {}

    def net_taints(self, net, _seen=None):
        seen = _seen if _seen is not None else set()
        if id(net) in seen:
            return frozenset()
        seen.add(id(net))
        t = frozenset()
        for c, at in net.terms:
            for k, e in c[1]:
                t |= self.SCALTAINT.get(k, frozenset())
                if k[0] == "sym" and k[1] in P.CTX.syms:
                    t |= P.CTX.syms[k[1]].taints
                n = N.SCALS.get(k, {}).get("net")
                if n is not None:
                    t |= self.net_taints(n, seen)
            for h, args in at:
                t |= self.RNDTAINT.get(h, frozenset())
                for x in h[1:]:
                    if isinstance(x, (Poly,)):
                        t |= P.taints_of(x)
                    n = N.REG.get(x) if isinstance(x, (str, tuple)) else None
                    if n is None and h[0] == "Sel":
                        n = N.MASKS.get(x)
                    if n is not None:
                        t |= self.net_taints(n, seen)
        for s in net.shape:
            if s is not INF:
                t |= P.taints_of(s)
        return t

    def arr_or_num(self, v):
        return v

    def num_or_arr(self, net, dtype="f"):
        """0-d net -> Fraction when constant, else array scalar"""
        if net.ndim == 0:
            n = N.simplify(net)
            if not n.terms:
                return Fraction(0)
            if len(n.terms) == 1 and not n.terms[0][1] and not n.terms[0][0][1]:
                return n.terms[0][0][0]
        return self.arr(net, dtype)

    def scal_fn(self, name, v):
        """function of a scalar / array, elementwise"""
        if isinstance(v, CArr):
            return carr_from(v.shape, [self.scal_fn(name, x) for x in v.flat()], v.dtype)
        if isinstance(v, float):
            import math
            if name == "sqrt":
                if v < 0:
                    return float("nan")
                return math.sqrt(v)
            if name == "abs":
                return abs(v)
            if name == "square":
                return v * v
        if isinstance(v, (ListObj, tuple)):
            v = self.asarray(v)
            if isinstance(v, CArr):
                return self.scal_fn(name, v)
        n = self.tonet(v)
        if n.ndim == 0 or all(not a for a in n.axes):
            nd = n.ndim
            n0 = N.reshape(n, ()) if nd else n
            if name == "sqrt":
                r = N.scal_pow(n0, Fraction(1, 2))
            elif name == "abs":
                r = N.scal_abs(n0)
            elif name == "recip":
                r = N.scal_recip(n0)
            elif name == "square":
                r = N.ewise_mul(n0, n0)
            else:
                k = ("f:" + name, N.key(n0))
                N.SCALS.setdefault(k, {"nonneg": name in ("exp",), "net": n0})
                r = Net((), [((Fraction(1), ((k, Fraction(1)),)), ())])
            if nd:
                r = N.reshape(r, (1,) * nd)
                return self.arr(r)
            return self.num_or_arr(r)
        if name == "square":
            return self.arr(N.ewise_mul(n, n))
        return self.arr(self.fnet(name, n))

    def fnet(self, name, n):
        """elementwise function of a non-scalar net"""
        n = N.simplify(n)
        if name in ("sqrt", "abs") and not n.terms:
            return n
        if not any(at for c, at in n.terms):
            # constant over the array
            base = Net((), n.terms)
            r = self.tonet(self.scal_fn(name, self.arr(base)))
            return N.broadcast_to(r, n.shape)
        n = N._undiag(N.fresh(n))
        scale = None
        if name in ("sqrt", "abs") and len(n.terms) == 1 and n.terms[0][0] != N.ONE:
            c = n.terms[0][0]
            base = Net((), [(c, ())])
            if name == "abs" or N.manifestly_nonneg(base):
                scale = N.scal_pow(base, Fraction(1, 2)) if name == "sqrt" else N.scal_abs(base)
                n = Net(n.axes, [(N.ONE, n.terms[0][1])])
        k = N.key(n)
        N.REG[k] = n
        out = Net(n.axes, [(N.ONE, ((("fn", name, k), n.axes),))])
        if scale is not None:
            out = N.ewise_mul(out, scale)
        return out

    def ceil_scalar(self, v):
        p = self.net_as_poly(v) if isinstance(v, NDArr) else None
        if p is not None:
            return p
        q = self.ratio(v)
        if q is not None:
            return P.pceil_div(*q)
        return self.opq_int("ceil", v, lo=0 if N.manifestly_nonneg(self.tonet(v)) else None)

    def floor_scalar(self, v):
        p = self.net_as_poly(v) if isinstance(v, NDArr) else None
        if p is not None:
            return p
        q = self.ratio(v)
        if q is not None:
            return P.pfloordiv(*q)
        return self.opq_int("floor", v)

    def ratio(self, v):
        """scalar net a/b with polynomials a, b -> (a, b)"""
        n = N.simplify(self.tonet(v))
        if n.ndim != 0 or len(n.terms) == 0:
            return None
        den = 1
        for c, at in n.terms:
            if at:
                return None
            d = c[0].denominator
            m = d
            for k, e in c[1]:
                if e.denominator != 1:
                    return None
                if e < 0:
                    if k[0] == "sym":
                        b = P.new_sym(k[1])
                    elif k[0] == "net":
                        b = self.net_as_poly(N.SCALS[k]["net"])
                        if b is None:
                            return None
                    else:
                        return None
                    m = P.pmul(m, P.ppow(b, int(-e)))
            if P.exact_div(den, m) is None:
                den = m if P.exact_div(m, den) is not None else P.pmul(den, m)
        num = N._fold_scal(N.ewise_mul(n, N.scalar_net(den)))
        num2 = []
        for c, at in num.terms:
            d = {}
            for k, e in c[1]:
                d[k] = d.get(k, 0) + e
            num2.append((c, at))
        p = self.net_as_poly(Net((), num2))
        if p is None:
            return None
        return p, den

    def isfinite_(self, v, which):
        if isinstance(v, float):
            import math
            return {"isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite}[which](v)
        return which == "isfinite"

    # ------------------------------------------------------------ frozen / writes
    def root_frozen(self, a):
        if isinstance(a, (NDArr, CArr)):
            return a.root().frozen
        return getattr(a, "frozen", None)

    def note_write(self, a, what, op="other"):
        f = self.root_frozen(a)
        if f:
            self.I.event("mutation", label=f, what=what)

    writes = None

    def store(self, a, net, outer=True):
        """overwrite the value of an array (through views)"""
        if outer and self.writes is not None:
            self.writes.append((a, self.worker))
        if a.view is not None:
            par, get, put = a.view
            if put is None:
                raise Unsupported("write through a derived view")
            self.store(par, put(par.net, net), outer=False)
            a.version += 1
            return
        I = self.I
        if I.loops:
            old, oldv = a._net, a.version

            def undo():
                a._net = old
                a.version += 1
            I.loops[-1].journal.append(undo)
            for lc in I.loops:
                if a.created <= lc.clock:
                    lc.written.append((a, "other"))
        a._net = net
        a.version += 1

    def carr_store(self, a, idx, v):
        if self.I.loops:
            raise Unsupported("write to a small array in a symbolic loop")
        a.set(idx, v)

    # ------------------------------------------------------------ shapes
    def shape_err(self, a, b, msg):
        if P.cmp_eq(a, b) is False or P.generically_different(a, b):
            self.throw(ValueError, f"{msg}: {a} vs {b}")
        import numeval
        if numeval.sizes_only(a) and numeval.sizes_only(b) and numeval.ints_differ(a, b):
            self.throw(ValueError, f"{msg}: {a} vs {b}")
        raise Unsupported(f"undecided size agreement {a} vs {b} ({msg})")

    def check_dim(self, a, b, msg="shape mismatch"):
        if P.peq(a, b) or P.cmp_eq(a, b) is True:
            return
        self.shape_err(a, b, msg)

    def bshape(self, s1, s2):
        """broadcast shapes"""
        n = max(len(s1), len(s2))
        a = (1,) * (n - len(s1)) + tuple(s1)
        b = (1,) * (n - len(s2)) + tuple(s2)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            else:
                self.check_dim(x, y, "operands could not be broadcast together")
                out.append(x)
        return tuple(out)

    def tot(self, shape):
        r = 1
        for s in shape:
            r = P.pmul(r, s)
        return r

    def dim(self, v):
        """value usable as an array dimension"""
        if isinstance(v, bool):
            return int(v)
        if isint(v):
            return v
        if isinstance(v, NDArr):
            p = self.net_as_poly(v)
            if p is not None and v.dtype == "i":
                return p
            raise Unsupported("dimension computed from array data")
        if isinstance(v, CArr) and len(v.indices_list()) == 1:
            return self.dim(v.flat()[0])
        if isinstance(v, (Fraction, float)) or v is None:
            self.throw(TypeError, f"'{self.typename(v)}' object cannot be interpreted as an integer")
        raise Unsupported(f"dimension {type(v).__name__}")

    def shape_arg(self, v):
        if isinstance(v, (tuple, ListObj, RangeObj, GenObj, LazyIter)) or isinstance(v, CArr) and v.ndim == 1:
            return tuple(self.dim(x) for x in self.I.iterate(v))
        return (self.dim(v),)

    def reshape(self, a, shape, order="C"):
        if order not in ("C", None):
            if order == "F" and isinstance(a, (NDArr, CArr)):
                t = self.transpose(a, None)
                r = self.reshape(t, list(shape)[::-1])
                return self.transpose(r, None)
            raise Unsupported("reshape order")
        shape = [self.dim(s) for s in shape]
        if isinstance(a, IntArr):
            return self.reshape_int(a, shape)
        if isinstance(a, IntStack):
            if len(shape) < 2:
                raise Unsupported("reshape of an index stack")
            rest = list(shape[1:])
            if isinstance(shape[0], int) and shape[0] == -1:
                if any(isinstance(s, int) and s == -1 for s in rest) or not P.peq(self.tot(rest), self.tot(a.rows[0].shape)):
                    raise Unsupported("reshape of an index stack")
            elif not (isinstance(shape[0], int) and shape[0] == len(a.rows)):
                raise Unsupported("reshape of an index stack")
            rows = [self.reshape(r, list(rest)) for r in a.rows]
            return IntStack(rows, rows[0].shape[0] if rows else None, frozen=a.frozen)
        total = self.tot(a.shape)
        unk = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(unk) > 1:
            self.throw(ValueError, "can only specify one unknown dimension")
        if unk:
            rest = self.tot([s for i, s in enumerate(shape) if i != unk[0]])
            q = P.exact_div(total, rest) if not (isinstance(rest, int) and rest == 0) else None
            if q is None:
                if isinstance(total, int) and isinstance(rest, int):
                    self.throw(ValueError, "cannot reshape array")
                if isinstance(total, int) and total == 0:
                    q = 0
                else:
                    q = self.cancel_div(total, rest)
                    if q is None:
                        if P.base_only(total) and P.base_only(rest):
                            self.throw(ValueError, f"cannot reshape array of size {total} into blocks of {rest}")
                        raise Unsupported(f"reshape {total} by {rest}")
            shape[unk[0]] = q
        else:
            want = self.tot(shape)
            if not P.peq(want, total):
                self.check_dim(total, want, "cannot reshape array of size")
        if isinstance(a, CArr):
            if a.view is None or True:
                if all(isinstance(s, int) for s in shape):
                    return carr_from(shape, a.flat(), a.dtype)
            return self.reshape(self.arr(self.tonet(a)), shape)
        if isinstance(a, Mask):
            return Mask(N.reshape(a.net, shape))
        oldshape = a.shape
        if a.contig:
            return self.mkview(a, lambda n: N.reshape(n, shape), lambda p, v: N.reshape(v, oldshape), True)
        r = self.arr(N.reshape(a.net, shape), a.dtype)
        return r

    def cancel_div(self, total, rest):
        return None

    def mkview(self, a, get, put, contig):
        self.tonet(a)
        v = NDArr(None, a.dtype, self.I.loc(), view=(a, get, put), contig=contig)
        v.aux = None
        self.I.clock += 1
        v.created = self.I.clock
        try:
            v.net
        except ShapeError as e:
            self.throw(ValueError, str(e))
        return v

    def transpose(self, a, perm):
        nd = len(a.shape)
        if perm is None:
            perm = list(range(nd))[::-1]
        perm = [self.cint(p) for p in perm]
        perm2 = [p + nd if p < 0 else p for p in perm]
        if sorted(perm2) != list(range(nd)):
            if len(perm2) != nd:
                self.throw(ValueError, "axes don't match array")
            self.throw(ValueError, "repeated or invalid axis in transpose")
        perm = perm2
        if isinstance(a, CArr):
            sh = [a.shape[p] for p in perm]
            idx = list(itertools.product(*[range(s) for s in sh]))

            def f(i):
                o = [0] * nd
                for q, p in enumerate(perm):
                    o[p] = i[q]
                return tuple(o)
            return CArr(sh, None, a.dtype, view=(a, f))
        if isinstance(a, Mask):
            return Mask(N.transpose(a.net, perm))
        if isinstance(a, IntStack):
            raise Unsupported("transpose of an index stack")
        if isinstance(a, IntArr):
            return IntArr([a.shape[p] for p in perm],
                          [(c, N.transpose(n, perm + [nd])) for c, n in a.comps], a.const, a.dtype)
        inv = [0] * nd
        for q, p in enumerate(perm):
            inv[p] = q
        big = [p for p in perm if not (isinstance(a.shape[p], int) and a.shape[p] == 1)]
        contig = a.contig and big == sorted(big)
        v = self.mkview(a, lambda n: N.transpose(n, perm), lambda p, v: N.transpose(v, inv), contig)
        v.fcontig = (a.contig and big == sorted(big)[::-1]) or (a.fcontig and big == sorted(big))
        return v

    # ------------------------------------------------------------ attributes
    def array_attr(self, o, name):
        I = self.I
        sh = tuple(o.shape)
        if name == "shape":
            return sh
        if name == "ndim":
            return len(sh)
        if name == "size":
            return self.tot(sh)
        if name == "T":
            if len(sh) < 2:
                return o
            return self.transpose(o, None)
        if name == "dtype":
            return NativeObj("dtype", dt=self.dt_of(o))
        if name == "flat":
            return self.reshape(o, [-1])
        if name == "real":
            return o
        if name == "nbytes":
            return P.pmul(8, self.tot(sh))
        if name == "itemsize":
            return 8
        if name == "base":
            if isinstance(o, NDArr):
                return o.view[0] if o.view else None
            raise Unsupported("ndarray.base")
        if name == "flags":
            return NativeObj("flags", contig=getattr(o, "contig", True))
        if name == "reshape":
            def rs(a, k):
                order = k.pop("order", "C")
                if k:
                    raise Unsupported("reshape keywords")
                if len(a) == 1 and not isint(a[0]) and self.iterable(a[0]):
                    a = list(I.iterate(a[0]))
                return self.reshape(o, list(a), order)
            return NativeFn("reshape", rs)
        if name == "transpose":
            def tr(a, k):
                if len(a) == 1 and not isint(a[0]) and a[0] is not None:
                    a = list(I.iterate(a[0]))
                if not a or a[0] is None:
                    a = None
                return self.transpose(o, a)
            return NativeFn("transpose", tr)
        if name == "astype":
            return NativeFn("astype", lambda a, k: self.astype(o, a[0]))
        if name == "copy":
            return NativeFn("copy", lambda a, k: self.copy_(o))
        if name == "item":
            def item(a, k):
                x = self.getitem(o, a[0] if len(a) == 1 else tuple(a)) if a else self.reshape(o, [])
                return self.item_of(x)
            return NativeFn("item", item)
        if name == "tolist":
            def tl(a, k):
                if isinstance(o, CArr):
                    def rec(pre, s):
                        if not s:
                            return o.get(tuple(pre))
                        return ListObj([rec(pre + [i], s[1:]) for i in range(s[0])])
                    return rec([], list(o.shape))
                if isinstance(o, NDArr) and o.ndim == 0:
                    return self.item_of(o)
                raise Unsupported("tolist of symbolic array")
            return NativeFn("tolist", tl)
        if name == "fill":
            def fill(a, k):
                self.array_setitem(o, ELLIPSIS, a[0])
            return NativeFn("fill", fill)
        if name == "resize":
            raise Unsupported("resize")
        npname = {"ravel": "ravel", "flatten": "flatten_", "dot": "dot", "sum": "sum", "prod": "prod",
                  "mean": "mean", "squeeze": "squeeze", "swapaxes": "swapaxes", "all": "all", "any": "any",
                  "diagonal": "diagonal", "trace": "trace", "take": "take", "cumsum": "cumsum",
                  "cumprod": "cumprod", "max": "max", "min": "min", "conj": "conj_", "conjugate": "conj_",
                  "round": "round", "clip": "clip", "argsort": "argsort", "nonzero": "nonzero",
                  "repeat": "repeat", "argmax": "argmax", "argmin": "argmin", "std": "std", "var": "var"}.get(name)
        if npname is not None:
            f = self.npf.get(npname)
            if f is None:
                raise Unsupported(f"ndarray.{name}")
            return NativeFn(name, lambda a, k: f.fn([o] + list(a), k))
        if name.startswith("__") and name.endswith("__"):
            op = {v: k for k, v in self.OPN.items()}.get(name.strip("_"))
            if op:
                return NativeFn(name, lambda a, k: self.binop(op, o, a[0]))
            if name == "__len__":
                return NativeFn(name, lambda a, k: self.length(o))
            if name == "__getitem__":
                return NativeFn(name, lambda a, k: self.array_getitem(o, a[0]))
            if name == "__setitem__":
                return NativeFn(name, lambda a, k: self.array_setitem(o, a[0], a[1]))
        if name == "sort":
            def srt(a, k):
                if isinstance(o, CArr) and o.ndim == 1:
                    vals = self.sort_(o.flat())
                    self.note_write(o, "sort")
                    for i, v in enumerate(vals):
                        o.set((i,), v)
                    return None
                raise Unsupported("sort of symbolic array")
            return NativeFn("sort", srt)
        if self.known("ndarray", name):
            raise Unsupported(f"ndarray.{name}")
        return None

    def dt_of(self, o):
        if isinstance(o, NDArr):
            return o.dtype
        if isinstance(o, (IntArr, IntStack)):
            return "i"
        if isinstance(o, Mask):
            return "b"
        if isinstance(o, CArr):
            return o.dtype
        return "f"

    def item_of(self, x):
        if isinstance(x, NDArr):
            if x.ndim:
                if all(isinstance(s, int) and s == 1 for s in x.shape):
                    x = self.arr(N.reshape(x.net, ()), x.dtype)
                else:
                    self.throw(ValueError, "can only convert an array of size 1 to a Python scalar")
            return self.num_or_arr(x.net, x.dtype)
        if isinstance(x, CArr):
            if len(x.indices_list()) != 1:
                self.throw(ValueError, "can only convert an array of size 1 to a Python scalar")
            return x.flat()[0]
        return x

    def copy_(self, o):
        if isinstance(o, NDArr):
            return self.arr(self.tonet(o), o.dtype)
        if isinstance(o, CArr):
            return carr_from(o.shape, o.flat(), o.dtype)
        if isinstance(o, IntArr):
            return IntArr(o.shape, o.comps, o.const, o.dtype)
        if isinstance(o, IntStack):
            return IntStack([self.copy_(r) for r in o.rows], o.cols)
        return o

    def dtcode(self, t):
        """dtype argument -> 'f','i','b','o'"""
        if t is None:
            return None
        if isinstance(t, NativeObj) and t.kind == "dtype":
            return t.dt
        nm = t if isinstance(t, str) else getattr(t, "name", "")
        nm = nm.lower()
        if nm.startswith(("float", "double", "half", "single", "f4", "f8", "<f")):
            return "f"
        if nm.startswith(("int", "uint", "long", "short", "i4", "i8", "u8", "intp", "byte", "ubyte")):
            return "i"
        if nm.startswith("bool"):
            return "b"
        if nm == "object":
            return "o"
        raise Unsupported(f"dtype {t!r}")

    def astype(self, o, t):
        dt = self.dtcode(t)
        if isinstance(o, (IntArr, IntStack)):
            if dt == "f":
                return self.arr(self.tonet(o), "f")
            return self.copy_(o)
        if isinstance(o, Mask):
            if dt == "b":
                return o
            return self.arr(o.net, dt)
        if isinstance(o, CArr):
            return carr_from(o.shape, [self.cast_scalar(x, t) for x in o.flat()], dt)
        if isinstance(o, NDArr):
            if dt == "i" and o.dtype == "f":
                nm = getattr(t, "name", str(t))
                return self.arr(self.fnet("trunc", o.net), "i")
            if dt == "f" and getattr(t, "name", t) in ("float32", "half", "single", "float16"):
                return self.arr(self.fnet("f32", o.net), "f")
            return self.arr(self.tonet(o), dt)
        raise Unsupported("astype")

    def cast_scalar(self, v, t):
        if isinstance(t, str):
            t = self.T.get(t) or self.npT.get(t)
        dt = self.dtcode(t)
        nm = getattr(t, "name", "")
        if dt == "f":
            if isinstance(v, Poly):
                return self.arr(self.tonet(v))
            return self.c_float([v], {})
        if dt == "i":
            r = self.c_int([v], {})
            bits = {"uint64": 64, "uint32": 32, "uint16": 16, "uint8": 8, "uint": 64, "ulonglong": 64, "uintc": 32}.get(nm)
            if bits and isint(r):
                if isinstance(r, int) and not 0 <= r < 2 ** bits:
                    self.throw(OverflowError, "Python integer out of bounds")
            sb = {"int64": 63, "int_": 63, "intp": 63, "int32": 31, "intc": 31, "int16": 15, "int8": 7}.get(nm)
            if sb and isinstance(r, int) and not -(2 ** sb) <= r < 2 ** sb:
                self.throw(OverflowError, "Python integer out of bounds")
            return r
        if dt == "b":
            return self.I.truth(v)
        return v

    # ------------------------------------------------------------ indexing
    def norm_slice(self, s, n):
        """(lo, size) of a unit-step slice of an axis of size n"""
        step = s.step
        if not (step is None or isinstance(step, int) and step == 1):
            raise Unsupported("slice step")

        def bound(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, NDArr):
                p = self.net_as_poly(x)
                if p is None:
                    raise Unsupported("slice bound from array data")
                x = p
            if isinstance(x, (Fraction, float)):
                self.throw(TypeError, "slice indices must be integers or None or have an __index__ method")
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, GIdx):
                raise Unsupported("slice at a generic index")
            if not isint(x):
                raise Unsupported("slice bound")
            if isinstance(x, int) and x < 0:
                return P.pmax(0, P.padd(n, x))
            if isinstance(x, Poly) and not P.nonneg(x):
                if P.nonneg(P.psub(-1, x)):
                    return P.pmax(0, P.padd(n, x))
                raise Unsupported("slice bound of unknown sign")
            return P.pmin(x, n)

        lo = bound(s.lo, 0)
        hi = bound(s.hi, n)
        size = P.psub(hi, lo)
        if not P.nonneg(size):
            size = P.pmax(0, size)
        return lo, size

    def expand_index(self, idx, nd):
        if not isinstance(idx, tuple):
            idx = (idx,)
        used = 0
        for x in idx:
            if x is None or x is ELLIPSIS:
                continue
            if isinstance(x, Mask):
                used += len(x.shape)
            else:
                used += 1
        if used > nd:
            self.throw(IndexError, f"too many indices for array: array is {nd}-dimensional, but {used} were indexed")
        out = []
        seen = False
        for x in idx:
            if x is ELLIPSIS:
                if seen:
                    self.throw(IndexError, "an index can only have a single ellipsis")
                seen = True
                out.extend([SliceObj(None, None, None)] * (nd - used))
            else:
                out.append(x)
        if not seen:
            out.extend([SliceObj(None, None, None)] * (nd - used))
        return out

    def norm_idx_item(self, x):
        """classify an index component"""
        if isinstance(x, bool):
            raise Unsupported("boolean scalar index")
        if isinstance(x, NDArr):
            p = self.net_as_poly(x)
            if p is not None and x.ndim == 0:
                if x.dtype == "f":
                    self.throw(IndexError, "only integers, slices, ellipsis, numpy.newaxis and integer or boolean arrays are valid indices")
                return p
            if x.dtype == "f" and x.ndim == 0:
                self.throw(IndexError, "only integers, slices, ... are valid indices")
            raise Unsupported("index by computed array")
        if isinstance(x, (Fraction, float, str)):
            self.throw(IndexError, "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if isinstance(x, (ListObj, RangeObj)):
            return self.asarray(x)
        if isinstance(x, tuple):
            return self.asarray(x)
        return x

    def array_getitem(self, o, idx):
        I = self.I
        if isinstance(idx, tuple):
            idx = tuple(self.norm_idx_item(x) if x is not None and x is not ELLIPSIS and not isinstance(x, SliceObj) else x for x in idx)
        elif idx is not None and idx is not ELLIPSIS and not isinstance(idx, SliceObj):
            idx = self.norm_idx_item(idx)
        if isinstance(idx, tuple) and len(idx) == 1 and isinstance(o, (IntStack,)):
            idx = idx[0]
        if isinstance(o, IntStack):
            return self.intstack_get(o, idx)
        if isinstance(o, CArr):
            r = self.carr_get(o, idx)
            if r is not NOTIMPL:
                return r
            o = self.arr(self.tonet(o), "f")
        if isinstance(o, IntArr):
            return self.intarr_get(o, idx)
        if isinstance(o, Mask):
            n = self.arr(o.net)
            r = self.array_getitem(n, idx)
            return Mask(r.net) if isinstance(r, NDArr) else r
        comps = self.expand_index(idx, o.ndim)
        adv = [x for x in comps if isinstance(x, (IntArr, Mask, CArr, WhereIdx, IntStack))]
        if not adv:
            return self.basic_get(o, comps)
        return self.adv_get(o, comps)

    def chk_index(self, i, n):
        """normalise an integer position; IndexError when certainly outside"""
        if isinstance(i, int):
            if i < 0:
                j = P.padd(n, i)
                if P.cmp_gt(0, j):
                    self.throw(IndexError, f"index {i} is out of bounds for axis with size {n}")
                if not P.nonneg(j):
                    self.possible_oob(i, n)
                return j
            ok = P.cmp_gt(n, i)
            if ok is False:
                self.throw(IndexError, f"index {i} is out of bounds for axis with size {n}")
            if ok is None:
                self.possible_oob(i, n)
            return i
        if P.cmp_ge(i, n):
            self.throw(IndexError, f"index {i} is out of bounds for axis with size {n}")
        if not P.nonneg(i):
            raise Unsupported("index of unknown sign")
        if P.cmp_gt(n, i) is None:
            self.possible_oob(i, n)
        return i

    def possible_oob(self, i, n):
        # partition: in range or IndexError
        d = P.psub(P.psub(n, 1), i) if not (isinstance(i, int) and i < 0) else P.padd(n, i)
        if self.I.truth(self._ge(d, 0)) is False:
            self.throw(IndexError, f"index {i} is out of bounds for axis with size {n}")

    def basic_get(self, o, comps):
        """basic indexing -> view (or scalar)"""
        # scalar read?
        ops = []          # (kind, axis in current array, data)
        k = 0
        shape = list(o.shape)
        src = 0
        scalar = all(not isinstance(x, SliceObj) and x is not None for x in comps)
        contig = o.contig
        firstbig = True
        if o.pending is not None:
            return self.pending_read(o, comps)
        for x in comps:
            if x is None:
                ops.append(("new", k, None))
                k += 1
                continue
            n = shape[src]
            src += 1
            if isinstance(x, SliceObj):
                if isinstance(x.step, int) and x.step == -1 and x.lo is None and x.hi is None:
                    ops.append(("flip", k, n))
                    contig = False
                    k += 1
                    continue
                lo, size = self.norm_slice(x, n)
                if isinstance(lo, int) and lo == 0 and P.peq(size, n):
                    k += 1
                    if not (isinstance(n, int) and n == 1):
                        firstbig = False
                    continue
                ops.append(("slice", k, (lo, size, n)))
                if not firstbig:
                    contig = False
                firstbig = False
                k += 1
            elif isinstance(x, GIdx):
                i = x
                ops.append(("gidx", k, (x, n)))
                self.gidx_range(x, n)
            elif isint(x):
                i = self.chk_index(x, n)
                ops.append(("int", k, (i, n)))
                if not firstbig:
                    contig = False
            else:
                raise Unsupported(f"index {type(x).__name__}")
        if not ops:
            return self.mkview(o, lambda nn: nn, lambda p, v: v, o.contig)

        def get(net):
            for kind, ax, d in ops:
                if kind == "new":
                    axes = list(net.axes)
                    axes.insert(ax, ())
                    net = Net(axes, net.terms)
                elif kind == "slice":
                    net = N.slice_axis(net, ax, d[0], d[1])
                elif kind == "int":
                    net = N.index_axis(net, ax, d[0])
                elif kind == "flip":
                    net = self.flip_net(net, ax)
                else:
                    g, n = d
                    net = self.gidx_axis(net, ax, g, n)
            return net

        def put(pnet, vnet):
            if any(kk == "slice" and P.peq(d[1], 0) for kk, _, d in ops):
                return pnet
            cur = get(pnet)
            if any(kk in ("flip", "gidx") for kk, _, _ in ops):
                raise Unsupported("write through this view")
            delta = N.sub(vnet, cur)
            for kind, ax, d in reversed(ops):
                if kind == "new":
                    if delta.axes[ax]:
                        raise Unsupported("write through newaxis")
                    delta = Net(delta.axes[:ax] + delta.axes[ax + 1:], delta.terms)
                elif kind == "slice":
                    delta = N._undiag(N.fresh(delta))
                    delta = N.merge_axis(delta, ax)
                    L = N.mkleg(d[2])
                    if L:
                        delta = N.unslice_axis(delta, ax, d[0], L)
                elif kind == "int":
                    delta = N.fresh(delta)
                    L = N.mkleg(d[1])
                    axes = list(delta.axes)
                    axes.insert(ax, L)
                    extra = ((("Inj", d[0]), ((), L)),) if L else ()
                    delta = Net(axes, [(c, at + extra) for c, at in delta.terms])
            return N.add(pnet, N.simplify(Net(delta.axes, delta.terms)))

        if scalar:
            try:
                return self.num_or_arr(get(o.net), o.dtype)
            except ShapeError as e:
                self.throw(ValueError, str(e))
        return self.mkview(o, get, put, contig)

    def flip_net(self, net, ax):
        a = net.axes[ax]
        if not a:
            return net
        net = N.merge_axis(N._undiag(N.fresh(net)), ax)
        L = net.axes[ax][0]
        M = Leg(L.size)
        return N.simplify(Net(N._rep(net.axes, ax, (M,)),
                              [(c, at + ((("Flip",), ((M,), (L,))),)) for c, at in net.terms]))

    def gidx_range(self, g, n):
        """a generic index must lie within an axis of size n"""
        end = P.padd(g.off, g.leg.size)
        if P.cmp_ge(n, end):
            return
        if P.cmp_ge(n, end) is False:
            if P.cmp_gt(g.leg.size, 0) or P.generically_different(n, end):
                self.throw(IndexError, f"loop index up to {end} is out of bounds for axis with size {n}")
        raise Unsupported("generic index range")

    def gidx_axis(self, net, ax, g, n):
        if isinstance(g.off, int) and g.off == 0 and P.peq(g.leg.size, n):
            return N.index_axis_leg(net, ax, g.leg)
        full = net.axes[ax]
        if not full:
            return Net(net.axes[:ax] + net.axes[ax + 1:], net.terms)
        net = N._undiag(N.fresh(net))
        net = N.merge_axis(net, ax)
        L = net.axes[ax][0]
        return N.simplify(Net(net.axes[:ax] + net.axes[ax + 1:],
                              [(c, at + ((("Inj", g.off), ((g.leg,), (L,))),))
                               for c, at in net.terms]))

    def pending_read(self, o, comps):
        leg, recs = o.pending
        for cc, val in recs:
            if self.same_comps(cc, comps):
                return self.arr(val, o.dtype)
        raise Unsupported("read of an array while a symbolic loop fills it")

    def same_comps(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, SliceObj) and isinstance(y, SliceObj):
                if (x.lo, x.hi, x.step) != (y.lo, y.hi, y.step):
                    return False
            elif isinstance(x, GIdx) and isinstance(y, GIdx):
                if x.leg is not y.leg or not P.peq(x.off, y.off):
                    return False
            elif isint(x) and isint(y):
                if not P.peq(x, y):
                    return False
            else:
                return False
        return True

    # fancy -----------------------------------------------------------
    def mask_id(self, mask):
        """register a mask; returns (mid, net, params)"""
        n = N.simplify(mask.net)
        params = []
        for c, at in n.terms:
            for h, args in at:
                for a in args:
                    for l in a:
                        if l.param and l not in params:
                            params.append(l)
        params.sort(key=lambda l: l.id)
        env = {p.id: (Leg(p.size),) for p in params}
        m = N.map_net(n, env)
        m = Net(list(m.axes) + [env[p.id] for p in params], m.terms)
        m = N._undiag(m)
        mid = N.key(m)
        N.MASKS[mid] = m
        return mid, params

    def mask_size(self, mid):
        m = N.simplify(N.MASKS[mid])
        if not m.terms:
            return 0
        if len(m.terms) == 1 and m.terms[0] == (N.ONE, ()):
            return self.tot(m.shape)
        return P.new_sym(f"count<{mid}>", lo=0, op="count", base=False)

    def mask_count(self, mask):
        aux = getattr(mask, "aux", None)
        if aux is not None and aux[0] == "svals":
            return self.sval_count(aux)
        mid, params = self.mask_id(mask)
        return self.mask_size(mid)

    def adv_axes(self, comps, o):
        """positions and kinds"""
        src = 0
        out = []
        for x in comps:
            if x is None:
                out.append((x, None))
                continue
            out.append((x, src))
            src += len(x.shape) if isinstance(x, Mask) else 1
        return out

    def adv_get(self, o, comps):
        net = N._undiag(N.fresh(self.tonet(o)))
        # 1. apply basic parts (right to left so axes stay valid)
        info = self.adv_axes(comps, o)
        advpos = [i for i, (x, s) in enumerate(info) if isinstance(x, (IntArr, Mask, CArr, WhereIdx, IntStack))]
        masks = [info[i][0] for i in advpos if isinstance(info[i][0], (Mask, WhereIdx))]
        if masks:
            if len(advpos) > 1:
                raise Unsupported("several advanced indices including a mask")
            i = advpos[0]
            m = masks[0]
            if isinstance(m, WhereIdx):
                m = m.mask
            if len(m.shape) != 1:
                raise Unsupported("multi-dimensional mask")
            self.check_dim(o.shape[info[i][1]], m.shape[0], "boolean index did not match indexed array")
            mid, params = self.mask_id(m)
            M = Leg(self.mask_size(mid))
            ax = info[i][1]
            # other comps basic
            rest = [x if j != i else SliceObj(None, None, None) for j, (x, s) in enumerate(info)]
            L = net.axes[ax]
            net = Net(N._rep(net.axes, ax, (M,)),
                      [(c, at + ((("Sel", mid), ((M,), L) + tuple((p,) for p in params)),))
                       for c, at in net.terms])
            net = N.simplify(net)
            res = self.arr(net, o.dtype)
            if all(isinstance(x, SliceObj) and x.lo is None and x.hi is None and x.step is None for x in rest):
                return res
            return self.array_getitem(res, tuple(rest))
        # integer arrays
        first = advpos[0]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        idxs = []
        bsh = ()
        for i in advpos:
            x = info[i][0]
            if isinstance(x, IntStack):
                raise Unsupported("2-d index array")
            ia = self.as_intarr(x, o.shape[info[i][1]])
            bsh = self.bshape(bsh, ia.shape)
            idxs.append((info[i][1], ia))
        nb = len(bsh)
        nets, labels = [net], [[("s", k) for k in range(net.ndim)]]
        for ax, ia in idxs:
            oh = self.onehot(ia, o.shape[ax])
            r = oh.ndim - 1
            nets.append(oh)
            labels.append([("b", nb - r + q) for q in range(r)] + [("s", ax)])
        advset = {ax for ax, _ in idxs}
        out = []
        placed = False
        blabs = [("b", q) for q in range(nb)]
        if not contiguous:
            out.extend(blabs)
            placed = True
        rest = []
        for i, (x, s) in enumerate(info):
            if i in advpos:
                if not placed:
                    out.extend(blabs)
                    placed = True
                    rest.extend([SliceObj(None, None, None)] * nb)
                continue
            if x is None:
                raise Unsupported("newaxis with advanced index")
            out.append(("s", s))
            rest.append(x)
        if not contiguous:
            rest = [SliceObj(None, None, None)] * nb + rest
        # broadcasting legs of size 1 is handled by contract's empty axes
        have = {l for ls in labels for l in ls}
        miss = [b for b in blabs if b not in have]
        if miss:
            raise Unsupported("broadcast index arrays")
        try:
            res = self.arr(N.contract(nets, labels, out), o.dtype)
        except ShapeError as e:
            self.throw(ValueError, str(e))
        if all(isinstance(x, SliceObj) and x.lo is None and x.hi is None and x.step is None for x in rest):
            if not res.shape:
                return self.num_or_arr(res.net, o.dtype)
            return res
        return self.array_getitem(res, tuple(rest))

    def as_intarr(self, x, n):
        if isinstance(x, IntArr):
            return x
        if isinstance(x, CArr):
            # constant positions
            sh = x.shape
            if x.dtype == "b":
                raise Unsupported("concrete boolean mask")
            V = N.mkleg(n)
            axes = [N.mkleg(s) for s in sh]
            terms = []
            for i in x.indices():
                p = self.chk_index(self.cint_any(x.get(i)), n)
                at = tuple((("Inj", q), ((), a)) for q, a in zip(i, axes) if a)
                if V:
                    at += ((("Inj", p), ((), V)),)
                terms.append((N.ONE, at))
            return IntArr(sh, [(1, N.simplify(Net(axes + [V], terms)))])
        raise Unsupported("index array")

    def cint_any(self, v):
        if isint(v):
            return v
        if isinstance(v, Fraction):
            self.throw(IndexError, "arrays used as indices must be of integer (or boolean) type")
        return self.dim(v)

    def onehot(self, ia, n):
        """one-hot net [*axes, n]"""
        if len(ia.comps) == 1 and ia.comps[0][0] == 1 and isinstance(ia.const, int) and ia.const == 0:
            oh = ia.comps[0][1]
            V = N.axsize(oh.axes[-1])
            if P.peq(V, n):
                return oh
            if P.cmp_ge(n, V):
                oh = N._undiag(N.fresh(oh))
                oh = N.merge_axis(oh, oh.ndim - 1)
                return N.unslice_axis(oh, oh.ndim - 1, 0, N.mkleg(n))
            if P.cmp_gt(V, n) or P.generically_different(V, n):
                self.throw(IndexError, f"index array with values below {V} used on an axis of size {n}")
            raise Unsupported("index range")
        if len(ia.comps) == 1 and ia.comps[0][0] == 1 and isint(ia.const):
            oh = N._undiag(N.fresh(ia.comps[0][1]))
            oh = N.merge_axis(oh, oh.ndim - 1)
            V = N.axsize(oh.axes[-1])
            if P.nonneg(ia.const) and P.cmp_ge(n, P.padd(ia.const, V)):
                return N.unslice_axis(oh, oh.ndim - 1, ia.const, N.mkleg(n))
        raise Unsupported("computed index array")

    def intstack_get(self, o, idx):
        if isinstance(idx, SliceObj):
            lo, hi, st = self.conc_slice(idx, len(o.rows))
            r = IntStack(o.rows[lo:hi:st], o.cols, frozen=o.frozen)
            return r
        if isint(idx):
            i = self.cint(idx)
            if not -len(o.rows) <= i < len(o.rows):
                self.throw(IndexError, f"index {i} is out of bounds for axis 0 with size {len(o.rows)}")
            r = o.rows[i]
            if o.frozen and not r.frozen:
                r = IntArr(r.shape, r.comps, r.const, r.dtype)
                r.frozen = o.frozen
            return r
        if isinstance(idx, tuple) and len(idx) == 2:
            a, b = idx
            sub = self.intstack_get(o, a)
            if isinstance(sub, IntArr):
                return self.array_getitem(sub, b)
            if isinstance(b, SliceObj) and b.lo is None and b.hi is None and b.step is None:
                return sub
            rows = [self.array_getitem(r, b) for r in sub.rows]
            if rows and isinstance(rows[0], IntArr):
                return IntStack(rows, rows[0].shape[0])
            raise Unsupported("index stack column")
        if idx is ELLIPSIS:
            return o
        if isinstance(idx, CArr) and idx.ndim == 1 and all(isinstance(x, int) for x in idx.flat()):
            return IntStack([o.rows[i] for i in idx.flat()], o.cols)
        raise Unsupported("index stack subscript")

    def intarr_get(self, o, idx):
        comps = self.expand_index(idx, len(o.shape))
        if len(comps) == 1 and isinstance(comps[0], SliceObj) and comps[0].lo is None and comps[0].hi is None and comps[0].step is None:
            return o
        if len(comps) == 1 and isinstance(comps[0], GIdx):
            g = comps[0]
            self.gidx_range(g, o.shape[0])
            return self.intarr_at(o, g.leg, g)
        outc = []
        shape = None
        for c, n in o.comps:
            a = self.arr(n)
            r = self.array_getitem(a, tuple(comps) + (SliceObj(None, None, None),))
            outc.append((c, r.net))
            shape = r.net.shape[:-1]
        if shape is None:
            raise Unsupported("constant index array")
        if shape == ():
            return IntArr((), outc, o.const, o.dtype)
        return IntArr(shape, outc, o.const, o.dtype)

    def intarr_at(self, v, leg, g=None):
        out = []
        for c, n in v.comps:
            if g is not None and not (isinstance(g.off, int) and g.off == 0 and P.peq(leg.size, v.shape[0])):
                out.append((c, self.gidx_axis(n, 0, g, v.shape[0])))
            else:
                out.append((c, N.index_axis_leg(n, 0, leg)))
        return IntArr(v.shape[1:], out, v.const, v.dtype)

    def reshape_int(self, a, shape):
        total = self.tot(a.shape)
        unk = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if unk:
            rest = self.tot([s for i, s in enumerate(shape) if i != unk[0]])
            q = P.exact_div(total, rest)
            if q is None:
                raise Unsupported("reshape of index array")
            shape[unk[0]] = q
        return IntArr(shape, [(c, N.reshape(n, list(shape) + [N.axsize(n.axes[-1])])) for c, n in a.comps], a.const, a.dtype)

    def carr_get(self, o, idx):
        try:
            comps = self.expand_index(idx, o.ndim)
        except PyRaise:
            raise
        if any(isinstance(x, (GIdx, Mask, WhereIdx, IntArr, IntStack)) for x in comps):
            return NOTIMPL
        adv = [x for x in comps if isinstance(x, CArr)]
        if adv:
            if len(comps) == 1 and o.ndim == 1:
                ix = comps[0]
                if ix.dtype == "b":
                    keep = [o.get((i,)) for i in range(o.shape[0]) if self.I.truth(ix.get((i,)))]
                    return carr_from((len(keep),), keep, o.dtype)
                return carr_from(ix.shape, [o.get((self.chk_index(self.cint_any(i), o.shape[0]),)) for i in ix.flat()], o.dtype)
            return NOTIMPL
        sel = []
        shape = []
        k = 0
        for x in comps:
            if x is None:
                sel.append(None)
                shape.append(1)
                continue
            n = o.shape[k]
            k += 1
            if isinstance(x, SliceObj):
                r = list(range(n))[slice(*self.conc_slice(x, n))]
                sel.append(r)
                shape.append(len(r))
            elif isint(x):
                if isinstance(x, Poly):
                    return NOTIMPL
                if not -n <= x < n:
                    self.throw(IndexError, f"index {x} is out of bounds for axis with size {n}")
                sel.append(x % n)
            else:
                return NOTIMPL

        def f(i):
            o2 = []
            q = 0
            for s in sel:
                if s is None:
                    q += 1
                elif isinstance(s, list):
                    o2.append(s[i[q]])
                    q += 1
                else:
                    o2.append(s)
            return tuple(o2)
        if not shape and None not in sel:
            return o.get(f(()))
        return CArr(shape, None, o.dtype, view=(o, f))

    # ------------------------------------------------------------ writes
    def array_setitem(self, o, idx, v, aug=False):
        I = self.I
        if aug and isinstance(v, (NDArr, CArr)) and not isinstance(idx, (IntArr, Mask)) and \
                not (isinstance(idx, tuple) and any(isinstance(x, (IntArr, Mask, WhereIdx)) for x in idx)):
            # o[i] op= x already updated o through the view
            return
        if isinstance(idx, tuple):
            idx = tuple(self.norm_idx_item(x) if x is not None and x is not ELLIPSIS and not isinstance(x, SliceObj) else x for x in idx)
        elif idx is not None and idx is not ELLIPSIS and not isinstance(idx, SliceObj):
            idx = self.norm_idx_item(idx)
        self.note_write(o, "array item assignment")
        if isinstance(o, (IntArr, IntStack, Mask)):
            raise Unsupported("write to an index array")
        if isinstance(o, CArr) and isinstance(v, NDArr) and v.ndim > 0:
            self.denseify(o)
        if isinstance(o, CArr):
            r = self.carr_set(o, idx, v)
            if r is not NOTIMPL:
                return
        comps = self.expand_index(idx, o.ndim)
        loopgen = [x for x in comps if isinstance(x, GIdx)]
        adv = [x for x in comps if isinstance(x, (IntArr, Mask, CArr, WhereIdx, IntStack))]
        if isinstance(v, float):
            self.store_uninit(o, "nonfinite")
            return
        val = self.tonet(v)
        try:
            if loopgen:
                return self.gen_set(o, comps, val)
            if adv:
                return self.adv_set(o, comps, val)
            if o.pending is not None:
                raise Unsupported("mixed writes in a symbolic loop")
            if all(isinstance(x, SliceObj) and x.lo is None and x.hi is None and x.step is None for x in comps):
                self.store(o, self.fit(val, o.shape))
                return
            if all(not isinstance(x, SliceObj) for x in comps):
                comps2 = [SliceObj(x, P.padd(x, 1) if not (isinstance(x, int) and x == -1) else None, None) for x in comps]
                for x, n in zip(comps, o.shape):
                    self.chk_index(x, n)
                w = self.basic_get(o, comps2)
                self.store(w, self.fit(N.reshape(val, (1,) * len(comps2)) if val.ndim == 0 else val, w.shape))
                return
            w = self.basic_get(o, comps)
            self.store(w, self.fit(val, w.shape))
        except ShapeError as e:
            self.throw(ValueError, str(e))

    def store_uninit(self, o, tag):
        self.ambient += 1
        self.store(o, N.atom_net((tag, self.ambient), o.shape))

    def fit(self, val, shape):
        """broadcast value to the shape of an assignment target"""
        sh = list(val.shape)
        while len(sh) > len(shape):
            if isinstance(sh[0], int) and sh[0] == 1:
                val = N.reshape(val, sh[1:])
                sh = sh[1:]
            else:
                self.throw(ValueError, f"could not broadcast input array from shape {tuple(val.shape)} into shape {tuple(shape)}")
        for x, y in zip(sh[::-1], list(shape)[::-1]):
            if not (isinstance(x, int) and x == 1):
                self.check_dim(x, y, "could not broadcast input array")
        return N.broadcast_to(val, shape)

    def gen_set(self, o, comps, val):
        """write at a generic loop index"""
        I = self.I
        gs = [x for x in comps if isinstance(x, GIdx)]
        if len(gs) > 1:
            raise Unsupported("several generic indices in a write")
        g = gs[0]
        lcs = [lc for lc in I.loops if lc.leg is g.leg]
        if not lcs or lcs[0] is not I.loops[-1]:
            raise Unsupported("write at an outer generic index")
        ax = [i for i, x in enumerate(comps) if x is g][0]
        self.gidx_range(g, o.shape[ax])
        rest = [x for x in comps if x is not g]
        # target slot shape
        slot_full = N.zero_net(o.shape[:ax] + o.shape[ax + 1:])
        probe = self.arr(slot_full)
        if all(isinstance(x, SliceObj) and x.lo is None and x.hi is None and x.step is None for x in rest):
            val = self.fit(val, probe.shape)
            sub = None
        else:
            if all(not isinstance(x, SliceObj) for x in rest) and rest:
                rest2 = [SliceObj(x, P.padd(x, 1) if not (isinstance(x, int) and x == -1) else None, None) for x in rest]
                w = self.basic_get(probe, rest2)
                val = self.fit(N.reshape(val, (1,) * len(rest2)), w.shape)
            else:
                w = self.basic_get(probe, rest)
                val = self.fit(val, w.shape)
            raise Unsupported("partial write at a generic index")
        if o.pending is not None and o.pending[0] is not g.leg:
            raise Unsupported("array written by nested symbolic loops")
        if o.pending is None:
            o.pending = (g.leg, [])
            # net must stay readable by finish_generic
        recs = o.pending[1]
        for i, (cc, vv) in enumerate(recs):
            if self.same_comps(cc, comps):
                recs[i] = (comps, val)
                break
        else:
            if recs:
                raise Unsupported("several generic writes per iteration")
            recs.append((comps, val))
        lcs[0].written.append((o, "gen"))
        lcs[0].journal.append(lambda: setattr(o, "pending", None))

    def finish_generic(self, a, leg):
        if a.pending is None:
            return
        pleg, recs = a.pending
        a.pending = None
        if pleg is not leg:
            raise Unsupported("nested generic write")
        for comps, val in recs:
            if comps and isinstance(comps[0], Mask):
                self.finish_masked(a, comps, val, leg)
                continue
            ax = [i for i, x in enumerate(comps) if isinstance(x, GIdx)][0]
            g = comps[ax]
            n = a.shape[ax]
            new = N.open_param(val, leg, ax)
            old = a.net
            if isinstance(g.off, int) and g.off == 0 and P.peq(leg.size, n):
                self.store(a, N.simplify(new))
            else:
                new = N._undiag(N.fresh(new))
                new = N.merge_axis(new, ax)
                cur = N.slice_axis(old, ax, g.off, leg.size)
                delta = N._undiag(N.fresh(N.sub(new, cur)))
                delta = N.merge_axis(delta, ax)
                L = N.mkleg(n)
                if L:
                    delta = N.unslice_axis(delta, ax, g.off, L)
                self.store(a, N.simplify(N.add(old, delta)))

    def adv_set(self, o, comps, val):
        I = self.I
        info = self.adv_axes(comps, o)
        advpos = [i for i, (x, s) in enumerate(info) if isinstance(x, (IntArr, Mask, CArr, WhereIdx, IntStack))]
        rest_full = all(isinstance(x, SliceObj) and x.lo is None and x.hi is None and x.step is None
                        for i, (x, s) in enumerate(info) if i not in advpos)
        if not rest_full:
            raise Unsupported("advanced write combined with slices")
        m = info[advpos[0]][0]
        if isinstance(m, (Mask, WhereIdx)):
            if len(advpos) != 1:
                raise Unsupported("mask with other indices")
            if isinstance(m, WhereIdx):
                m = m.mask
            if len(m.shape) != 1:
                raise Unsupported("multi-dimensional mask write")
            ax = info[advpos[0]][1]
            self.check_dim(o.shape[ax], m.shape[0], "boolean index did not match")
            mid, params = self.mask_id(m)
            cnt = self.mask_size(mid)
            shp = list(o.shape)
            shp[ax] = cnt
            val = self.fit(val, shp)
            gen = [lc for lc in I.loops if lc.leg in params]
            if gen:
                if len(params) > 1 or gen[0] is not I.loops[-1]:
                    raise Unsupported("masked write in nested loops")
                if o.pending is not None:
                    raise Unsupported("several masked writes per iteration")
                o.pending = (gen[0].leg, [([m, ax, mid, params], val)])
                gen[0].written.append((o, "gen"))
                gen[0].journal.append(lambda: setattr(o, "pending", None))
                return
            self.store(o, self.masked_update(o.net, m, ax, mid, params, val))
            return
        # integer scatter: positions assumed pairwise distinct
        net = self.tonet(o)
        bsh = ()
        idxs = []
        for i in advpos:
            ia = self.as_intarr(info[i][0], o.shape[info[i][1]])
            bsh = self.bshape(bsh, ia.shape)
            idxs.append((info[i][1], ia))
        if len(bsh) != 1:
            raise Unsupported("scatter with n-d index arrays")
        if advpos != list(range(advpos[0], advpos[-1] + 1)):
            raise Unsupported("scatter with separated index arrays")
        pos0 = idxs[0][0]
        tshape = list(o.shape[:pos0]) + list(bsh) + [s for k, s in enumerate(o.shape) if k > idxs[-1][0]]
        cur = self.array_getitem(o, tuple(comps))
        val = self.fit(val, tshape)
        delta = N.sub(val, self.tonet(cur))
        I.event("scatter", idx=[ia for _, ia in idxs])
        nets = [delta]
        labs = [[("s", k) for k in range(pos0)] + ["b"] + [("s", k) for k in range(idxs[-1][0] + 1, o.ndim)]]
        for ax, ia in idxs:
            nets.append(self.onehot(ia, o.shape[ax]))
            labs.append(["b", ("s", ax)])
        add = N.contract(nets, labs, [("s", k) for k in range(o.ndim)])
        self.store(o, N.add(net, add))

    def masked_update(self, old, m, ax, mid, params, val):
        keepm = N.ewise_mul(old, self.mask_axis(m.net, ax, old.ndim))
        val = N._undiag(N.fresh(val))
        M = val.axes[ax]
        if len(M) != 1:
            raise Unsupported("masked write of a merged axis")
        L = N.mkleg(old.shape[ax])
        sc = Net(N._rep(val.axes, ax, L),
                 [(c, at + ((("Sel", mid), (M, L) + tuple((p,) for p in params)),)) for c, at in val.terms])
        return N.add(N.sub(old, keepm), N.simplify(sc))

    def mask_axis(self, mnet, ax, nd):
        """mask over axis ax broadcast against an nd array"""
        return Net(list(mnet.axes) + [()] * (nd - 1 - ax), mnet.terms)

    def finish_masked(self, a, comps, val, leg):
        m, ax, mid, params = comps
        # masks of different loop indices must be disjoint: the loop index is
        # the value of a one-hot index map
        ok = len(m.net.terms) == 1 and m.net.terms[0][0] == N.ONE and any(
            h[0] in ("E", "I") and any(len(x) == 1 and x[0] is leg for x in args)
            for h, args in m.net.terms[0][1])
        if not ok:
            raise Unsupported("masked writes of overlapping masks")
        old = a.net
        upd = N.sub(self.masked_update(old, m, ax, mid, params, val), old)
        self.store(a, N.add(old, N.sum_param(upd, leg)))

    def denseify(self, o):
        """turn a small array into an array of the tensor-network domain (in place)"""
        if o.view is not None or o.dtype != "f" or self.I.loops:
            return False
        try:
            net = self.carr_net(o)
        except Unsupported:
            return False
        fr = o.frozen
        o.__class__ = NDArr
        NDArr.__init__(o, net, "f")
        o.frozen = fr
        o.version = 1
        return True

    def carr_set(self, o, idx, v):
        comps = self.expand_index(idx, o.ndim)
        if all(isinstance(x, int) and not isinstance(x, bool) for x in comps):
            for x, n in zip(comps, o.shape):
                if not -n <= x < n:
                    self.throw(IndexError, f"index {x} is out of bounds for axis with size {n}")
            key = tuple(x % n for x, n in zip(comps, o.shape))
            if isinstance(v, (NDArr, CArr)):
                v = self.item_of(v)
            self.carr_store(o, key, v)
            return
        w = self.carr_get(o, idx)
        if (w is NOTIMPL or not isinstance(w, CArr) or w.view is None) and self.denseify(o):
            return NOTIMPL
        if w is NOTIMPL or not isinstance(w, CArr) or w.view is None:
            raise Unsupported("write to a small array at symbolic index")
        if isinstance(v, (ListObj, tuple)):
            v = self.asarray(v)
        if isinstance(v, CArr):
            src = self.cbroadcast(v, w.shape)
        elif isinstance(v, NDArr) and v.ndim > 0:
            src = self.net_elements(v)
            src = self.cbroadcast(src, w.shape)
        else:
            src = None
        vals = {i: (src.get(i) if src is not None else v) for i in w.indices()}
        for i, x in vals.items():
            self.carr_store(w, i, x)

    def net_elements(self, v):
        """array of concrete shape -> CArr of scalar elements"""
        sh = v.shape
        if not all(isinstance(s, int) for s in sh):
            raise Unsupported("elements of an array of symbolic shape")
        out = []
        for i in itertools.product(*[range(s) for s in sh]):
            n = self.tonet(v)
            for x in i:
                n = N.index_axis(n, 0, x)
            out.append(self.num_or_arr(n, v.dtype))
        return carr_from(sh, out, v.dtype)

    def cbroadcast(self, v, shape):
        nd = len(shape)
        sh = v.shape
        if len(sh) > nd:
            lead = sh[:len(sh) - nd]
            if any(x != 1 for x in lead):
                self.throw(ValueError, "could not broadcast input array")
            v = self.reshape(v, list(sh[len(sh) - nd:]))
            sh = v.shape
        off = nd - len(sh)
        for q, s in enumerate(sh):
            if s != 1 and s != shape[off + q]:
                self.throw(ValueError, f"could not broadcast input array from shape {sh} into shape {tuple(shape)}")

        def f(i):
            return tuple(0 if s == 1 else i[off + q] for q, s in enumerate(sh))
        return CArr(shape, None, v.dtype, view=(v, f))

    # ------------------------------------------------------------ arithmetic
    def array_unop(self, op, v):
        if op == "UAdd":
            return v
        if isinstance(v, CArr):
            return carr_from(v.shape, [self.unop(op, x) for x in v.flat()], v.dtype)
        if isinstance(v, Mask):
            if op == "Invert":
                one = N.const_net(v.net.shape, 1)
                m = Mask(N.sub(one, v.net))
                return m
            raise Unsupported("arithmetic on a boolean array")
        if isinstance(v, IntArr):
            if op == "USub":
                return IntArr(v.shape, [(P.pneg(c) if isinstance(c, Poly) else -c, n) for c, n in v.comps], P.pneg(v.const) if isinstance(v.const, Poly) else -v.const)
            raise Unsupported(f"{op} of an index array")
        if op == "USub":
            r = N.neg(self.tonet(v))
            return self.num_or_arr(r, v.dtype) if v.ndim == 0 else self.arr(r, v.dtype)
        if op == "Abs":
            return self.scal_fn("abs", v)
        raise Unsupported(f"unary {op} on an array")

    def coerce(self, v):
        if isinstance(v, (ListObj, tuple, RangeObj)):
            return self.asarray(v)
        if isinstance(v, GenericList):
            return self.asarray(v)
        return v

    def array_binop(self, op, a, b):
        I = self.I
        a, b = self.coerce(a), self.coerce(b)
        bad = (str, DictObj, SetObj, type(None), FuncObj, ClassObj, BoundMethod, GenObj, LazyIter, SliceObj)
        if isinstance(a, bad) or isinstance(b, bad):
            self.throw(TypeError, f"unsupported operand type(s) for {op}: '{self.typename(a)}' and '{self.typename(b)}'")
        if op == "MatMult":
            return self.matmul(a, b)
        if isinstance(a, (IntArr, IntStack)) or isinstance(b, (IntArr, IntStack)):
            r = self.int_binop(op, a, b)
            if r is not NOTIMPL:
                return r
        if isinstance(a, Mask) or isinstance(b, Mask):
            if op in ("BitAnd", "BitOr") and isinstance(a, Mask) and isinstance(b, Mask):
                p = N.ewise_mul(a.net, b.net)
                if op == "BitAnd":
                    return Mask(p)
                return Mask(N.sub(N.add(a.net, b.net), p))
        if isinstance(a, CArr) or isinstance(b, CArr):
            r = self.carr_binop(op, a, b)
            if r is not NOTIMPL:
                return r
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if isinstance(x, float):
                import math
                if math.isinf(x) and op == "Div" and s == -1:
                    return self.arr(N.zero_net(y.shape))
                raise Unsupported("infinite value in array arithmetic")
        sa = a.shape if isinstance(a, ARR) else ()
        sb = b.shape if isinstance(b, ARR) else ()
        bs = self.bshape(sa, sb)
        na, nb = self.tonet(a), self.tonet(b)
        dt = "f"
        isi = lambda x: isint(x) or isinstance(x, (NDArr, CArr)) and self.dt_of(x) == "i" or isinstance(x, IntArr)
        if isi(a) and isi(b):
            dt = "i"
        try:
            if op == "Add":
                r = N.add(na, nb)
            elif op == "Sub":
                r = N.sub(na, nb)
            elif op == "Mult":
                r = N.ewise_mul(na, nb)
            elif op == "Div":
                r = self.divide(na, nb)
                dt = "f"
            elif op == "Pow":
                r = self.power(na, nb, b)
            elif op == "FloorDiv" and na.ndim == 0 and nb.ndim == 0:
                q = self.divide(na, nb)
                fl = self.floor_scalar(self.arr(q))
                r = N.scalar_net(fl)
            elif op == "Mod" and na.ndim == 0 and nb.ndim == 0 and dt == "i":
                pa, pb = self.net_as_poly(na), self.net_as_poly(nb)
                if pa is None or pb is None:
                    raise Unsupported("mod of data")
                return P.pmod(pa, pb)
            else:
                raise Unsupported(f"{op} on arrays")
        except ShapeError as e:
            self.throw(ValueError, str(e))
        if r.ndim == 0:
            return self.num_or_arr(N._fold_scal(r) if op in ("Mult", "Div") else r, dt)
        return self.arr(r, dt)

    def divide(self, na, nb):
        if nb.ndim == 0:
            n = N.simplify(nb)
            if not n.terms:
                raise N.NanDivision("division by zero array scalar")
            return N._fold_scal_nd(N.ewise_mul(na, N.scal_recip(n))) if hasattr(N, "_fold_scal_nd") else N.ewise_mul(na, N.scal_recip(n))
        if all(not x for x in nb.axes):
            return N.ewise_mul(na, N.reshape(N.scal_recip(N.reshape(nb, ())), (1,) * nb.ndim))
        return N.ewise_mul(na, self.fnet("recip", nb))

    def power(self, na, nb, b):
        n = N.simplify(nb)
        if n.ndim == 0 and not n.terms:
            return N.const_net(na.shape, 1)
        if n.ndim == 0 and len(n.terms) == 1 and not n.terms[0][1] and not n.terms[0][0][1]:
            e = n.terms[0][0][0]
            if na.ndim == 0:
                return N.scal_pow(na, e)
            if e.denominator == 1 and 0 < e <= 4:
                r = na
                for _ in range(int(e) - 1):
                    r = N.ewise_mul(r, na)
                return r
            if e == Fraction(1, 2):
                return self.fnet("sqrt", na)
            if e == -1:
                return self.fnet("recip", na)
            return self.fnet(f"pow{e}", na)
        # symbolic exponent: opaque function of both
        if n.ndim == 0:
            if na.ndim == 0:
                k = ("f:pow", N.key(na), N.key(n))
                N.SCALS.setdefault(k, {"nonneg": False})
                return Net((), [((Fraction(1), ((k, Fraction(1)),)), ())])
            return self.fnet("pow:" + N.key(n), na)
        raise Unsupported("elementwise power")

    def int_binop(self, op, a, b):
        """linear arithmetic on index arrays"""
        if isinstance(a, IntStack) or isinstance(b, IntStack):
            raise Unsupported("arithmetic on an index stack")
        lin = lambda v: (v.comps, v.const, v.shape) if isinstance(v, IntArr) else ([], v, ()) if isint(v) else None
        if op in ("Add", "Sub"):
            x, y = lin(a), lin(b)
            if x is None or y is None:
                return NOTIMPL
            s = 1 if op == "Add" else -1
            sh = self.bshape(x[2], y[2])
            if x[2] != () and y[2] != () and len(x[2]) != len(y[2]):
                return NOTIMPL
            comps = list(x[0]) + [(P.pmul(s, c), n) for c, n in y[0]]
            return self.int_norm(IntArr(sh, comps, P.padd(x[1], P.pmul(s, y[1]))))
        if op == "Mult":
            x, y = (a, b) if isinstance(a, IntArr) else (b, a)
            if isint(y):
                return IntArr(x.shape, [(P.pmul(c, y), n) for c, n in x.comps], P.pmul(x.const, y))
            return NOTIMPL
        if op in ("FloorDiv", "Mod") and isinstance(a, IntArr) and isint(b):
            if len(a.comps) == 1 and a.comps[0][0] == 1 and a.const == 0:
                n = a.comps[0][1]
                V = N.axsize(n.axes[-1])
                q = P.exact_div(V, b)
                if q is not None:
                    n2 = N.reshape(n, list(n.shape[:-1]) + [q, b])
                    keep = n2.ndim - 2 if op == "FloorDiv" else n2.ndim - 1
                    labs = list(range(n2.ndim))
                    return IntArr(a.shape, [(1, N.contract([n2], [labs], labs[:-2] + [keep]))])
            raise Unsupported("division of an index array")
        return NOTIMPL

    def int_norm(self, a):
        """recognise row-major combinations  c1*i1 + c2*i2 + ... of one-hot
        maps as one combined index"""
        comps = [c for c in a.comps]
        if len(comps) < 2 or len(a.shape) > 1:
            return a
        changed = True
        while changed and len(comps) > 1:
            changed = False
            for i, (c1, n1) in enumerate(comps):
                for j, (c2, n2) in enumerate(comps):
                    if i == j:
                        continue
                    # c1 == c2 * size(n2's value axis)
                    if P.peq(c1, P.pmul(c2, N.axsize(n2.axes[-1]))) and P.nonneg(c2):
                        x = [("b", q) for q in range(n1.ndim - 1)]
                        m = N.contract([n1, n2], [x + ["u"], x + ["v"]], x + ["u", "v"])
                        axes = list(m.axes[:-2]) + [m.axes[-2] + m.axes[-1]]
                        m = Net(axes, m.terms)
                        comps = [c for q, c in enumerate(comps) if q not in (i, j)] + [(c2, m)]
                        changed = True
                        break
                if changed:
                    break
        return IntArr(a.shape, comps, a.const, a.dtype)

    def carr_binop(self, op, a, b):
        ca = a if isinstance(a, CArr) else None
        cb = b if isinstance(b, CArr) else None
        if op in ("Add", "Sub", "Mult"):
            # an array of equal numbers acts like the number
            for x, y in ((a, b), (b, a)):
                if isinstance(x, CArr) and x.shape and isinstance(y, NDArr) and y.ndim > 0 and all(isinstance(s, int) for s in y.shape):
                    vals = list(x.flat())
                    if vals and all(isinstance(v, (int, Fraction)) and not isinstance(v, bool) and v == vals[0] for v in vals) \
                            and tuple(self.bshape(x.shape, y.shape)) == tuple(y.shape):
                        r = self.binop(op, vals[0], b) if x is a else self.binop(op, a, vals[0])
                        return r if r is not a and r is not b else self.copy_(r)
        for x in (a, b):
            if isinstance(x, NDArr) and x.ndim > 0:
                if all(isinstance(s, int) for s in x.shape):
                    x2 = self.net_elements(x)
                    if x is a:
                        ca = x2
                    else:
                        cb = x2
                else:
                    return NOTIMPL
            if isinstance(x, (Mask, IntArr, IntStack)):
                return NOTIMPL
        if ca is not None and cb is not None:
            sh = self.bshape(ca.shape, cb.shape)
            x, y = self.cbroadcast(ca, sh), self.cbroadcast(cb, sh)
            vals = [self.binop(op, x.get(i), y.get(i)) for i in x.indices()]
            dt = ca.dtype if ca.dtype == cb.dtype else "f"
        elif ca is not None:
            sh = ca.shape
            vals = [self.binop(op, x, b) for x in ca.flat()]
            dt = ca.dtype
        else:
            sh = cb.shape
            vals = [self.binop(op, a, x) for x in cb.flat()]
            dt = cb.dtype
        if op == "Div":
            dt = "f"
        return carr_from(sh, vals, dt)

    def array_inplace(self, op, a, b):
        if isinstance(a, NDArr) and a.ndim == 0 and a.view is None and not getattr(a, "is0d", False):
            # numpy scalar: rebinding
            return self.array_binop(op, a, b)
        if isinstance(a, CArr) and isinstance(b, NDArr) and b.ndim > 0:
            self.denseify(a)
        if isinstance(a, CArr):
            b2 = self.coerce(b)
            r = self.array_binop(op, a, b2)
            self.note_write(a, f"in-place {op}")
            if not isinstance(r, CArr):
                raise Unsupported("in-place operation")
            if tuple(r.shape) != tuple(a.shape):
                self.throw(ValueError, "non-broadcastable output operand")
            for i in a.indices():
                self.carr_store(a, i, r.get(i))
            return a
        if isinstance(a, (IntArr, Mask)):
            if self.root_frozen(a):
                self.note_write(a, f"in-place {op}")
            r = self.array_binop(op, a, b)
            if self.I.loops:
                raise Unsupported("in-place update of an index array in a loop")
            if isinstance(r, IntArr) and isinstance(a, IntArr):
                a.comps, a.const = r.comps, r.const
                return a
            return r
        if op == "MatMult":
            raise Unsupported("@=")
        if a.pending is not None:
            raise Unsupported("in-place operation on pending array")
        r = self.array_binop(op, a, b)
        self.note_write(a, f"in-place {op}")
        if a.dtype == "i" and self.dt_of(r) == "f":
            self.throw(TypeError, "Cannot cast ufunc output from float64 to int64")
        net = self.tonet(r)
        if len(net.shape) != len(a.shape):
            self.throw(ValueError, "non-broadcastable output operand")
        for x, y in zip(net.shape, a.shape):
            self.check_dim(x, y, "non-broadcastable output operand")
        self.store(a, net)
        return a

    # ------------------------------------------------------------ comparison
    cmp_nets = {}

    def clear_scale(self, d):
        """the same sign: multiplied by the positive denominators"""
        low = None
        for c, _ in d.terms:
            e = {k: x for k, x in c[1] if N.SCALS.get(k, {}).get("nonneg")}
            low = e if low is None else {k: min(low.get(k, 0), e.get(k, 0)) for k in set(low) | set(e)}
        low = {k: x for k, x in (low or {}).items() if x < 0}
        if not low:
            return d
        f = (Fraction(1), tuple(sorted(((k, -x) for k, x in low.items()), key=lambda t: repr(t[0]))))
        return N.simplify(N.scale(d, [f]))

    def scalar_cmp(self, op, a, b):
        if isinstance(a, float) or isinstance(b, float):
            import math
            x = a if isinstance(a, float) else None
            inf = x if x is not None else b
            if math.isnan(inf):
                return op == "NotEq"
            big = (inf > 0) == (inf is a)       # a effectively larger
            return {"Lt": not big, "LtE": not big, "Gt": big, "GtE": big, "Eq": False, "NotEq": True}[op]
        na, nb = self.tonet(a), self.tonet(b)
        d = N.simplify(N.sub(na, nb))
        d = N._fold_scal(d) if d.terms else d
        if not d.terms:
            return op in ("LtE", "GtE", "Eq")
        if len(d.terms) == 1 and not d.terms[0][1] and not d.terms[0][0][1]:
            v = d.terms[0][0][0]
            return {"Lt": v < 0, "LtE": v <= 0, "Gt": v > 0, "GtE": v >= 0, "Eq": v == 0, "NotEq": v != 0}[op]
        p = self.net_as_poly(d)
        if p is not None:
            return self.num_compare(op, p, 0)
        nn = N.manifestly_nonneg(d)
        np_ = N.manifestly_nonneg(N.neg(d))
        if nn and op in ("GtE",):
            return True
        if nn and op == "Lt":
            return False
        if np_ and op == "LtE":
            return True
        if np_ and op == "Gt":
            return False
        d = self.clear_scale(d)
        k = N.key(d)
        km = N.key(N.neg(d))
        desc = f"{N.readable(d, 3)[:120]} {op} 0"
        self.cmp_nets[k], self.cmp_nets[km] = d, N.neg(d)

        def mk(kind, key, neg=False):
            u = UnknownBool((kind, key), desc).on("zero", d)
            return u.negate() if neg else u
        if op in ("Eq", "NotEq"):
            u = mk("eq0", min(k, km))
            return u if op == "Eq" else u.negate()
        if nn and op == "Gt" or np_ and op == "Lt":     # nonneg and != 0
            return mk("eq0", min(k, km), True)
        if nn and op == "LtE" or np_ and op == "GtE":
            return mk("eq0", min(k, km))
        if op == "Lt":
            return UnknownBool(("lt0", k), desc).on("lt0", d)
        if op == "GtE":
            return UnknownBool(("lt0", k), desc).on("lt0", d).negate()
        if op == "Gt":
            return UnknownBool(("lt0", km), desc).on("lt0", N.neg(d))
        return UnknownBool(("lt0", km), desc).on("lt0", N.neg(d)).negate()

    def array_compare(self, op, a, b):
        a, b = self.coerce(a), self.coerce(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            self.throw(TypeError, f"'{op}' not supported between instances of '{self.typename(a)}' and '{self.typename(b)}'")
        sa = a.shape if isinstance(a, ARR) else ()
        sb = b.shape if isinstance(b, ARR) else ()
        if sa == () and sb == () and not isinstance(a, IntArr) and not isinstance(b, IntArr):
            a = self.item_of(a) if isinstance(a, CArr) else a
            b = self.item_of(b) if isinstance(b, CArr) else b
            return self.scalar_cmp(op, a, b)
        if isinstance(a, CArr) or isinstance(b, CArr):
            oth = b if isinstance(a, CArr) else a
            if isinstance(oth, NUM) or isinstance(oth, CArr) or isinstance(oth, NDArr) and oth.ndim == 0:
                x = a if isinstance(a, CArr) else None
                y = b if isinstance(b, CArr) else None
                sh = self.bshape(sa, sb)
                xs = self.cbroadcast(x, sh) if x is not None else None
                ys = self.cbroadcast(y, sh) if y is not None else None
                idx = (xs or ys).indices_list()
                return carr_from(sh, [self.compare(op, xs.get(i) if xs else a, ys.get(i) if ys else b) for i in idx], "b")
        if isinstance(a, IntArr) and isinstance(b, (GIdx, int, Poly)) and op in ("Eq", "NotEq"):
            m = self.int_eq(a, b)
            return m if op == "Eq" else self.array_unop("Invert", m)
        if isinstance(b, IntArr) and isinstance(a, (GIdx, int, Poly)) and op in ("Eq", "NotEq"):
            m = self.int_eq(b, a)
            return m if op == "Eq" else self.array_unop("Invert", m)
        # singular value thresholds
        r = self.sval_mask(op, a, b)
        if r is not None:
            return r
        self.bshape(sa, sb)
        na, nb = self.tonet(a), self.tonet(b)
        d = N.sub(na, nb)
        if op in ("Lt", "LtE"):
            d = N.neg(d)
            op = {"Lt": "Gt", "LtE": "GtE"}[op]
        if not N.simplify(d).terms:
            m = Mask(N.const_net(d.shape, 1 if op in ("Eq", "GtE") else 0))
            return m
        n = N._undiag(N.fresh(N.simplify(d)))
        k = N.key(n)
        N.REG[k] = n
        return Mask(Net(n.axes, [(N.ONE, ((("fn", "is" + op, k), n.axes),))]))

    def int_eq(self, ia, v):
        if len(ia.comps) != 1 or ia.comps[0][0] != 1:
            raise Unsupported("comparison of computed indices")
        n = ia.comps[0][1]
        ax = n.ndim - 1
        if not (isinstance(ia.const, int) and ia.const == 0):
            if isinstance(v, GIdx):
                v = GIdx(v.leg, P.psub(v.off, ia.const))
            else:
                v = P.psub(v, ia.const)
        size = N.axsize(n.axes[-1])
        if isinstance(v, GIdx):
            self.gidx_range(v, size)
            return Mask(self.gidx_axis(n, ax, v, size))
        if P.cmp_ge(v, size) or P.cmp_gt(0, v):
            return Mask(N.zero_net(n.shape[:-1]))
        return Mask(N.index_axis(n, ax, v))

    # svd thresholds -----------------------------------------------------
    def sval_of(self, a):
        """(key, fullrank, K size) when ``a`` is the full vector of singular values"""
        if not isinstance(a, NDArr) or a.ndim != 1:
            return None
        n = N.simplify(a.net)
        if len(n.terms) != 1 or n.terms[0][0] != N.ONE:
            return None
        at = n.terms[0][1]
        hs = [h for h, _ in at if h[0] == "S"]
        if len(hs) != 1:
            return None
        for h, args in at:
            if h[0] not in ("S", "Inj"):
                return None
            if h[0] == "Inj" and not (isinstance(h[1], int) and h[1] == 0):
                return None
        return hs[0][1], hs[0][2], a.shape[0]

    def sval_mask(self, op, a, b):
        flip = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}
        s = self.sval_of(a)
        t = b
        if s is None:
            s = self.sval_of(b)
            if s is None:
                return None
            t = a
            op = flip.get(op, op)
        if isinstance(t, ARR) and t.shape != ():
            return None
        if op not in ("Gt", "GtE", "Lt", "LtE"):
            return None
        tn = self.tonet(t)
        n = (a if t is b else b).net
        k = N.key(N.sub(n, N.broadcast_to(tn, n.shape)))
        m = Mask(Net(n.axes, [(N.ONE, ((("fn", "sv" + op, k), n.axes),))]))
        nn = N._undiag(N.fresh(N.sub(n, N.broadcast_to(tn, n.shape))))
        N.REG[k] = nn
        m.aux = ("svals", s[0], s[1], s[2], op, N.simplify(tn))
        return m

    def sval_count(self, aux):
        _, key, full, size, op, tn = aux
        thr = "0" if not tn.terms else N.key(tn)
        base = {"Gt": "Gt", "LtE": "Gt", "GtE": "GtE", "Lt": "GtE"}[op]
        c = P.new_sym(f"count<{key},{base},{thr}>", lo=0, op="count", args=(), base=False,
                      taints=frozenset())
        xs = P.min_args(size)
        if key in N.REG:
            xs = xs + [self.tot([l.size for l in ax]) for ax in N.REG[key].axes]
        for x in xs:
            P.add_fact(P.psub(x, c))
        if base == "Gt" and not tn.terms and P.peq(size, full):
            N.VANISH[key] = c
        self.svcounts = N.SVCOUNT
        self.svcounts[f"count<{key},{base},{thr}>"] = (key, base, tn, size)
        if op in ("Lt", "LtE"):
            return P.psub(size, c)
        return c

    def array_truth(self, v):
        if isinstance(v, CArr):
            if len(v.indices_list()) == 1:
                return self.I.truth(v.flat()[0])
            self.throw(ValueError, "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, NDArr):
            if v.ndim == 0 or all(isinstance(s, int) and s == 1 for s in v.shape):
                r = self.scalar_cmp("NotEq", self.arr(N.reshape(v.net, ())) if v.ndim else v, 0)
                return self.I.truth(r)
            if all(isinstance(s, int) for s in v.shape):
                self.throw(ValueError, "The truth value of an array with more than one element is ambiguous")
            t = self.tot(v.shape)
            if P.cmp_gt(t, 1) or P.base_only(t):
                self.throw(ValueError, "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Mask):
            t = self.tot(v.shape)
            if v.shape == ():
                k = N.key(v.net)
                return self.I.truth(UnknownBool(("mask", k), "mask element").on("all", v.net))
            if P.base_only(t) and not (isinstance(t, int) and t == 1):
                self.throw(ValueError, "The truth value of an array with more than one element is ambiguous")
        raise Unsupported("truth of an array")

    def gendict_get(self, d, key, default=None):
        """dict of symbolic length from int keys (assumed distinct) to values"""
        kv = d.keys
        if not (isinstance(kv, IntArr) and isinstance(key, IntArr) and kv.shape == () and key.shape == ()):
            raise Unsupported("lookup in a dict of symbolic length")
        if len(kv.comps) != 1 or len(key.comps) != 1 or kv.comps[0][0] != 1 or key.comps[0][0] != 1 \
                or kv.const != 0 or key.const != 0:
            raise Unsupported("computed dict keys")
        a, b = kv.comps[0][1], key.comps[0][1]
        sa, sb = N.axsize(a.axes[0]), N.axsize(b.axes[0])
        self.check_dim(sa, sb, "dict key range")
        hit = N.contract([a, b], [["v"], ["v"]], [])
        val = self.tonet(d.vals)
        got = N.sum_param(N.ewise_mul(hit, val), d.leg)
        if default is not None and not (isinstance(default, (int, Fraction)) and default == 0):
            found = N.sum_param(hit, d.leg)
            got = N.add(got, N.ewise_mul(N.sub(N.scalar_net(1), found), self.tonet(default)))
        if default is None:
            raise Unsupported("dict.get with None default")
        return self.num_or_arr(got)
