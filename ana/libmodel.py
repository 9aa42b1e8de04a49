"""Model of the Python builtins and the standard library used by the code."""
from __future__ import annotations

import ast
import json
import os
from fractions import Fraction

import net as N
import poly as P
from net import Leg, Net, ShapeError, Unsupported
from npmodel import ARR, NumpyModel
from poly import Poly
from values import *

_here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_here, "data", "known.json")) as _f:
    KNOWN = {k: set(v) for k, v in json.load(_f).items()}

NUM = (int, Poly, Fraction, float)


def isint(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


class Lib(NumpyModel):
    def __init__(self, interp):
        self.I = interp
        self.mods = {}
        self.builtins = {}
        self._mk_types()
        self._mk_builtins()
        self._mk_np()
        self._mk_std()
        self.seedcount = 0
        self.rng_state = ("ambient", 0)
        self.rng_draws = 0
        self.ambient = 0

    # ------------------------------------------------------------------
    def throw(self, py, msg=""):
        self.I.throw(py, msg)

    def fn(self, name, f):
        return NativeFn(name, f)

    def simple(self, name, f, kws=()):
        def g(args, kw):
            for k in kw:
                if k not in kws:
                    raise Unsupported(f"{name}({k}=)")
            return f(*args, **kw)
        return NativeFn(name, g)

    # ------------------------------------------------------------ types
    def _mk_types(self):
        T = {}
        self.T = T

        def ty(name, pred, ctor=None):
            T[name] = BuiltinType(name, pred, ctor)
            return T[name]

        def isfloat(v):
            return isinstance(v, (Fraction, float)) or (isinstance(v, NDArr) and v.ndim == 0 and v.dtype == "f" and getattr(v, "aux", None) != "arr0")

        ty("object", lambda v: True, lambda a, k: InstObj(self.objcls))
        ty("int", lambda v: isinstance(v, (int, Poly, bool, GIdx)), self.c_int)
        ty("bool", lambda v: isinstance(v, (bool, UnknownBool)), lambda a, k: self.I.truth(a[0]) if a else False)
        ty("float", isfloat, self.c_float)
        ty("complex", lambda v: False)
        ty("str", lambda v: isinstance(v, str), lambda a, k: self.to_str(a[0]) if a else "")
        ty("bytes", lambda v: False)
        ty("tuple", lambda v: isinstance(v, tuple), lambda a, k: self.c_tuple(a))
        ty("list", lambda v: isinstance(v, (ListObj, GenericList)), lambda a, k: self.c_list(a))
        ty("dict", lambda v: isinstance(v, (DictObj, GenDict)), self.c_dict)
        ty("set", lambda v: isinstance(v, SetObj), lambda a, k: SetObj(self.I.iterate(a[0]) if a else ()))
        ty("frozenset", lambda v: isinstance(v, SetObj), lambda a, k: SetObj(self.I.iterate(a[0]) if a else ()))
        ty("slice", lambda v: isinstance(v, SliceObj), self.c_slice)
        ty("range", lambda v: isinstance(v, RangeObj), self.c_range)
        ty("type", lambda v: isinstance(v, (ClassObj, BuiltinType, ExcClass)), self.c_type)
        ty("property", lambda v: isinstance(v, PropertyObj), lambda a, k: PropertyObj(*a))
        ty("staticmethod", lambda v: isinstance(v, StaticMethod), lambda a, k: StaticMethod(a[0]))
        ty("classmethod", lambda v: isinstance(v, ClassMethod), lambda a, k: ClassMethod(a[0]))
        ty("NoneType", lambda v: v is None)
        ty("function", lambda v: isinstance(v, FuncObj))
        ty("generator", lambda v: isinstance(v, GenObj))
        self.objcls = ClassObj("object", [], {}, None, "object")
        self.objcls.mro = [self.objcls]

    def c_int(self, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, (Poly, GIdx)):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, float):
            if v != v or abs(v) == float("inf"):
                self.throw(OverflowError if v == v else ValueError, "cannot convert float to integer")
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                self.throw(ValueError, "invalid literal for int()")
        if isinstance(v, NDArr):
            p = self.net_as_poly(v)
            if p is not None:
                return p
            return P.opaque("int", ("%s" % N.key(v.net),), lo=None, taints=self.net_taints(v.net)) if False else self.opq_int("int", v)
        if isinstance(v, IntArr) and v.shape == ():
            return v
        if isinstance(v, CArr) and len(v.indices_list()) == 1:
            return self.c_int([v.flat()[0]], {})
        if v is None or isinstance(v, (ListObj, tuple, InstObj)):
            self.throw(TypeError, f"int() argument must be a number, not {self.typename(v)}")
        raise Unsupported(f"int({type(v).__name__})")

    def opq_int(self, op, v, lo=None):
        """opaque integer determined by a scalar value"""
        net = v.net if isinstance(v, NDArr) else self.tonet(v)
        nm = f"{op}<{N.key(net)}>"
        return P.new_sym(nm, lo=lo, taints=self.net_taints(net), op=op, base=False)

    numtext = None

    def c_float(self, a, k):
        if not a:
            return Fraction(0)
        v = a[0]
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, (Fraction, float)):
            return v
        if isinstance(v, Poly):
            return self.arr(self.tonet(v))
        if isinstance(v, NDArr):
            n = v.net
            if n.ndim == 0:
                return self.arr(n)
            if all(isinstance(s, int) and s == 1 for s in n.shape):
                return self.arr(N.reshape(n, ()))
            self.throw(TypeError, "only length-1 arrays can be converted to Python scalars")
        if isinstance(v, CArr):
            fl = v.flat()
            if len(fl) == 1:
                return self.c_float([fl[0]], {})
            self.throw(TypeError, "only length-1 arrays can be converted to Python scalars")
        if isinstance(v, InstObj):
            m, _ = self.I.class_lookup(v.cls, "__float__")
            if m is not None:
                return self.I.call(BoundMethod(v, m), [], {})
        if isinstance(v, str):
            if self.numtext is not None:
                r = self.numtext(v)
                if r is not None:
                    return r
            try:
                f = float(v)
                return Fraction(v) if f == f and abs(f) != float("inf") else f
            except ValueError:
                self.throw(ValueError, "could not convert string to float")
        if v is None or isinstance(v, (ListObj, tuple, InstObj, FuncObj, ClassObj, DictObj)):
            self.throw(TypeError, f"float() argument must be a string or a number, not {self.typename(v)}")
        raise Unsupported(f"float({type(v).__name__})")

    def c_tuple(self, a):
        if not a:
            return ()
        v = a[0]
        if isinstance(v, tuple):
            return v
        g = self.generic_of(v)
        if g is not None:
            raise Unsupported("tuple of symbolic length")
        return tuple(self.I.iterate(v))

    def c_list(self, a):
        if not a:
            return ListObj()
        v = a[0]
        if isinstance(v, GenericList):
            return v
        g = self.generic_of(v)
        if g is not None:
            size, mk = g
            leg = Leg(size, param=True)
            return GenericList(leg, mk(leg))
        return ListObj(self.I.iterate(v))

    def c_dict(self, a, k):
        d = DictObj()
        if a:
            v = a[0]
            if isinstance(v, DictObj):
                d.d.update(v.d)
            else:
                g = self.generic_of(v)
                if g is not None:
                    size, mk = g
                    leg = Leg(size, param=True)
                    kv = list(self.I.iterate(mk(leg)))
                    if k:
                        raise Unsupported("dict of symbolic length")
                    return GenDict(leg, kv[0], kv[1])
                for it in self.I.iterate(v):
                    kk, vv = list(self.I.iterate(it))
                    d.d[hkey(kk)] = (kk, vv)
        for kk, vv in k.items():
            d.d[hkey(kk)] = (kk, vv)
        return d

    def c_slice(self, a, k):
        if len(a) == 1:
            return SliceObj(None, a[0], None)
        a = list(a) + [None] * (3 - len(a))
        return SliceObj(*a[:3])

    def c_range(self, a, k):
        a = list(a)
        for x in a:
            if not (isint(x) or isinstance(x, (bool, GIdx))):
                if isinstance(x, (IntArr, UnknownBool)):
                    raise Unsupported("range over a data-dependent integer")
                self.throw(TypeError, f"'{self.typename(x)}' object cannot be interpreted as an integer")
        if len(a) == 1:
            return RangeObj(0, a[0], 1)
        if len(a) == 2:
            return RangeObj(a[0], a[1], 1)
        return RangeObj(*a)

    def c_type(self, a, k):
        if len(a) != 1:
            raise Unsupported("type() with 3 arguments")
        return self.type_of(a[0])

    def type_of(self, v):
        if isinstance(v, InstObj):
            return v.cls
        if isinstance(v, ExcInst):
            return v.cls
        if isinstance(v, bool) or isinstance(v, UnknownBool):
            return self.T["bool"]
        if isinstance(v, (int, Poly, GIdx)):
            return self.T["int"]
        if isinstance(v, (Fraction, float)):
            return self.T["float"]
        if isinstance(v, str):
            return self.T["str"]
        if isinstance(v, tuple):
            return self.T["tuple"]
        if isinstance(v, (ListObj, GenericList)):
            return self.T["list"]
        if isinstance(v, (DictObj, GenDict)):
            return self.T["dict"]
        if isinstance(v, SetObj):
            return self.T["set"]
        if v is None:
            return self.T["NoneType"]
        if isinstance(v, (NDArr, CArr, IntArr, IntStack, Mask)):
            return self.T["ndarray"]
        if isinstance(v, (ClassObj, BuiltinType, ExcClass)):
            return self.T["type"]
        if isinstance(v, FuncObj):
            return self.T["function"]
        if isinstance(v, SliceObj):
            return self.T["slice"]
        if isinstance(v, RangeObj):
            return self.T["range"]
        if isinstance(v, GenObj):
            return self.T["generator"]
        raise Unsupported(f"type of {type(v).__name__}")

    def typename(self, v):
        if isinstance(v, InstObj):
            return v.cls.name
        try:
            t = self.type_of(v)
            return getattr(t, "name", "?")
        except Unsupported:
            return type(v).__name__

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, ClassObj):
            if isinstance(v, InstObj):
                return t in self.I.mro(v.cls)
            if isinstance(v, ExcInst):
                return isinstance(v.cls, ClassObj) and t in self.I.mro(v.cls)
            return False
        if isinstance(t, ExcClass):
            return isinstance(v, ExcInst) and self.I.exc_matches(v, t)
        if isinstance(t, BuiltinType):
            if isinstance(v, InstObj):
                if t.name == "object":
                    return True
                if t in self.I.mro(v.cls):
                    return True
                m, _ = self.I.class_lookup(v.cls, "__model_type__")
                if m is not None:
                    form = self.I.call(BoundMethod(v, m), [], {})
                    return t.name in (form, "Number", "Real", "Hashable") or form == "int" and t.name == "Integral"
                if t.name in ("Iterable", "Callable", "Sized", "Hashable"):
                    nm = {"Iterable": "__iter__", "Callable": "__call__", "Sized": "__len__"}.get(t.name)
                    return nm is None or self.I.class_lookup(v.cls, nm)[0] is not None
                return False
            return bool(t.pred(v))
        if isinstance(t, TypingVal):
            b = self.typing_iface(t.name)
            if b is not None:
                return self.isinstance_(v, b)
        raise Unsupported(f"isinstance against {t!r}")

    def typing_iface(self, name):
        seq = (tuple, ListObj, RangeObj, str, GenericList)
        tab = {
            "Sequence": lambda v: isinstance(v, seq),
            "Iterable": lambda v: isinstance(v, seq + (DictObj, SetObj, NDArr, CArr, IntArr, IntStack, GenObj, LazyIter))
            and not (isinstance(v, NDArr) and v.ndim == 0 and getattr(v, "aux", None) != "arr0"),
            "Iterator": lambda v: isinstance(v, (GenObj, LazyIter)),
            "Callable": lambda v: isinstance(v, (FuncObj, BoundMethod, ClassObj, NativeFn, Partial, BuiltinType)),
            "Mapping": lambda v: isinstance(v, DictObj),
            "Sized": lambda v: isinstance(v, seq + (DictObj, SetObj, NDArr, CArr)),
            "Collection": lambda v: isinstance(v, seq + (DictObj, SetObj)),
            "Hashable": lambda v: not isinstance(v, (ListObj, DictObj, NDArr)),
            "List": lambda v: isinstance(v, ListObj), "Tuple": lambda v: isinstance(v, tuple),
            "Dict": lambda v: isinstance(v, DictObj),
        }
        if name in tab:
            return BuiltinType(name, tab[name])
        return None

    def issubclass_(self, c, t):
        if isinstance(t, tuple):
            return any(self.issubclass_(c, x) for x in t)
        if isinstance(c, ClassObj):
            return t in self.I.mro(c) or (isinstance(t, BuiltinType) and t.name == "object")
        if isinstance(c, BuiltinType):
            return c is t or (isinstance(t, BuiltinType) and t.name == "object")
        if isinstance(c, ExcClass):
            return isinstance(t, ExcClass) and issubclass(c.py, t.py)
        self.throw(TypeError, "issubclass() arg 1 must be a class")

    # ------------------------------------------------------------ builtins
    def _mk_builtins(self):
        B = self.builtins
        for n in ("object", "int", "bool", "float", "str", "tuple", "list", "dict", "set",
                  "frozenset", "slice", "range", "type", "property", "staticmethod",
                  "classmethod", "complex", "bytes"):
            B[n] = self.T[n]
        B["None"], B["True"], B["False"] = None, True, False
        B["Ellipsis"] = ELLIPSIS
        B["NotImplemented"] = NOTIMPL
        B["__name__"] = "builtins"
        import builtins as bi
        for n in dir(bi):
            o = getattr(bi, n)
            if isinstance(o, type) and issubclass(o, BaseException):
                B[n] = ExcClass(o)

        def reg(name, kws=()):
            def deco(f):
                B[name] = self.simple(name, f, kws)
                return f
            return deco

        I = self.I

        @reg("len")
        def _len(v):
            return self.length(v)

        @reg("isinstance")
        def _isinst(v, t):
            return self.isinstance_(v, t)

        @reg("issubclass")
        def _issub(c, t):
            return self.issubclass_(c, t)

        @reg("callable")
        def _callable(v):
            if isinstance(v, InstObj):
                return I.class_lookup(v.cls, "__call__")[0] is not None
            return isinstance(v, (FuncObj, BoundMethod, ClassObj, NativeFn, Partial, BuiltinType, ExcClass))

        @reg("hash")
        def _hash(v):
            return self.hash_of(v)

        @reg("id")
        def _id(v):
            self.seedcount += 1
            return P.new_sym(f"id#{self.seedcount}", lo=0, taints=frozenset({"id"}), base=False)

        @reg("print", ("end", "sep", "file", "flush"))
        def _print(*a, **k):
            return None

        @reg("hex")
        def _hex(v):
            return "0x"

        @reg("repr")
        def _repr(v):
            return self.to_str(v)

        @reg("abs")
        def _abs(v):
            return self.unop("Abs", v)

        @reg("round", ("ndigits",))
        def _round(v, ndigits=None):
            if isint(v) and ndigits is None:
                return v
            if isinstance(v, Fraction):
                return round(v) if ndigits is None else Fraction(round(v, ndigits))
            return self.opq_int("round", self.arr(self.tonet(v)))

        @reg("divmod")
        def _divmod(a, b):
            return (self.binop("FloorDiv", a, b), self.binop("Mod", a, b))

        @reg("pow")
        def _pow(a, b):
            return self.binop("Pow", a, b)

        @reg("sum", ("start",))
        def _sum(it, start=0):
            return self.sum_(it, start)

        @reg("min", ("key", "default"))
        def _min(*a, **k):
            return self.minmax("min", a, k)

        @reg("max", ("key", "default"))
        def _max(*a, **k):
            return self.minmax("max", a, k)

        @reg("any")
        def _any(it):
            for x in I.iterate(it):
                if I.truth(x):
                    return True
            return False

        @reg("all")
        def _all(it):
            for x in I.iterate(it):
                if not I.truth(x):
                    return False
            return True

        @reg("zip", ("strict",))
        def _zip(*its, strict=False):
            return LazyIter("zip", list(its), strict)

        @reg("enumerate", ("start",))
        def _enum(it, start=0):
            return LazyIter("enumerate", [it], start)

        @reg("reversed")
        def _rev(v):
            if isinstance(v, (ListObj, tuple, RangeObj, CArr, str)):
                return LazyIter("list", [list(I.iterate(v))[::-1]])
            if isinstance(v, (GenObj, LazyIter, SetObj)):
                self.throw(TypeError, f"'{self.typename(v)}' object is not reversible")
            if isinstance(v, InstObj):
                m, _ = I.class_lookup(v.cls, "__reversed__")
                if m is not None:
                    return I.call(BoundMethod(v, m), [], {})
            return LazyIter("list", [list(I.iterate(v))[::-1]])

        @reg("map")
        def _map(f, *its):
            return LazyIter("map", list(its), f)

        @reg("filter")
        def _filter(f, it):
            return LazyIter("filter", [it], f)

        @reg("iter")
        def _iter(v, *sent):
            if sent:
                raise Unsupported("iter with sentinel")
            if isinstance(v, (GenObj, LazyIter)):
                return v
            if self.generic_of(v) is not None:
                raise Unsupported("iter over symbolic length")
            if not self.iterable(v):
                self.throw(TypeError, f"'{self.typename(v)}' object is not iterable")
            return GenObj(iter(list(I.iterate(v))), I, "iter")

        @reg("next")
        def _next(g, *default):
            try:
                return self.next_(g)
            except StopIteration:
                if default:
                    return default[0]
                self.throw(StopIteration, "")

        @reg("sorted", ("key", "reverse"))
        def _sorted(it, key=None, reverse=False):
            return ListObj(self.sort_(list(I.iterate(it)), key, reverse))

        @reg("getattr")
        def _getattr(o, name, *default):
            if default:
                try:
                    return I.getattr(o, name)
                except PyRaise as e:
                    if I.exc_matches(e.exc, ExcClass(AttributeError)):
                        return default[0]
                    raise
            return I.getattr(o, name)

        @reg("setattr")
        def _setattr(o, name, v):
            I.setattr(o, name, v)

        @reg("hasattr")
        def _hasattr(o, name):
            try:
                I.getattr(o, name)
                return True
            except PyRaise as e:
                if I.exc_matches(e.exc, ExcClass(AttributeError)):
                    return False
                raise

        @reg("vars")
        def _vars(o):
            return I.getattr(o, "__dict__")

        B["super"] = NativeFn("super", self._super)
        B["locals"] = NativeFn("locals", None)
        B["globals"] = NativeFn("globals", None)
        B["eval"] = NativeFn("eval", None)
        B["exec"] = NativeFn("exec", None)

        @reg("open", ("mode", "encoding"))
        def _open(*a, **k):
            raise Unsupported("open()")

        @reg("ord")
        def _ord(c):
            return ord(c)

        @reg("chr")
        def _chr(c):
            return chr(c)

        @reg("dir")
        def _dir(*a):
            raise Unsupported("dir")

        @reg("format")
        def _fmt(v, *a):
            return self.to_str(v)

        @reg("input")
        def _input(*a):
            raise Unsupported("input")

    def _super(self, args, kw):
        if len(args) == 2:
            return SuperObj(args[0], args[1])
        raise Unsupported("super")

    def hash_of(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return hash(v)
        if isinstance(v, Poly):
            return P.new_sym(f"hash({v!r})", lo=None, taints=P.taints_of(v), op="hash", base=False)
        if isinstance(v, str):
            return P.new_sym(f"hash({v!r})", lo=None, taints=frozenset({"hashseed"}), op="hash", base=False)
        if isinstance(v, tuple):
            t = frozenset()
            names = []
            for x in v:
                h = self.hash_of(x)
                t |= P.taints_of(h)
                names.append(repr(h))
            return P.new_sym(f"hash(({','.join(names)}))", lo=None, taints=t, op="hash", base=False)
        if v is None:
            return P.new_sym("hash(None)", lo=None, taints=frozenset({"id"}), op="hash", base=False)
        if isinstance(v, (Fraction, float)):
            return hash(float(v))
        if isinstance(v, NDArr) and v.ndim == 0:
            return self.opq_int("hash", v)
        if isinstance(v, (ListObj, DictObj, NDArr, CArr)):
            self.throw(TypeError, f"unhashable type: '{self.typename(v)}'")
        if isinstance(v, (InstObj, FuncObj, ClassObj, NativeObj)):
            self.seedcount += 1
            return P.new_sym(f"hash-id#{self.seedcount}", lo=None, taints=frozenset({"id"}), base=False)
        raise Unsupported(f"hash of {type(v).__name__}")

    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, ListObj):
            return len(v.items)
        if isinstance(v, (DictObj, SetObj)):
            return len(v.d)
        if isinstance(v, GenericList):
            return v.leg.size
        if isinstance(v, GenDict):
            return v.leg.size
        if isinstance(v, RangeObj):
            if v.step == 1:
                d = P.psub(v.hi, v.lo)
                if isinstance(d, int):
                    return max(0, d)
                return d if P.nonneg(d) else P.pmax(0, d)
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
                return len(range(v.lo, v.hi, v.step))
            raise Unsupported("len of symbolic range")
        if isinstance(v, (NDArr, CArr, IntArr, IntStack, Mask)):
            if len(v.shape) == 0:
                self.throw(TypeError, "len() of unsized object")
            return v.shape[0]
        if isinstance(v, InstObj):
            m, _ = self.I.class_lookup(v.cls, "__len__")
            if m is not None:
                return self.I.call(BoundMethod(v, m), [], {})
            self.throw(TypeError, f"object of type '{v.cls.name}' has no len()")
        if isinstance(v, NUM) or v is None or isinstance(v, (GenObj, LazyIter, FuncObj)):
            self.throw(TypeError, f"object of type '{self.typename(v)}' has no len()")
        if isinstance(v, WhereIdx):
            return self.mask_count(v.mask)
        if isinstance(v, ClassObj) and v.is_enum:
            return len(v.members)
        raise Unsupported(f"len of {type(v).__name__}")

    def sum_(self, it, start=0):
        g = self.generic_of(it)
        if g is not None:
            size, mk = g
            leg = Leg(size, param=True)
            e = mk(leg)
            if isinstance(e, (IntArr, GIdx)):
                raise Unsupported("sum of generic integers")
            if isint(e):
                return self.binop("Add", start, self.binop("Mult", e, size))
            return self.binop("Add", start, self.arr(N.sum_param(self.tonet(e), leg)))
        acc = start
        for x in self.I.iterate(it):
            acc = self.binop("Add", acc, x)
        return acc

    def minmax(self, op, a, k):
        I = self.I
        key = k.get("key")
        if len(a) == 1:
            items = list(I.iterate(a[0]))
            if not items:
                if "default" in k:
                    return k["default"]
                self.throw(ValueError, f"{op}() arg is an empty sequence")
        else:
            items = list(a)
        if key is not None:
            best = items[0]
            bk = I.call(key, [best], {})
            for x in items[1:]:
                xk = I.call(key, [x], {})
                if I.truth(self.compare("Lt" if op == "min" else "Gt", xk, bk)):
                    best, bk = x, xk
            return best
        for x in items:
            if x is None or isinstance(x, (DictObj, InstObj)):
                self.throw(TypeError, f"'<' not supported between instances of '{self.typename(x)}'")
        if all(isint(x) or isinstance(x, bool) for x in items):
            return (P.pmin if op == "min" else P.pmax)(*[int(x) if isinstance(x, bool) else x for x in items])
        if all(isinstance(x, (int, Fraction, float)) for x in items):
            return min(items) if op == "min" else max(items)
        if all(isinstance(x, tuple) for x in items) or all(isinstance(x, str) for x in items):
            best = items[0]
            for x in items[1:]:
                if I.truth(self.compare("Lt" if op == "min" else "Gt", x, best)):
                    best = x
            return best
        if all(isinstance(x, (NDArr, Fraction, int, Poly)) for x in items):
            best = items[0]
            for x in items[1:]:
                if I.truth(self.compare("Lt" if op == "min" else "Gt", x, best)):
                    best = x
            return best
        raise Unsupported(f"{op} of {[type(x).__name__ for x in items]}")

    def sort_(self, items, key=None, reverse=False):
        I = self.I
        keys = [I.call(key, [x], {}) if key is not None else x for x in items]
        idx = list(range(len(items)))
        # insertion sort with abstract comparisons (stable)
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and I.truth(self.compare("Lt" if not reverse else "Gt", keys[i], keys[out[j - 1]])):
                j -= 1
            out.insert(j, i)
        return [items[i] for i in out]

    # ------------------------------------------------------------ iteration
    def iterable(self, v):
        if isinstance(v, (tuple, str, ListObj, DictObj, SetObj, RangeObj, GenObj, LazyIter,
                          GenericList, GenDict, NDArr, CArr, IntArr, IntStack, Mask)):
            if isinstance(v, (NDArr, CArr)) and len(v.shape) == 0:
                return False
            return True
        if isinstance(v, InstObj):
            return any(self.I.class_lookup(v.cls, n)[0] is not None for n in ("__iter__", "__getitem__"))
        if isinstance(v, ClassObj):
            return v.is_enum
        return isinstance(v, NativeObj) and v.kind in ("poolmap", "count")

    def iterate(self, v):
        I = self.I
        if isinstance(v, tuple):
            yield from v
            return
        if isinstance(v, ListObj):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, str):
            yield from v
            return
        if isinstance(v, DictObj):
            n = len(v.d)
            for k, x in list(v.d.values()):
                yield k
                if len(v.d) != n:
                    self.throw(RuntimeError, "dictionary changed size during iteration")
            return
        if isinstance(v, SetObj):
            yield from list(v.d.values())
            return
        if isinstance(v, RangeObj):
            lo, hi, st = v.lo, v.hi, v.step
            if all(isinstance(x, int) for x in (lo, hi, st)):
                if st == 0:
                    self.throw(ValueError, "range() arg 3 must not be zero")
                yield from range(lo, hi, st)
                return
            d = P.psub(hi, lo)
            if isinstance(d, int) and isinstance(st, int):
                for i in range(0, d, st):
                    yield P.padd(lo, i)
                return
            raise Unsupported("iteration over a symbolic range")
        if isinstance(v, GenObj):
            yield from v.gen
            return
        if isinstance(v, LazyIter):
            yield from self.lazy(v)
            return
        if isinstance(v, NDArr):
            sh = v.shape
            if not sh:
                self.throw(TypeError, "iteration over a 0-d array")
            if isinstance(sh[0], int):
                for i in range(sh[0]):
                    yield self.getitem(v, i)
                return
            raise Unsupported("iteration over an axis of symbolic length")
        if isinstance(v, CArr):
            if not v.shape:
                self.throw(TypeError, "iteration over a 0-d array")
            for i in range(v.shape[0]):
                yield self.getitem(v, i)
            return
        if isinstance(v, IntStack):
            for r in v.rows:
                yield r
            return
        if isinstance(v, (GenericList, GenDict, IntArr, Mask)):
            if isinstance(v, GenericList) and isinstance(v.leg.size, int):
                raise Unsupported("concrete generic list")
            raise Unsupported("iteration over a sequence of symbolic length")
        if isinstance(v, InstObj):
            m, _ = I.class_lookup(v.cls, "__iter__")
            if m is not None:
                it = I.call(BoundMethod(v, m), [], {})
                if isinstance(it, InstObj):
                    while True:
                        try:
                            yield self.next_(it)
                        except StopIteration:
                            return
                yield from self.iterate(it)
                return
            m, _ = I.class_lookup(v.cls, "__getitem__")
            if m is not None:
                i = 0
                while True:
                    try:
                        x = I.call(BoundMethod(v, m), [i], {})
                    except PyRaise as e:
                        if I.exc_matches(e.exc, ExcClass(IndexError)):
                            return
                        raise
                    yield x
                    i += 1
                    if i > 2000:
                        raise Unsupported("unbounded __getitem__ iteration")
        if isinstance(v, ClassObj) and v.is_enum:
            yield from v.members.values()
            return
        if isinstance(v, NativeObj) and v.kind == "poolmap":
            for f in v.items:
                self.finish([f])
                if f.exc is not None:
                    raise f.exc
                yield f.result
            return
        if isinstance(v, NativeObj) and v.kind == "count":
            i = v.start
            while True:
                yield i
                i = P.padd(i, v.step)
        if isinstance(v, (UnknownBool, WhereIdx, GIdx, NativeObj)):
            raise Unsupported(f"iteration over {type(v).__name__}")
        self.throw(TypeError, f"'{self.typename(v)}' object is not iterable")

    def lazy(self, v):
        if v.it is None:
            v.it = self._lazy(v)
        return v.it

    def _lazy(self, v):
        I = self.I
        if v.kind == "list":
            yield from v.parts[0]
        elif v.kind == "zip":
            its = [iter(I.iterate(p)) for p in v.parts]
            if not its:
                return
            first = True
            while True:
                row = []
                for i, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if v.extra and self.I.truth(v.extra):
                            if i > 0:
                                self.throw(ValueError, f"zip() argument {i + 1} is shorter than argument 1")
                            for k, it2 in enumerate(its[1:]):
                                try:
                                    next(it2)
                                except StopIteration:
                                    continue
                                self.throw(ValueError, f"zip() argument {k + 2} is longer than argument 1")
                        return
                yield tuple(row)
        elif v.kind == "enumerate":
            i = v.extra
            for x in I.iterate(v.parts[0]):
                yield (i, x)
                i = self.binop("Add", i, 1)
        elif v.kind == "map":
            its = [iter(I.iterate(p)) for p in v.parts]
            while True:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield I.call(v.extra, row, {})
        elif v.kind == "filter":
            for x in I.iterate(v.parts[0]):
                if I.truth(I.call(v.extra, [x], {}) if v.extra is not None else x):
                    yield x

    def next_(self, g):
        if isinstance(g, GenObj):
            return next(g.gen)
        if isinstance(g, LazyIter):
            return next(self.lazy(g))
        if isinstance(g, InstObj):
            m, _ = self.I.class_lookup(g.cls, "__next__")
            if m is not None:
                try:
                    return self.I.call(BoundMethod(g, m), [], {})
                except PyRaise as e:
                    if self.I.exc_matches(e.exc, ExcClass(StopIteration)):
                        raise StopIteration
                    raise
        if isinstance(g, NativeObj) and g.kind == "count":
            r = g.start
            g.start = P.padd(g.start, g.step)
            return r
        self.throw(TypeError, f"'{self.typename(g)}' object is not an iterator")

    def generic_of(self, v, force=False):
        """(size, mk(leg) -> element) when iteration has symbolic length"""
        if isinstance(v, RangeObj):
            if isinstance(P.psub(v.hi, v.lo), int):
                return None
            if isinstance(v.step, int) and v.step == 1 and isint(v.hi) and isint(v.lo):
                size = P.psub(v.hi, v.lo)
                if not P.nonneg(size):
                    size = P.pmax(0, size)
                lo = v.lo
                return size, (lambda leg: GIdx(leg, lo))
            raise Unsupported("range with symbolic bounds and step")
        if isinstance(v, GenericList):
            return v.leg.size, (lambda leg: self.rebind(v.elem, v.leg, leg))
        if isinstance(v, NDArr):
            sh = v.shape
            if sh and (force or not isinstance(sh[0], int)):
                return sh[0], (lambda leg: self.arr(N.index_axis_leg(v.net, 0, leg)))
            return None
        if isinstance(v, IntArr):
            if v.shape:
                return v.shape[0], (lambda leg: self.intarr_at(v, leg))
            return None
        if isinstance(v, LazyIter) and v.it is None:
            gs = [self.generic_of(p) for p in v.parts] if v.kind in ("zip", "enumerate", "map") else [None]
            if not any(g is not None for g in gs):
                return None
            gs = [g if g is not None else self.generic_of(p, True) if isinstance(p, NDArr) else None
                  for g, p in zip(gs, v.parts)]
            if v.kind == "enumerate":
                size, mk = gs[0]
                return size, (lambda leg: (GIdx(leg, v.extra), mk(leg)))
            if any(g is None for g in gs):
                raise Unsupported("zip of symbolic and concrete lengths")
            size = gs[0][0]
            for g in gs[1:]:
                if not P.peq(g[0], size):
                    raise Unsupported("zip of different symbolic lengths")
            if v.kind == "zip":
                return size, (lambda leg: tuple(g[1](leg) for g in gs))
            return size, (lambda leg: self.I.call(v.extra, [g[1](leg) for g in gs], {}))
        if isinstance(v, GenDict):
            return v.leg.size, (lambda leg: self.rebind(v.keys, v.leg, leg))
        return None

    def rebind(self, v, old, new):
        """replace a param leg inside an abstract value"""
        if isinstance(v, NDArr):
            return self.arr(N.map_net(v.net, {old.id: (new,)}), dtype=v.dtype)
        if isinstance(v, tuple):
            return tuple(self.rebind(x, old, new) for x in v)
        if isinstance(v, ListObj):
            return ListObj([self.rebind(x, old, new) for x in v.items])
        if isinstance(v, GIdx):
            return GIdx(new, v.off) if v.leg is old else v
        if isinstance(v, IntArr):
            return IntArr(v.shape, [(c, N.map_net(n, {old.id: (new,)})) for c, n in v.comps], v.const, v.dtype)
        if isinstance(v, (int, str, Poly, Fraction)) or v is None:
            return v
        raise Unsupported(f"generic element {type(v).__name__}")

    # ------------------------------------------------------------ strings
    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, InstObj):
            m, _ = self.I.class_lookup(v.cls, "__str__")
            if m is not None:
                return self.to_str(self.I.call(BoundMethod(v, m), [], {}))
            return f"<{v.cls.name}>"
        return repr(v) if not isinstance(v, (NDArr, CArr)) else "<array>"

    # ------------------------------------------------------------ equality of values
    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, NDArr) and isinstance(b, NDArr):
            return N.key(a.net) == N.key(b.net)
        if isinstance(a, (int, Poly, Fraction, str, float, bool)) and isinstance(b, (int, Poly, Fraction, str, float, bool)):
            return type(a) == type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        return False

    def dep_on_leg(self, v, leg):
        if isinstance(v, NDArr):
            return any(l.id == leg.id for t in v.net.terms for l in N.legs_of_term(t))
        return isinstance(v, (GIdx, IntArr))

    def tonet_first(self, lc, k):
        return None

    # ------------------------------------------------------------ context managers
    def enter(self, m):
        if isinstance(m, InstObj):
            f, _ = self.I.class_lookup(m.cls, "__enter__")
            if f is None:
                self.throw(AttributeError, "__enter__")
            return self.I.call(BoundMethod(m, f), [], {})
        if isinstance(m, NativeObj):
            return m
        if m is None:
            self.throw(AttributeError, "__enter__")
        if isinstance(m, GenObj):
            return self.next_(m)
        raise Unsupported(f"with {type(m).__name__}")

    def exit(self, m, exc):
        if isinstance(m, InstObj):
            f, _ = self.I.class_lookup(m.cls, "__exit__")
            a = [None, None, None] if exc is None else [exc.exc.cls, exc.exc, None]
            r = self.I.call(BoundMethod(m, f), a, {})
            return bool(exc is not None and r is not None and self.I.truth(r))
        if isinstance(m, NativeObj):
            if m.kind == "suppress" and exc is not None:
                return self.I.exc_matches(exc.exc, m.types)
            if m.kind == "executor":
                self.finish(m.futures)
            return False
        if isinstance(m, GenObj):
            if exc is not None:
                return False
            for _ in m.gen:
                pass
            return False
        return False

    # ------------------------------------------------------------ attributes
    def object_attr(self, o, name):
        if name == "__eq__":
            return NativeFn("__eq__", lambda a, k: o is a[0])
        if name == "__repr__" or name == "__str__":
            return NativeFn("__repr__", lambda a, k: f"<{o.cls.name}>")
        if name == "__hash__":
            return NativeFn("__hash__", lambda a, k: self.hash_of(o))
        if name == "__module__":
            return o.cls.module.name
        if name == "__doc__":
            return ""
        for k in self.I.mro(o.cls):
            if isinstance(k, BuiltinType) and k.name in ("Enum",) and name in ("name", "value"):
                return o.attrs[name]
        return None

    def method_attr(self, o, name):
        raise Unsupported(f"method attribute {name}")

    def getattr(self, o, name):
        h = self.attr_table(o, name)
        if h is not None:
            return h
        tn = self.typename(o)
        self.throw(AttributeError, f"'{tn}' object has no attribute '{name}'")

    def attr_table(self, o, name):
        if isinstance(o, (NDArr, CArr, IntArr, IntStack, Mask)):
            return self.array_attr(o, name)
        if isinstance(o, GIdx):
            raise Unsupported("attribute of generic index")
        if isinstance(o, bool) or isinstance(o, (int, Poly)):
            if name in ("real", "numerator"):
                return o
            if name == "imag":
                return 0
            if name == "denominator":
                return 1
            if name == "dtype":
                raise Unsupported("int dtype")
            if name == "item":
                return NativeFn("item", lambda a, k: o)
            if name == "astype":
                return NativeFn("astype", lambda a, k: self.cast_scalar(o, a[0]))
            if name in ("all", "any"):      # of a numpy number
                return NativeFn(name, lambda a, k: self.I.truth(o))
            if name == "bit_length":
                return NativeFn("bit_length", lambda a, k: o.bit_length() if isinstance(o, int) else self._uns("bit_length"))
            if name == "__index__":
                return NativeFn("__index__", lambda a, k: o)
            if name in KNOWN["int"] or (name in KNOWN["float64"]):
                raise Unsupported(f"int.{name}")
            return None
        if isinstance(o, (Fraction, float)):
            if name == "item":
                return NativeFn("item", lambda a, k: o)
            if name == "astype":
                return NativeFn("astype", lambda a, k: self.cast_scalar(o, a[0]))
            if name == "is_integer":
                return NativeFn("is_integer", lambda a, k: isinstance(o, Fraction) and o.denominator == 1)
            if name in KNOWN["float"] or name in KNOWN["float64"]:
                raise Unsupported(f"float.{name}")
            return None
        if isinstance(o, str):
            return self.str_attr(o, name)
        if isinstance(o, ListObj):
            return self.list_attr(o, name)
        if isinstance(o, GenericList):
            if name == "append":
                raise Unsupported("append to a list of symbolic length")
            if name in KNOWN["list"]:
                raise Unsupported(f"list.{name} of symbolic length")
            return None
        if isinstance(o, tuple):
            if name == "index":
                return NativeFn("index", lambda a, k: self._index(list(o), a[0]))
            if name == "count":
                return NativeFn("count", lambda a, k: sum(1 for x in o if self.I.truth(self.compare("Eq", x, a[0]))))
            if name in KNOWN["tuple"]:
                raise Unsupported(f"tuple.{name}")
            return None
        if isinstance(o, DictObj):
            return self.dict_attr(o, name)
        if isinstance(o, GenDict):
            if name == "get":
                return NativeFn("get", lambda a, k: self.gendict_get(o, a[0], a[1] if len(a) > 1 else None))
            raise Unsupported(f"dict.{name} of symbolic length")
        if isinstance(o, SetObj):
            return self.set_attr(o, name)
        if isinstance(o, RangeObj):
            if name in ("start", "stop", "step"):
                return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
            raise Unsupported(f"range.{name}")
        if isinstance(o, SliceObj):
            if name in ("start", "stop", "step"):
                return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
            if name == "indices":
                def ind(a, k):
                    lo, size = self.norm_slice(o, a[0])
                    return (lo, P.padd(lo, size), 1)
                return NativeFn("indices", ind)
            return None
        if isinstance(o, GenObj):
            if name == "__next__":
                return NativeFn("__next__", lambda a, k: self.builtins["next"].fn([o], {}))
            if name == "close":
                return NativeFn("close", lambda a, k: None)
            if name == "send":
                def send(a, k):
                    if a[0] is None:
                        return self.builtins["next"].fn([o], {})
                    raise Unsupported("generator.send")
                return NativeFn("send", send)
            raise Unsupported(f"generator.{name}")
        if isinstance(o, PropertyObj):
            if name == "setter":
                return NativeFn("setter", lambda a, k: PropertyObj(o.fget, a[0]))
            if name == "fget":
                return o.fget
            if name == "getter":
                return NativeFn("getter", lambda a, k: PropertyObj(a[0], o.fset))
            raise Unsupported(f"property.{name}")
        if isinstance(o, BuiltinType):
            if name in o.ns:
                return o.ns[name]
            if name == "__name__":
                return o.name
            if o.name == "dict" and name == "fromkeys":
                def fk(a, k):
                    d = DictObj()
                    for x in self.I.iterate(a[0]):
                        d.d[hkey(x)] = (x, a[1] if len(a) > 1 else None)
                    return d
                return NativeFn("fromkeys", fk)
            if o.name in ("object",) and name == "__setattr__":
                return NativeFn("object.__setattr__", lambda a, k: self.I.setattr(*a))
            if o.name in ("object",) and name == "__init__":
                return NativeFn("object.__init__", lambda a, k: None)
            if name in KNOWN.get(o.name, ()):
                def m(a, k):
                    return self.I.call(self.I.getattr(a[0], name), a[1:], k)
                return NativeFn(f"{o.name}.{name}", m)
            if o.name in ("object", "ABC", "Generic"):
                return None
            raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, ExcClass):
            if name == "__name__":
                return o.py.__name__
            if name == "__init__":
                return NativeFn("exc.__init__", lambda a, k: setattr(a[0], "args", tuple(a[1:])))
            raise Unsupported("exception class attribute")
        if isinstance(o, NativeObj):
            return self.native_attr(o, name)
        if isinstance(o, NativeFn):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in getattr(o, "ns", {}):
                return o.ns[name]
            raise Unsupported(f"attribute {name} of {o.name}")
        if isinstance(o, Partial):
            if name in ("func", "args", "keywords"):
                return {"func": o.f, "args": tuple(o.args), "keywords": DictObj({hkey(k): (k, v) for k, v in o.kw.items()})}[name]
            return None
        if isinstance(o, TypingVal):
            return TypingVal(o.name + "." + name)
        if isinstance(o, (UnknownBool, LazyIter, WhereIdx)):
            raise Unsupported(f"{type(o).__name__}.{name}")
        return None

    def _uns(self, what):
        raise Unsupported(what)

    def setattr(self, o, name, v):
        if isinstance(o, NDArr):
            if name == "shape":
                sh = tuple(self.I.iterate(v)) if self.iterable(v) else (v,)
                r = self.reshape(o, list(sh))
                if o.view is not None:
                    raise Unsupported("shape assignment on a view")
                if self.root_frozen(o):
                    self.I.event("mutation", label=self.root_frozen(o), what="shape")
                o._net = r.net
                o.version += 1
                return
            raise Unsupported("array attribute assignment")
        if isinstance(o, NativeObj):
            o.attrs[name] = v
            return
        if isinstance(o, NativeMod):
            o.ns[name] = v
            return
        if isinstance(o, (int, str, tuple, ListObj, DictObj, Fraction, Poly)) or o is None:
            self.throw(AttributeError, f"'{self.typename(o)}' object has no attribute '{name}'")
        raise Unsupported(f"setattr on {type(o).__name__}")

    def mutate(self, o, what):
        if getattr(o, "frozen", None):
            self.I.event("mutation", label=o.frozen, what=what)

    def _lj(self, o):
        """journal a list/dict for loop undo; inside generic loops structure
        changes of outer containers cannot be summarised"""
        if isinstance(o, ListObj):
            old = list(o.items)
            self.I.journal(lambda: setattr(o, "items", old))
        elif isinstance(o, DictObj):
            old = dict(o.d)
            self.I.journal(lambda: setattr(o, "d", old))
        if self.I.loops and getattr(o, "uid", None) is None:
            pass

    def list_attr(self, o, name):
        I = self.I

        def loopcheck():
            for l in I.loops:
                if not getattr(l, "owned", None) or id(o) not in l.owned:
                    raise Unsupported("list mutation inside a loop of symbolic length")

        def mut(f):
            def g(a, k):
                if I.loops:
                    return self.loop_list(o, name, a)
                self.mutate(o, f"list.{name}")
                self._lj(o)
                return f(*a, **k)
            return NativeFn("list." + name, g)

        if name == "append":
            return mut(lambda x: o.items.append(x))
        if name == "extend":
            return mut(lambda it: o.items.extend(list(I.iterate(it))))
        if name == "insert":
            return mut(lambda i, x: o.items.insert(self.cint(i), x))
        if name == "pop":
            def pop(i=-1):
                if not o.items:
                    self.throw(IndexError, "pop from empty list")
                try:
                    return o.items.pop(self.cint(i))
                except IndexError:
                    self.throw(IndexError, "pop index out of range")
            return mut(pop)
        if name == "reverse":
            return mut(lambda: o.items.reverse())
        if name == "clear":
            return mut(lambda: o.items.clear())
        if name == "sort":
            def srt(key=None, reverse=False):
                o.items = self.sort_(o.items, key, reverse)
            return mut(srt)
        if name == "remove":
            def rem(x):
                i = self._index(o.items, x)
                del o.items[i]
            return mut(rem)
        if name == "copy":
            return NativeFn("list.copy", lambda a, k: ListObj(o.items))
        if name == "index":
            return NativeFn("list.index", lambda a, k: self._index(o.items, a[0]))
        if name == "count":
            return NativeFn("list.count", lambda a, k: sum(1 for x in o.items if I.truth(self.compare("Eq", x, a[0]))))
        if name == "__len__":
            return NativeFn("len", lambda a, k: len(o.items))
        if name == "__getitem__":
            return NativeFn("getitem", lambda a, k: self.getitem(o, a[0]))
        if name == "__setitem__":
            return NativeFn("setitem", lambda a, k: self.setitem(o, a[0], a[1]))
        if name in KNOWN["list"]:
            raise Unsupported(f"list.{name}")
        return None

    def loop_list(self, o, name, a):
        """list built by append inside a generic loop -> symbolic-length list"""
        raise Unsupported("list mutation inside a loop of symbolic length")

    def _index(self, items, x):
        for i, y in enumerate(items):
            if self.I.truth(self.compare("Eq", y, x)):
                return i
        self.throw(ValueError, "x not in sequence")

    def cint(self, i):
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, Fraction) or i is None or isinstance(i, (str, tuple, float)):
            self.throw(TypeError, "list indices must be integers or slices, not " + self.typename(i))
        raise Unsupported("symbolic index into a concrete sequence")

    def dict_attr(self, o, name):
        I = self.I

        def mut(f):
            def g(a, k):
                self.mutate(o, f"dict.{name}")
                self._lj(o)
                return f(*a, **k)
            return NativeFn("dict." + name, g)

        if name == "get":
            def get(a, k):
                d = a[1] if len(a) > 1 else k.get("default")
                try:
                    kk = hkey(a[0])
                except Unsupported:
                    raise
                return o.d[kk][1] if kk in o.d else d
            return NativeFn("dict.get", get)
        if name == "items":
            return NativeFn("items", lambda a, k: ListObj([(kk, v) for kk, v in o.d.values()]))
        if name == "keys":
            return NativeFn("keys", lambda a, k: ListObj([kk for kk, v in o.d.values()]))
        if name == "values":
            return NativeFn("values", lambda a, k: ListObj([v for kk, v in o.d.values()]))
        if name == "copy":
            return NativeFn("copy", lambda a, k: DictObj(o.d))
        if name == "update":
            def upd(*a, **k):
                if a:
                    o.d.update(self.c_dict(a, {}).d)
                for kk, v in k.items():
                    o.d[hkey(kk)] = (kk, v)
            return mut(upd)
        if name == "setdefault":
            def sd(k, d=None):
                return o.d.setdefault(hkey(k), (k, d))[1]
            return mut(sd)
        if name == "pop":
            def pop(k, *d):
                kk = hkey(k)
                if kk in o.d:
                    return o.d.pop(kk)[1]
                if d:
                    return d[0]
                self.throw(KeyError, self.to_str(k))
            return mut(pop)
        if name == "clear":
            return mut(lambda: o.d.clear())
        if name in KNOWN["dict"]:
            raise Unsupported(f"dict.{name}")
        return None

    def set_attr(self, o, name):
        I = self.I
        if name == "add":
            return NativeFn("set.add", lambda a, k: o.d.__setitem__(hkey(a[0]), a[0]))
        if name == "update":
            return NativeFn("set.update", lambda a, k: [o.d.__setitem__(hkey(x), x) for s in a for x in I.iterate(s)] and None)
        if name in ("discard", "remove"):
            def disc(a, k):
                if hkey(a[0]) not in o.d and name == "remove":
                    self.throw(KeyError, "")
                o.d.pop(hkey(a[0]), None)
            return NativeFn("set.discard", disc)
        if name in ("union", "intersection", "difference", "issubset", "issuperset"):
            def f(a, k):
                b = SetObj(I.iterate(a[0]))
                if name == "union":
                    return SetObj(list(o.d.values()) + list(b.d.values()))
                if name == "intersection":
                    return SetObj([v for kk, v in o.d.items() if kk in b.d])
                if name == "difference":
                    return SetObj([v for kk, v in o.d.items() if kk not in b.d])
                if name == "issubset":
                    return all(kk in b.d for kk in o.d)
                return all(kk in o.d for kk in b.d)
            return NativeFn("set." + name, f)
        if name in KNOWN["set"]:
            raise Unsupported(f"set.{name}")
        return None

    def str_attr(self, o, name):
        if name not in KNOWN["str"]:
            return None
        if name == "join":
            return NativeFn("join", lambda a, k: o.join(self.to_str(x) for x in self.I.iterate(a[0])))
        if name == "format":
            return NativeFn("format", lambda a, k: o)
        def f(a, k):
            if all(isinstance(x, (str, int, tuple)) for x in a) and not k:
                r = getattr(o, name)(*a)
                return ListObj(r) if isinstance(r, list) else r
            raise Unsupported(f"str.{name}")
        return NativeFn("str." + name, f)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, idx):
        I = self.I
        if isinstance(o, (ListObj, tuple, str)):
            items = o.items if isinstance(o, ListObj) else o
            if isinstance(idx, SliceObj):
                lo, hi, st = self.conc_slice(idx, len(items))
                r = items[lo:hi:st]
                return ListObj(r) if isinstance(o, ListObj) else r
            if isinstance(idx, GIdx):
                raise Unsupported("generic index into a concrete sequence")
            i = self.cint(idx if not isinstance(idx, NDArr) else self.c_int([idx], {}))
            if not -len(items) <= i < len(items):
                self.throw(IndexError, f"{self.typename(o)} index out of range")
            return items[i]
        if isinstance(o, DictObj):
            k = hkey(idx)
            if k in o.d:
                return o.d[k][1]
            if o.default is not None:
                v = I.call(o.default, [], {})
                o.d[k] = (idx, v)
                return v
            self.throw(KeyError, self.to_str(idx))
        if isinstance(o, GenDict):
            raise Unsupported("lookup in a dict of symbolic length")
        if isinstance(o, RangeObj):
            if isinstance(idx, SliceObj):
                items = list(self.iterate(o))
                lo, hi, st = self.conc_slice(idx, len(items))
                return ListObj(items[lo:hi:st])
            n = self.length(o)
            i = self.cint(idx)
            if i < 0:
                i = P.padd(n, i)
            return P.padd(o.lo, P.pmul(i, o.step))
        if isinstance(o, GenericList):
            if isinstance(idx, GIdx) and isinstance(idx.off, int) and idx.off == 0 and P.peq(idx.leg.size, o.leg.size):
                return self.rebind(o.elem, o.leg, idx.leg)
            raise Unsupported("index into a list of symbolic length")
        if isinstance(o, (NDArr, CArr, IntArr, IntStack, Mask)):
            return self.array_getitem(o, idx)
        if isinstance(o, InstObj):
            m, _ = I.class_lookup(o.cls, "__getitem__")
            if m is not None:
                return I.call(BoundMethod(o, m), [idx], {})
            self.throw(TypeError, f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, TypingVal):
            return TypingVal(o.name)
        if isinstance(o, ClassObj):
            if o.is_enum:
                if idx in o.members:
                    return o.members[idx]
                self.throw(KeyError, self.to_str(idx))
            return o          # Generic[T] subscription
        if isinstance(o, BuiltinType):
            return TypingVal(o.name)
        if isinstance(o, NativeObj) and o.kind in ("r_", "c_", "s_"):
            return self.np_r(o.kind, idx)
        if isinstance(o, (WhereIdx, UnknownBool, LazyIter, GIdx)):
            raise Unsupported(f"subscript of {type(o).__name__}")
        if isinstance(o, NativeObj):
            raise Unsupported(f"subscript of {o.kind}")
        self.throw(TypeError, f"'{self.typename(o)}' object is not subscriptable")

    def conc_slice(self, s, n):
        out = []
        for x in (s.lo, s.hi, s.step):
            if x is None or isinstance(x, int):
                out.append(x)
            elif isinstance(x, Poly):
                # bounds clamp against a concrete length
                if P.cmp_ge(x, n):
                    out.append(n)
                else:
                    raise Unsupported("symbolic slice of a concrete sequence")
            elif isinstance(x, (Fraction, float, str)):
                self.throw(TypeError, "slice indices must be integers")
            else:
                raise Unsupported("slice bound")
        if out[2] == 0:
            self.throw(ValueError, "slice step cannot be zero")
        return out

    def setitem(self, o, idx, v, aug=False):
        I = self.I
        if isinstance(o, ListObj):
            if aug:
                i = self.cint(idx)
                if o.items[i] is v:
                    return
            self.mutate(o, "list item")
            if I.loops:
                self._lj(o)
            if isinstance(idx, SliceObj):
                lo, hi, st = self.conc_slice(idx, len(o.items))
                vals = list(I.iterate(v))
                try:
                    o.items[slice(lo, hi, st)] = vals
                except ValueError as e:
                    self.throw(ValueError, str(e))
                return
            i = self.cint(idx)
            if not -len(o.items) <= i < len(o.items):
                self.throw(IndexError, "list assignment index out of range")
            o.items[i] = v
            return
        if isinstance(o, DictObj):
            k = hkey(idx)
            self.mutate(o, "dict item")
            if I.loops:
                self._lj(o)
            o.d[k] = (idx, v)
            return
        if isinstance(o, (NDArr, CArr, IntArr, IntStack, Mask)):
            return self.array_setitem(o, idx, v, aug)
        if isinstance(o, InstObj):
            m, _ = I.class_lookup(o.cls, "__setitem__")
            if m is not None:
                I.call(BoundMethod(o, m), [idx, v], {})
                return
        if isinstance(o, (tuple, str, int, Poly, Fraction, InstObj)) or o is None:
            self.throw(TypeError, f"'{self.typename(o)}' object does not support item assignment")
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def delitem(self, o, idx):
        if isinstance(o, ListObj):
            self.mutate(o, "del item")
            if isinstance(idx, SliceObj):
                lo, hi, st = self.conc_slice(idx, len(o.items))
                del o.items[slice(lo, hi, st)]
                return
            i = self.cint(idx)
            if not -len(o.items) <= i < len(o.items):
                self.throw(IndexError, "list assignment index out of range")
            del o.items[i]
            return
        if isinstance(o, DictObj):
            k = hkey(idx)
            if k not in o.d:
                self.throw(KeyError, self.to_str(idx))
            self.mutate(o, "del item")
            del o.d[k]
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------ operators
    def unop(self, op, v):
        I = self.I
        if isinstance(v, bool):
            v = int(v)
            if op == "Invert":
                return ~v
        if isinstance(v, InstObj):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__", "Abs": "__abs__"}[op]
            m, _ = I.class_lookup(v.cls, nm)
            if m is None:
                self.throw(TypeError, f"bad operand type for unary: '{v.cls.name}'")
            return I.call(BoundMethod(v, m), [], {})
        if isinstance(v, (int, Fraction, float)):
            if op == "USub":
                return -v
            if op == "UAdd":
                return v
            if op == "Abs":
                return abs(v)
            if op == "Invert" and isinstance(v, int):
                return ~v
        if isinstance(v, Poly):
            if op == "USub":
                return -v
            if op == "UAdd":
                return v
            if op == "Abs":
                if P.nonneg(v):
                    return v
                if P.nonneg(-v):
                    return -v
                raise Unsupported("abs of a symbolic integer")
        if isinstance(v, UnknownBool) and op == "Invert":
            return v.negate()
        if isinstance(v, (NDArr, CArr, IntArr, Mask)):
            return self.array_unop(op, v)
        if v is None or isinstance(v, (str, tuple, ListObj, DictObj, FuncObj)):
            self.throw(TypeError, f"bad operand type for unary {op}: '{self.typename(v)}'")
        raise Unsupported(f"unary {op} on {type(v).__name__}")

    OPN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
           "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or",
           "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, UnknownBool) and isinstance(b, (bool, UnknownBool)) and op in ("BitAnd", "BitOr"):
            ta = I.truth(a)
            tb = I.truth(b)
            return (ta and tb) if op == "BitAnd" else (ta or tb)
        if isinstance(b, UnknownBool) and isinstance(a, bool):
            tb = I.truth(b)
            return (a and tb) if op == "BitAnd" else (a or tb) if op == "BitOr" else self.binop(op, a, tb)
        if isinstance(a, UnknownBool):
            a = I.truth(a)
        if isinstance(b, UnknownBool):
            b = I.truth(b)
        if isinstance(a, bool) and isinstance(b, bool) and op in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        nm = self.OPN[op]
        arrt = (NDArr, CArr, IntArr, IntStack, Mask)
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            # reflected priority for subclasses
            if isinstance(a, arrt) and isinstance(b, InstObj):
                # numpy tries to coerce the object: elementwise objects; repo
                # classes define no __array_priority__
                m, _ = I.class_lookup(b.cls, f"__array_ufunc__")
                if m is None and a.shape != ():
                    raise Unsupported("numpy array operator with a library object")
            if isinstance(a, InstObj):
                m, own = I.class_lookup(a.cls, f"__{nm}__")
                sub = isinstance(b, InstObj) and b.cls is not a.cls and a.cls in I.mro(b.cls)
                if sub:
                    rm, rown = I.class_lookup(b.cls, f"__r{nm}__")
                    am, aown = I.class_lookup(a.cls, f"__r{nm}__")
                    if rm is not None and rm is not am:
                        r = I.call(I.bind(rm, b), [a], {})
                        if r is not NOTIMPL:
                            return r
                if m is not None:
                    r = I.call(I.bind(m, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, InstObj):
                m, _ = I.class_lookup(b.cls, f"__r{nm}__")
                if m is not None:
                    r = I.call(I.bind(m, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            self.throw(TypeError, f"unsupported operand type(s) for {op}: '{self.typename(a)}' and '{self.typename(b)}'")
        if isinstance(a, arrt) or isinstance(b, arrt):
            return self.array_binop(op, a, b)
        if isinstance(a, GIdx) or isinstance(b, GIdx):
            return self.gidx_binop(op, a, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            return self.num_binop(op, a, b)
        if op == "Add":
            if isinstance(a, ListObj) and isinstance(b, ListObj):
                return ListObj(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, GenericList) or isinstance(b, GenericList):
                raise Unsupported("concatenation of lists of symbolic length")
        if op == "Mult":
            if isint(a):
                a, b = b, a
            if isinstance(a, (ListObj, tuple, str)) and isint(b):
                if not isinstance(b, int):
                    if len(a.items if isinstance(a, ListObj) else a) == 1:
                        x = (a.items if isinstance(a, ListObj) else a)[0]
                        return GenericList(Leg(b, param=True), x)
                    raise Unsupported("repetition of symbolic length")
                return ListObj(a.items * b) if isinstance(a, ListObj) else a * b
        if op == "Mod" and isinstance(a, str):
            return a
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            if op == "BitOr":
                return SetObj(list(a.d.values()) + list(b.d.values()))
            if op == "BitAnd":
                return SetObj([v for k, v in a.d.items() if k in b.d])
            if op == "Sub":
                return SetObj([v for k, v in a.d.items() if k not in b.d])
        if isinstance(a, DictObj) and isinstance(b, DictObj) and op == "BitOr":
            d = DictObj(a.d)
            d.d.update(b.d)
            return d
        if isinstance(a, (TypingVal, ClassObj, BuiltinType)) or isinstance(b, (TypingVal, ClassObj, BuiltinType)):
            if op == "BitOr":
                return TypingVal("Union")
        plain = (int, Poly, Fraction, float, str, tuple, ListObj, DictObj, SetObj, type(None),
                 FuncObj, ClassObj, BoundMethod, SliceObj, RangeObj, GenObj, ExcInst)
        if isinstance(a, plain) and isinstance(b, plain):
            self.throw(TypeError, f"unsupported operand type(s) for {op}: '{self.typename(a)}' and '{self.typename(b)}'")
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

    def num_binop(self, op, a, b):
        ints = isint(a) and isint(b)
        if isinstance(a, float) or isinstance(b, float):
            # inf / nan only
            if isinstance(a, Poly) or isinstance(b, Poly):
                raise Unsupported("infinite arithmetic")
            import operator as o
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "Pow": o.pow, "FloorDiv": o.floordiv, "Mod": o.mod}[op]
            try:
                return self.unfloat(f(float(a), float(b)))
            except ZeroDivisionError:
                self.throw(ZeroDivisionError, "float division by zero")
        if ints:
            if op == "Add":
                return P.padd(a, b)
            if op == "Sub":
                return P.psub(a, b)
            if op == "Mult":
                return P.pmul(a, b)
            if op == "FloorDiv":
                if isinstance(b, int) and b == 0:
                    self.throw(ZeroDivisionError, "integer division or modulo by zero")
                return P.pfloordiv(a, b)
            if op == "Mod":
                if isinstance(b, int) and b == 0:
                    self.throw(ZeroDivisionError, "integer modulo by zero")
                return P.pmod(a, b)
            if op == "Pow":
                if isinstance(b, int) and b >= 0:
                    return P.ppow(a, b)
                if isinstance(a, int) and isinstance(b, int):
                    return Fraction(a) ** b
                raise Unsupported("symbolic exponent")
            if op == "Div":
                if isinstance(b, int) and b == 0:
                    self.throw(ZeroDivisionError, "division by zero")
                if isinstance(a, int) and isinstance(b, int):
                    return Fraction(a, b)
                q = P.exact_div(a, b)
                if isinstance(q, int):
                    return Fraction(q)
                return self.arr(N.ewise_mul(self.tonet(a), N.scal_recip(self.tonet(b))))
            if isinstance(a, int) and isinstance(b, int):
                import operator as o
                return {"BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift, "RShift": o.rshift}[op](a, b)
            if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                return P.opaque(op, (a, b), lo=0)
            raise Unsupported(f"{op} on symbolic integers")
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.array_binop(op, self.arr(self.tonet(a)), self.arr(self.tonet(b)))
        a, b = Fraction(a), Fraction(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                self.throw(ZeroDivisionError, "float division by zero")
            return a / b
        if op == "FloorDiv":
            if b == 0:
                self.throw(ZeroDivisionError, "float floor division by zero")
            return Fraction(a // b)
        if op == "Mod":
            if b == 0:
                self.throw(ZeroDivisionError, "float modulo")
            return a % b
        if op == "Pow":
            if b.denominator == 1:
                if a == 0 and b < 0:
                    self.throw(ZeroDivisionError, "0.0 cannot be raised to a negative power")
                return a ** int(b)
            return self.arr(N.scal_pow(N.scalar_net(a), b))
        if op == "MatMult":
            self.throw(TypeError, "unsupported operand type(s) for @")
        self.throw(TypeError, f"unsupported operand type(s) for {op}: 'float'")

    def unfloat(self, f):
        if f != f or abs(f) == float("inf"):
            return f
        return Fraction(f)

    def gidx_binop(self, op, a, b):
        if op == "Add" and isinstance(a, GIdx) and isint(b):
            return GIdx(a.leg, P.padd(a.off, b))
        if op == "Add" and isinstance(b, GIdx) and isint(a):
            return GIdx(b.leg, P.padd(b.off, a))
        if op == "Sub" and isinstance(a, GIdx) and isint(b):
            return GIdx(a.leg, P.psub(a.off, b))
        raise Unsupported(f"{op} on a generic index")

    def inplace(self, op, a, b):
        I = self.I
        if isinstance(a, InstObj):
            nm = self.OPN[op]
            m, _ = I.class_lookup(a.cls, f"__i{nm}__")
            if m is not None:
                r = I.call(I.bind(m, a), [b], {})
                if r is not NOTIMPL:
                    return r
            return self.binop(op, a, b)
        if isinstance(a, ListObj) and op == "Add":
            self.list_attr(a, "extend").fn([b], {})
            return a
        if isinstance(a, ListObj) and op == "Mult":
            self.mutate(a, "list *=")
            a.items = a.items * self.cint(b)
            return a
        if isinstance(a, (SetObj, DictObj)) and op == "BitOr":
            self.mutate(a, "|=")
            a.d.update(b.d)
            return a
        if isinstance(a, (NDArr, CArr, IntArr, Mask)):
            return self.array_inplace(op, a, b)
        return self.binop(op, a, b)

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        I = self.I
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, UnknownBool):
                return r if op == "In" else r.negate()
            return r if op == "In" else not r
        if isinstance(a, UnknownBool) or isinstance(b, UnknownBool):
            if isinstance(a, UnknownBool):
                a = I.truth(a)
            if isinstance(b, UnknownBool):
                b = I.truth(b)
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            rn = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
            for x, y, n in ((a, b, nm), (b, a, rn)):
                if isinstance(x, InstObj):
                    m, _ = I.class_lookup(x.cls, n)
                    if m is not None:
                        r = I.call(BoundMethod(x, m), [y], {})
                        if r is not NOTIMPL:
                            return r
                    if n == "__ne__":
                        m, _ = I.class_lookup(x.cls, "__eq__")
                        if m is not None:
                            r = I.call(BoundMethod(x, m), [y], {})
                            if r is not NOTIMPL:
                                return r.negate() if isinstance(r, UnknownBool) else not I.truth(r)
            if op in ("Eq", "NotEq"):
                if isinstance(a, InstObj) and isinstance(b, InstObj) and a.cls is b.cls and \
                        a.cls.fields is not None and a is not b:
                    fs = self.I.dc_fields(a.cls)
                    r = all(I.truth(self.compare("Eq", a.attrs[n], b.attrs[n])) for n, _ in fs)
                    return r if op == "Eq" else not r
                return (a is b) if op == "Eq" else (a is not b)
            self.throw(TypeError, f"'{op}' not supported between instances of '{self.typename(a)}' and '{self.typename(b)}'")
        arrt = (NDArr, CArr, IntArr, IntStack, Mask)
        if isinstance(a, arrt) or isinstance(b, arrt):
            return self.array_compare(op, a, b)
        if isinstance(a, GIdx) or isinstance(b, GIdx):
            if isinstance(a, GIdx) and isinstance(b, GIdx) and a.leg is b.leg:
                return self.compare(op, a.off, b.off)
            raise Unsupported("comparison of a generic index")
        if isinstance(a, NUM) and isinstance(b, NUM):
            return self.num_compare(op, a, b)
        if isinstance(a, (tuple, ListObj)) and isinstance(b, (tuple, ListObj)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                self.throw(TypeError, f"'{op}' not supported between instances")
            x = a.items if isinstance(a, ListObj) else a
            y = b.items if isinstance(b, ListObj) else b
            if op in ("Eq", "NotEq"):
                if len(x) != len(y):
                    return op == "NotEq"
                rs = []
                for p, q in zip(x, y):
                    if p is q:
                        continue
                    r = self.compare("Eq", p, q)
                    if r is False:
                        return op == "NotEq"
                    rs.append(r)
                for r in rs:
                    if not I.truth(r):
                        return op == "NotEq"
                return op == "Eq"
            for p, q in zip(x, y):
                if not I.truth(self.compare("Eq", p, q)):
                    return self.compare(op, p, q)
            return self.num_compare(op, len(x), len(y))
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, DictObj) and isinstance(b, DictObj) and op in ("Eq", "NotEq"):
            r = a.d.keys() == b.d.keys() and all(I.truth(self.compare("Eq", a.d[k][1], b.d[k][1])) for k in a.d)
            return r if op == "Eq" else not r
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            x, y = set(a.d), set(b.d)
            return {"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        if op in ("Eq", "NotEq"):
            known = (int, Poly, Fraction, float, str, tuple, ListObj, DictObj, SetObj, type(None), ClassObj,
                     FuncObj, BuiltinType, ExcClass, BoundMethod, RangeObj, ExcInst, NativeFn, NativeMod, StaticMethod)
            if isinstance(a, known) and isinstance(b, known):
                if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
                    r = a.self is b.self and a.func is b.func
                elif isinstance(a, RangeObj) and isinstance(b, RangeObj):
                    r = (a.lo, a.hi, a.step) == (b.lo, b.hi, b.step)
                else:
                    r = a is b
                return r if op == "Eq" else not r
            if a is b:
                return op == "Eq"
            if a is None or b is None:
                return op == "NotEq"
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
        self.throw(TypeError, f"'{op}' not supported between instances of '{self.typename(a)}' and '{self.typename(b)}'")

    def num_compare(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, Poly) or isinstance(b, Poly):
                f, p, flip = (a, b, False) if isinstance(a, float) else (b, a, True)
                if f != f:
                    return op == "NotEq"
                s = 1 if f > 0 else -1
                s = s if not flip else -s      # sign of a - b
                return {"Eq": False, "NotEq": True, "Lt": s < 0, "LtE": s < 0, "Gt": s > 0, "GtE": s > 0}[op]
            a, b = float(a), float(b)
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            den = 1
            if isinstance(a, Fraction):
                den *= a.denominator
            if isinstance(b, Fraction):
                den *= b.denominator
            a = P.pmul(a, den) if not isinstance(a, Fraction) else int(a * den)
            b = P.pmul(b, den) if not isinstance(b, Fraction) else int(b * den)
        if op in ("Eq", "NotEq"):
            r = P.cmp_eq(a, b)
            if r is None:
                d = P.psub(a, b)
                u = UnknownBool(("eq", P.pkey(d)), f"{a} == {b}", eq=d)
                nd = P.pneg(d)
                if P.pkey(nd) < P.pkey(d):
                    u = UnknownBool(("eq", P.pkey(nd)), f"{a} == {b}", eq=nd)
                return u if op == "Eq" else u.negate()
            return r if op == "Eq" else not r
        if op == "Lt":
            return self._ge(b, P.padd(a, 1))
        if op == "LtE":
            return self._ge(b, a)
        if op == "Gt":
            return self._ge(a, P.padd(b, 1))
        return self._ge(a, b)

    def _ge(self, a, b):
        r = P.cmp_ge(a, b)
        if r is not None:
            return r
        d = P.psub(a, b)           # >= 0 ?
        nd = P.psub(-1, d)         # complement: nd >= 0
        k1, k2 = P.pkey(d), P.pkey(nd)
        if k2 < k1:
            u = UnknownBool(("ge", k2), f"{a} < {b}", lambda: P.add_fact(nd), lambda: P.add_fact(d))
            return u.negate()
        return UnknownBool(("ge", k1), f"{a} >= {b}", lambda: P.add_fact(d), lambda: P.add_fact(nd))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, str)) and isinstance(b, (bool, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        if isinstance(a, UnknownBool) and isinstance(b, bool):
            return self.I.truth(a) is b
        if isinstance(b, UnknownBool) and isinstance(a, bool):
            return self.I.truth(b) is a
        return False

    def contains(self, c, x):
        I = self.I
        if isinstance(c, (tuple, ListObj)):
            for y in (c.items if isinstance(c, ListObj) else c):
                if y is x or I.truth(self.compare("Eq", x, y)):
                    return True
            return False
        if isinstance(c, (DictObj, SetObj)):
            return hkey(x) in c.d
        if isinstance(c, str):
            if not isinstance(x, str):
                self.throw(TypeError, "'in <string>' requires string as left operand")
            return x in c
        if isinstance(c, RangeObj):
            if c.step == 1:
                a = self.num_compare("GtE", x, c.lo)
                b = self.num_compare("Lt", x, c.hi)
                return I.truth(a) and I.truth(b)
            return any(I.truth(self.compare("Eq", x, y)) for y in self.iterate(c))
        if isinstance(c, InstObj):
            m, _ = I.class_lookup(c.cls, "__contains__")
            if m is not None:
                return I.truth(I.call(BoundMethod(c, m), [x], {}))
            return any(I.truth(self.compare("Eq", x, y)) for y in self.iterate(c))
        if isinstance(c, (GenObj, LazyIter, CArr)):
            return any(I.truth(self.compare("Eq", x, y)) for y in self.iterate(c if not isinstance(c, CArr) else tuple(c.flat())))
        if isinstance(c, ClassObj) and c.is_enum:
            return any(m is x for m in c.members.values())
        if c is None or isinstance(c, NUM):
            self.throw(TypeError, f"argument of type '{self.typename(c)}' is not iterable")
        raise Unsupported(f"membership in {type(c).__name__}")

    def truth(self, v):
        if isinstance(v, (NDArr, CArr, IntArr, Mask)):
            return self.array_truth(v)
        if isinstance(v, (FuncObj, ClassObj, BoundMethod, NativeFn, NativeMod, BuiltinType, GenObj,
                          LazyIter, ExcInst, ExcClass, Partial, NativeObj)) or v is ELLIPSIS:
            return True
        if isinstance(v, RangeObj):
            return self.I.truth(self.length(v))
        if isinstance(v, GenericList):
            return self.I.truth(v.leg.size)
        raise Unsupported(f"truth of {type(v).__name__}")

    # ------------------------------------------------------------ modules
    def known(self, modname, attr):
        return attr in KNOWN.get(modname, ())

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split(".")[0]
        if name in KNOWN and top != self.I.package and not os.path.exists(os.path.join(self.I.repo, top)):
            m = NativeMod(name, {})
            self.mods[name] = m
            return m
        if top in ("pandas", "matplotlib", "tqdm", "seaborn", "requests", "scipy", "numpy", "IPython",
                   "mkl", "psutil", "joblib", "numba"):
            m = NativeMod(name, {})
            m.opaque = True
            self.mods[name] = m
            return m
        if name == "__future__":
            m = NativeMod(name, {"annotations": True})
            self.mods[name] = m
            return m
        return None

    def nsmod(self, name, **ns):
        m = self.mods.get(name)
        if m is None:
            m = NativeMod(name, {})
            self.mods[name] = m
        m.ns.update(ns)
        return m

    def _mk_std(self):
        I = self.I
        s = self.simple
        # typing
        ns = {}
        for n in KNOWN["typing"]:
            if not n.startswith("_"):
                ns[n] = TypingVal(n)
        ns["TypeVar"] = NativeFn("TypeVar", lambda a, k: TypingVal(a[0]))
        ns["Generic"] = BuiltinType("Generic", lambda v: False)
        ns["Protocol"] = BuiltinType("Protocol", lambda v: False)
        ns["NamedTuple"] = BuiltinType("NamedTuple", lambda v: False)
        ns["cast"] = NativeFn("cast", lambda a, k: a[1])
        ns["TYPE_CHECKING"] = False
        ident = NativeFn("identity", lambda a, k: a[0])
        for n in ("final", "no_type_check", "runtime_checkable", "override"):
            ns[n] = ident
        def overload(a, k):
            return a[0]
        ns["overload"] = NativeFn("overload", overload)
        self.nsmod("typing", **ns)
        self.nsmod("__future__", annotations=True)
        cabc = {}
        for n in KNOWN["collections.abc"]:
            b = self.typing_iface(n)
            if b is not None:
                cabc[n] = b
        self.nsmod("collections.abc", **cabc)
        # abc
        def absm(a, k):
            f = a[0]
            g = f.f if isinstance(f, (StaticMethod, ClassMethod)) else f
            if isinstance(g, (FuncObj, PropertyObj)):
                g.abstract = True
            return f
        def absprop(a, k):
            p = PropertyObj(a[0])
            p.abstract = True
            return p
        self.nsmod("abc", ABC=BuiltinType("ABC", lambda v: False), ABCMeta=self.T["type"],
                   abstractmethod=NativeFn("abstractmethod", absm),
                   abstractproperty=NativeFn("abstractproperty", absprop),
                   abstractclassmethod=NativeFn("abstractclassmethod", lambda a, k: absm([ClassMethod(a[0])], {})),
                   abstractstaticmethod=NativeFn("abstractstaticmethod", lambda a, k: absm([StaticMethod(a[0])], {})))
        # dataclasses
        def dataclass(a, k):
            def deco(c):
                fields = []
                for nm, has, ann in c.annotations:
                    if ann.startswith("ClassVar") or ann.startswith("typing.ClassVar"):
                        continue
                    d = None
                    if has:
                        d = (c.ns[nm],)
                    fields.append((nm, d))
                seen = {}
                for nm, d in fields:
                    seen[nm] = d
                c.fields = list(seen.items())
                return c
            if a:
                return deco(a[0])
            return NativeFn("dataclass", lambda aa, kk: deco(aa[0]))
        def field(a, k):
            return NativeObj("dc_field", factory=k.get("default_factory"), has_default="default" in k, default=k.get("default"))
        def dcreplace(a, k):
            o = a[0]
            fs = I.dc_fields(o.cls)
            kw = {n: o.attrs[n] for n, _ in fs}
            kw.update(k)
            return I.call(o.cls, [], kw)
        self.nsmod("dataclasses", dataclass=NativeFn("dataclass", dataclass), field=NativeFn("field", field),
                   replace=NativeFn("replace", dcreplace))
        # enum
        self.nsmod("enum", Enum=BuiltinType("Enum", lambda v: False), IntEnum=BuiltinType("IntEnum", lambda v: False),
                   Flag=BuiltinType("Flag", lambda v: False), unique=ident,
                   auto=NativeFn("auto", lambda a, k: NativeObj("enum_auto")))
        # functools
        def reduce_(f, it, *init):
            xs = iter(I.iterate(it))
            if init:
                acc = init[0]
            else:
                try:
                    acc = next(xs)
                except StopIteration:
                    self.throw(TypeError, "reduce() of empty iterable with no initial value")
            for x in xs:
                acc = I.call(f, [acc, x], {})
            return acc
        def lru(a, k):
            if a and isinstance(a[0], FuncObj):
                return self.memo(a[0])
            return NativeFn("lru_cache", lambda aa, kk: self.memo(aa[0]))
        def wraps(a, k):
            return NativeFn("wraps", lambda aa, kk: aa[0])
        def sdisp(a, k):
            base = a[0]
            disp = NativeObj("singledispatch", base=base, table=[])
            return disp
        self.nsmod("functools", reduce=s("reduce", reduce_), partial=NativeFn("partial", lambda a, k: Partial(a[0], a[1:], k)),
                   cached_property=NativeFn("cached_property", lambda a, k: PropertyObj(a[0], None, True)),
                   lru_cache=NativeFn("lru_cache", lru), cache=NativeFn("cache", lru),
                   wraps=NativeFn("wraps", wraps), singledispatch=NativeFn("singledispatch", sdisp),
                   total_ordering=ident)
        # operator
        op = {}
        for n, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"),
                     ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult"), ("and_", "BitAnd"), ("or_", "BitOr")):
            op[n] = s(n, (lambda a, b, o=o: self.binop(o, a, b)))
        for n, o in (("iadd", "Add"), ("isub", "Sub"), ("imul", "Mult")):
            op[n] = s(n, (lambda a, b, o=o: self.inplace(o, a, b)))
        for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
            op[n] = s(n, (lambda a, b, o=o: self.compare(o, a, b)))
        op["neg"] = s("neg", lambda a: self.unop("USub", a))
        op["itemgetter"] = s("itemgetter", lambda *ks: NativeFn("itemgetter", lambda a, k: self.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(self.getitem(a[0], x) for x in ks)))
        op["attrgetter"] = s("attrgetter", lambda n: NativeFn("attrgetter", lambda a, k: I.getattr(a[0], n)))
        op["getitem"] = s("getitem", lambda o, i: self.getitem(o, i))
        op["setitem"] = s("setitem", lambda o, i, v: self.setitem(o, i, v))
        op["contains"] = s("contains", lambda o, i: self.contains(o, i))
        op["not_"] = s("not_", lambda o: not I.truth(o))
        op["index"] = s("index", lambda o: self.c_int([o], {}))
        self.nsmod("operator", **op)
        # itertools
        import itertools as it
        def acc(itr, func=None, initial=None):
            out = []
            tot = initial
            first = initial is None
            if not first:
                out.append(tot)
            for x in I.iterate(itr):
                if first:
                    tot = x
                    first = False
                else:
                    tot = I.call(func, [tot, x], {}) if func is not None else self.binop("Add", tot, x)
                out.append(tot)
            return ListObj(out)
        def lst(x):
            return list(I.iterate(x))
        self.nsmod("itertools",
                   product=s("product", lambda *a, repeat=1: ListObj(list(it.product(*[lst(x) for x in a], repeat=repeat))), ("repeat",)),
                   chain=NativeFn("chain", lambda a, k: ListObj([y for x in a for y in I.iterate(x)])),
                   accumulate=s("accumulate", acc, ("func", "initial")),
                   islice=s("islice", lambda x, *a: ListObj(list(it.islice(I.iterate(x), *[self.cint(y) if y is not None else None for y in a])))),
                   repeat=s("repeat", lambda x, n=None: ListObj([x] * self.cint(n)) if n is not None else self._uns("infinite repeat")),
                   combinations=s("combinations", lambda x, r: ListObj(list(it.combinations(lst(x), r)))),
                   permutations=s("permutations", lambda x, r=None: ListObj(list(it.permutations(lst(x), r)))),
                   pairwise=s("pairwise", lambda x: ListObj(list(it.pairwise(lst(x))))),
                   zip_longest=s("zip_longest", lambda *a, fillvalue=None: ListObj(list(it.zip_longest(*[lst(x) for x in a], fillvalue=fillvalue))), ("fillvalue",)),
                   starmap=s("starmap", lambda f, x: LazyIter("list", [[I.call(f, lst(y), {}) for y in I.iterate(x)]])),
                   tee=s("tee", lambda x, n=2: tuple(GenObj(iter(l), I, "tee") for l in [lst(x)] * n)),
                   count=s("count", lambda start=0, step=1: NativeObj("count", start=start, step=step)),
                   )
        self.mods["itertools"].ns["chain"].ns = {"from_iterable": NativeFn("from_iterable", lambda a, k: ListObj([y for x in I.iterate(a[0]) for y in I.iterate(x)]))}
        # math
        def ceil_(v):
            if isint(v):
                return v
            if isinstance(v, Fraction):
                import math
                return math.ceil(v)
            if isinstance(v, float):
                self.throw(OverflowError if v == v else ValueError, "cannot convert float to integer")
            return self.ceil_scalar(v)
        def floor_(v):
            if isint(v):
                return v
            if isinstance(v, Fraction):
                import math
                return math.floor(v)
            return self.floor_scalar(v)
        def prod_(itr, start=1):
            acc = start
            for x in I.iterate(itr):
                acc = self.binop("Mult", acc, x)
            return acc
        self.nsmod("math", ceil=s("ceil", ceil_), floor=s("floor", floor_), prod=s("prod", prod_, ("start",)),
                   sqrt=s("sqrt", lambda v: self.arr_or_num(self.scal_fn("sqrt", v))), inf=float("inf"), nan=float("nan"),
                   pi=self.arr(N.scal_var("pi", nonneg=True)),
                   isnan=s("isnan", lambda v: self.isfinite_(v, "isnan")), isinf=s("isinf", lambda v: self.isfinite_(v, "isinf")),
                   isfinite=s("isfinite", lambda v: self.isfinite_(v, "isfinite")),
                   gcd=s("gcd", lambda a, b: __import__("math").gcd(self.cint(a), self.cint(b))),
                   log2=s("log2", lambda v: self.scal_fn("log2", v)), log=s("log", lambda v: self.scal_fn("log", v)),
                   log10=s("log10", lambda v: self.scal_fn("log10", v)), exp=s("exp", lambda v: self.scal_fn("exp", v)),
                   fabs=s("fabs", lambda v: self.unop("Abs", v)), pow=s("pow", lambda a, b: self.binop("Pow", a, b)),
                   isqrt=s("isqrt", lambda v: __import__("math").isqrt(self.cint(v))))
        # copy
        self.nsmod("copy", deepcopy=s("deepcopy", lambda v, memo=None: self.deepcopy(v, {})), copy=s("copy", lambda v: self.shallow(v)))
        # collections
        def ddict(a, k):
            d = DictObj()
            d.default = a[0] if a else None
            if len(a) > 1:
                d.d.update(self.c_dict(a[1:], {}).d)
            return d
        def deque(a, k):
            return ListObj(I.iterate(a[0]) if a else ())
        def namedtuple(a, k):
            raise Unsupported("namedtuple")
        def counter(a, k):
            d = DictObj()
            d.default = self.T["int"]
            for x in I.iterate(a[0]) if a else ():
                kk = hkey(x)
                d.d[kk] = (x, d.d[kk][1] + 1 if kk in d.d else 1)
            return d
        self.nsmod("collections", defaultdict=NativeFn("defaultdict", ddict), OrderedDict=NativeFn("OrderedDict", self.c_dict),
                   deque=NativeFn("deque", deque), namedtuple=NativeFn("namedtuple", namedtuple),
                   Counter=NativeFn("Counter", counter), abc=self.mods["collections.abc"])
        # misc
        self.nsmod("warnings", warn=NativeFn("warn", lambda a, k: I.event("warn")), simplefilter=NativeFn("simplefilter", lambda a, k: None),
                   filterwarnings=NativeFn("filterwarnings", lambda a, k: None),
                   catch_warnings=NativeFn("catch_warnings", lambda a, k: NativeObj("ctx")))
        logf = NativeFn("log", lambda a, k: None)
        lg = NativeObj("logger")
        self.nsmod("logging", info=logf, debug=logf, warning=logf, error=logf, critical=logf, exception=logf, log=logf,
                   getLogger=NativeFn("getLogger", lambda a, k: lg), basicConfig=logf, INFO=20, DEBUG=10, WARNING=30)
        def clock(a, k):
            self.seedcount += 1
            return self.arr(self.tainted_scalar(f"time#{self.seedcount}", "time"))
        tns = {n: NativeFn(n, clock) for n in ("perf_counter", "time", "monotonic", "process_time")}
        def clockns(a, k):
            self.seedcount += 1
            return P.new_sym(f"time_ns#{self.seedcount}", lo=0, taints=frozenset({"time"}), base=False)
        tns.update({n: NativeFn(n, clockns) for n in ("perf_counter_ns", "time_ns", "monotonic_ns")})
        tns["sleep"] = NativeFn("sleep", lambda a, k: None)
        self.nsmod("time", **tns)
        def cpu(a, k):
            return P.new_sym("cpu_count", lo=1, taints=frozenset({"cpu"}), base=False)
        self.nsmod("multiprocessing", cpu_count=NativeFn("cpu_count", cpu))
        def getpid(a, k):
            return P.new_sym("pid", lo=1, taints=frozenset({"pid"}), base=False)
        ospath = self.nsmod("os.path")
        self.nsmod("os", cpu_count=NativeFn("cpu_count", cpu), getpid=NativeFn("getpid", getpid), path=ospath,
                   environ=NativeObj("environ"), sched_getaffinity=NativeFn("sched_getaffinity", lambda a, k: self._uns("sched_getaffinity")))
        self.nsmod("sys", maxsize=2**63 - 1, version_info=(3, 12, 3))
        self.nsmod("contextlib", suppress=NativeFn("suppress", lambda a, k: NativeObj("suppress", types=tuple(a))),
                   contextmanager=NativeFn("contextmanager", lambda a, k: a[0]),
                   nullcontext=NativeFn("nullcontext", lambda a, k: NativeObj("ctx")))
        self.nsmod("numbers", Integral=self.T["int"], Number=BuiltinType("Number", lambda v: isinstance(v, NUM + (GIdx,)) or isinstance(v, NDArr) and v.ndim == 0),
                   Real=BuiltinType("Real", lambda v: isinstance(v, NUM + (GIdx,)) or isinstance(v, NDArr) and v.ndim == 0))
        self.nsmod("types", FunctionType=self.T["function"], GeneratorType=self.T["generator"])
        # futures
        cf = self.nsmod("concurrent.futures")
        self.nsmod("concurrent", futures=cf)
        def executor(a, k):
            e = NativeObj("executor", waited=False)
            e.futures = []
            I.event("executor", obj=e)
            return e
        def wait(a, k):
            fs = list(I.iterate(a[0] if a else k["fs"]))
            for kk in k:
                if kk not in ("timeout", "return_when", "fs"):
                    raise Unsupported(f"wait({kk}=)")
            early = k.get("timeout", a[1] if len(a) > 1 else None) is not None or k.get("return_when", a[2] if len(a) > 2 else "ALL_COMPLETED") != "ALL_COMPLETED"
            if early:
                # some worker may still be running
                self.finish(fs[:1])
                return (SetObj(fs[:1]), SetObj(fs[1:]))
            self.finish(fs)
            return (SetObj(fs), SetObj())
        def as_completed(a, k):
            fs = list(I.iterate(a[0]))
            def gen():
                for f in (fs[::-1] if self.schedule == "reverse" else fs):
                    self.finish([f])
                    yield f
            return GenObj(gen(), I, "as_completed")
        cf.ns.update(ThreadPoolExecutor=NativeFn("ThreadPoolExecutor", executor), ProcessPoolExecutor=NativeFn("ProcessPoolExecutor", executor),
                     wait=NativeFn("wait", wait), as_completed=NativeFn("as_completed", as_completed),
                     ALL_COMPLETED="ALL_COMPLETED", FIRST_COMPLETED="FIRST_COMPLETED", FIRST_EXCEPTION="FIRST_EXCEPTION")
        self.nsmod("random")

    # worker threads: "eager" runs a task when it is submitted, "lazy"/"reverse" when somebody waits for it
    schedule = "eager"
    worker = None
    nworkers = 0
    fault = None        # (number of the task, "start" or "draw")

    def submit(self, ex, fn, args, kw):
        f = NativeObj("future", waited=False, consumed=False, exc=None, result=None, ran=False, id=self.nworkers)
        self.nworkers += 1
        f.fn, f.args, f.kw = fn, args, kw
        self.I.event("submit", future=f, executor=ex)
        ex.futures.append(f)
        if self.schedule == "eager":
            self.runtask(f)
        return f

    def runtask(self, f):
        if f.ran:
            return
        f.ran = True
        keep, self.worker = self.worker, f
        try:
            if self.fault == (f.id, "start"):
                self.I.event("fault", future=f)
                self.throw(MemoryError, "injected failure of a worker")
            f.result = self.I.call(f.fn, f.args, f.kw)
        except PyRaise as e:
            f.exc = e
        finally:
            self.worker = keep

    def finish(self, fs):
        for f in (fs[::-1] if self.schedule == "reverse" else fs):
            f.waited = True
            self.runtask(f)

    def unhashable(self, v):
        """the name of the type if the value cannot be a dict key"""
        if isinstance(v, (ListObj, DictObj, SetObj)) or isinstance(v, ARR) and v.shape != ():
            return self.typename(v)
        if isinstance(v, tuple):
            return next((t for t in map(self.unhashable, v) if t), None)
        if isinstance(v, InstObj):
            for c in self.I.mro(v.cls):
                if isinstance(c, ClassObj):
                    if "__hash__" in c.ns:
                        return None if c.ns["__hash__"] is not None else v.cls.name
                    if "__eq__" in c.ns:
                        return v.cls.name
        return None

    def memo(self, f):
        """the function with a table of its results, which are shared between the callers"""
        import copy
        if not isinstance(f, FuncObj):
            raise Unsupported("cache of a callable that is not a plain function")
        g = copy.copy(f)
        g.attrs = dict(f.attrs)
        table, I = {}, self.I

        def lookup(args, kw, compute):
            for x in list(args) + list(kw.values()):
                t = self.unhashable(x)
                if t:
                    self.throw(TypeError, f"unhashable type: '{t}'")
            try:
                k = (tuple(hkey(x) for x in args), tuple(sorted((n, hkey(x)) for n, x in kw.items())))
            except Unsupported:
                return compute()
            if k in table:
                return table[k][0]
            r = compute()
            table[k] = (r, args, kw)     # the arguments stay alive: identities are not reused
            I.journal(lambda: table.pop(k, None))
            return r
        g.memo = lookup
        g.attrs["cache_clear"] = NativeFn("cache_clear", lambda a, k: table.clear())
        g.attrs["__wrapped__"] = f
        return g

    def tainted_scalar(self, name, taint):
        self.SCALTAINT[("var", name)] = frozenset({taint})
        return N.scal_var(name)

    # future / executor methods are in native_attr
    def native_attr(self, o, name):
        I = self.I
        if name in o.attrs:
            return o.attrs[name]
        k = o.kind
        if k == "executor":
            if name == "submit":
                def submit(a, kw):
                    return self.submit(o, a[0], a[1:], kw)
                return NativeFn("submit", submit)
            if name == "map":
                def emap(a, kw):
                    kw.pop("chunksize", None)
                    if kw:
                        raise Unsupported("executor.map keywords")
                    return NativeObj("poolmap", items=[self.submit(o, a[0], list(r), {}) for r in zip(*[list(I.iterate(x)) for x in a[1:]])])
                return NativeFn("map", emap)
            if name == "shutdown":
                def shut(a, kw):
                    w = kw.get("wait", a[0] if a else True)
                    if I.truth(w):
                        self.finish(o.futures)
                return NativeFn("shutdown", shut)
        if k == "future":
            if name == "result":
                def res(a, kw):
                    self.finish([o])
                    o.consumed = True
                    if o.exc is not None:
                        raise o.exc
                    return o.result
                return NativeFn("result", res)
            if name == "exception":
                def exc(a, kw):
                    self.finish([o])
                    o.consumed = True
                    return o.exc.exc if o.exc else None
                return NativeFn("exception", exc)
            if name in ("done", "running", "cancel", "cancelled", "add_done_callback"):
                raise Unsupported(f"schedule dependent {name}()")
        if k in ("logger",):
            return NativeFn("log", lambda a, kw: None)
        if k == "singledispatch":
            if name == "register":
                def register(a, kw):
                    if len(a) == 2:
                        o.table.append((a[0], a[1]))
                        return a[1]
                    t = a[0]
                    def deco(aa, kk):
                        o.table.append((t, aa[0]))
                        return aa[0]
                    if isinstance(t, FuncObj):
                        raise Unsupported("annotation-based singledispatch")
                    return NativeFn("register", deco)
                return NativeFn("register", register)
        r = self.np_native_attr(o, name)
        if r is not None:
            return r
        raise Unsupported(f"attribute {name} of {k}")

    def call_obj(self, o, args, kw):
        if o.kind == "singledispatch":
            best = None
            for t, f in o.table:
                if self.isinstance_(args[0], t):
                    if best is None or self.issubclass_(t, best[0]):
                        best = (t, f)
            return self.I.call(best[1] if best else o.base, args, kw)
        raise Unsupported(f"call of {o.kind}")

    # ------------------------------------------------------------ copies
    def deepcopy(self, v, memo):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, ListObj):
            r = ListObj()
            memo[id(v)] = r
            r.items = [self.deepcopy(x, memo) for x in v.items]
            return r
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, DictObj):
            r = DictObj({k: (kk, self.deepcopy(x, memo)) for k, (kk, x) in v.d.items()})
            r.default = v.default
            memo[id(v)] = r
            return r
        if isinstance(v, NDArr):
            r = self.arr(v.net, dtype=v.dtype)
            memo[id(v)] = r
            return r
        if isinstance(v, CArr):
            r = carr_from(v.shape, v.flat(), v.dtype)
            memo[id(v)] = r
            return r
        if isinstance(v, IntArr):
            return IntArr(v.shape, v.comps, v.const, v.dtype)
        if isinstance(v, IntStack):
            return IntStack([self.deepcopy(r, memo) for r in v.rows], v.cols)
        if isinstance(v, InstObj):
            m, _ = self.I.class_lookup(v.cls, "__deepcopy__")
            if m is not None:
                return self.I.call(BoundMethod(v, m), [DictObj()], {})
            r = InstObj(v.cls)
            memo[id(v)] = r
            for k, x in v.attrs.items():
                r.attrs[k] = self.deepcopy(x, memo)
            return r
        if isinstance(v, GenObj):
            self.throw(TypeError, "cannot pickle 'generator' object")
        return v

    def shallow(self, v):
        if isinstance(v, ListObj):
            return ListObj(v.items)
        if isinstance(v, DictObj):
            return DictObj(v.d)
        if isinstance(v, (NDArr, CArr, IntArr)):
            return self.deepcopy(v, {})
        if isinstance(v, InstObj):
            r = InstObj(v.cls)
            r.attrs = dict(v.attrs)
            return r
        return v
