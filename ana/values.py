"""Abstract values of the interpreter."""
from __future__ import annotations

from collections.abc import MutableMapping
from fractions import Fraction

import net as N
import poly as P
from net import Net, Unsupported
from poly import Poly


class ListObj:
    __slots__ = ("items", "frozen", "uid")

    def __init__(self, items=()):
        self.items = list(items)
        self.frozen = None

    def __repr__(self):
        return f"[{len(self.items)} items]"


class DictObj:
    __slots__ = ("d", "frozen", "default")

    def __init__(self, d=None):
        self.d = dict(d or {})      # hkey -> (key, value)
        self.frozen = None
        self.default = None


class AttrView(MutableMapping):
    """the attributes of an object as the table of a dict: hkey -> (name, value)"""

    def __init__(self, attrs, note):
        self.attrs, self.note = attrs, note

    def __getitem__(self, k):
        if k[0] != "s" or k[1] not in self.attrs:
            raise KeyError(k)
        return k[1], self.attrs[k[1]]

    def __setitem__(self, k, v):
        self.note(v[0])
        self.attrs[v[0]] = v[1]

    def __delitem__(self, k):
        self.note(k[1])
        del self.attrs[k[1]]

    def __iter__(self):
        return iter([("s", n) for n in self.attrs])

    def __len__(self):
        return len(self.attrs)


class AttrDict(DictObj):
    """``vars(obj)``: stores are visible as attributes"""
    __slots__ = ("attrs", "note")

    def __init__(self, o, note):
        self.attrs, self.note = o.attrs, note
        self.frozen = None       # attributes are judged by name
        self.default = None

    @property
    def d(self):
        return AttrView(self.attrs, self.note)

    @d.setter
    def d(self, new):
        old = {v[0]: v[1] for v in dict(new).values()}
        self.attrs.clear()
        self.attrs.update(old)


class GenDict:
    """dict built from a generic (symbolic-length) stream of int keys"""

    def __init__(self, leg, keys, vals):
        self.leg, self.keys, self.vals = leg, keys, vals


class SetObj:
    def __init__(self, items=()):
        self.d = {}
        for i in items:
            self.d[hkey(i)] = i


class RangeObj:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SliceObj:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class GIdx:
    """generic loop index: position ``leg`` (+ constant offset)"""

    def __init__(self, leg, off=0):
        self.leg, self.off = leg, off

    def __repr__(self):
        return f"<generic index over {self.leg.size}>"


class GenericList:
    """list of symbolic length whose element at the param leg is ``elem``"""

    def __init__(self, leg, elem):
        self.leg, self.elem = leg, elem


class LazyIter:
    """zip / enumerate / reversed / map / filter over abstract iterables"""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra
        self.it = None


class UnknownBool:
    def __init__(self, key, desc, apply_true=None, apply_false=None, eq=None):
        self.key, self.desc = key, desc
        self.apply_true, self.apply_false = apply_true, apply_false
        self.eq = eq           # poly p : condition is p == 0 (True branch substitutes)
        self.neg = False
        self.data = None       # (kind, net): what the condition says about array values

    def on(self, kind, net):
        self.data = (kind, net)
        return self

    def negate(self):
        u = UnknownBool(self.key, self.desc, self.apply_true, self.apply_false, self.eq)
        u.data = self.data
        u.neg = not self.neg
        return u

    def __repr__(self):
        return f"<{'not ' if self.neg else ''}{self.desc}>"


class BoolOpVal:
    """unevaluated and/or of unknown booleans (np.all / & / |)"""


WATCH = []          # observers of the arrays that are created


class NDArr:
    def __init__(self, net, dtype="f", origin=None, view=None, contig=True):
        self._net = net
        self.view = view          # (parent, get(net)->net, put(parent_net, net)->net)
        self.frozen = None
        self.dtype = dtype
        self.origin = origin
        self.version = 0
        self._vc = None
        self.pending = None       # generic loop writes
        self.contig = contig
        self.fcontig = False
        self.uninit = False
        self.created = 0
        self.aux = None
        if WATCH and view is None:
            for f in WATCH:
                f(self, net.shape)

    @property
    def net(self):
        if self.view is not None:
            p = self.view[0]
            v = p.fullversion()
            if self._vc != v:
                self._net = self.view[1](p.net)
                self._vc = v
        return self._net

    def fullversion(self):
        if self.view is not None:
            return (self.version, self.view[0].fullversion())
        return self.version

    def root(self):
        a = self
        while a.view is not None:
            a = a.view[0]
        return a

    @property
    def shape(self):
        if self.view is not None:
            return self.net.shape
        return self._net.shape

    @property
    def ndim(self):
        return self.net.ndim

    def __repr__(self):
        return f"<array {self.shape}>"


class IntArr:
    """1-d (or n-d) integer array given by one-hot nets: value =
    const + sum coef_k * comp_k ; comp_k has axes [*axes, value leg]"""

    def __init__(self, axes_shape, comps, const=0, dtype="i", origin=None):
        self.shape_ = tuple(axes_shape)
        self.comps = comps         # list of (coef, onehot Net)
        self.const = const
        self.dtype = dtype
        self.origin = origin
        self.frozen = None
        for f in WATCH:
            f(self, self.shape_)

    @property
    def shape(self):
        return self.shape_


class IntStack:
    """2-d integer index array with concrete leading axis"""

    def __init__(self, rows, cols, frozen=None):
        self.rows = list(rows)
        self.cols = cols           # symbolic length
        self.frozen = frozen

    @property
    def shape(self):
        if self.rows:
            return (len(self.rows),) + tuple(self.rows[0].shape)
        return (len(self.rows), self.cols)


class Mask:
    """boolean array given by a 0/1 net"""

    def __init__(self, net, aswhere=False):
        self.net = net
        for f in WATCH:
            f(self, net.shape)

    @property
    def shape(self):
        return self.net.shape


class WhereIdx:
    """np.where(mask)[0] / nonzero: positions selected by a mask"""

    def __init__(self, mask):
        self.mask = mask


class CArr:
    """small array of concrete shape with arbitrary scalar elements"""

    def __init__(self, shape, data, dtype="o", view=None):
        self.shape_ = tuple(shape)
        self.data = data           # flat dict index-tuple -> value (shared for views)
        self.dtype = dtype
        self.frozen = None
        self.view = view

    @property
    def shape(self):
        return self.shape_

    @property
    def ndim(self):
        return len(self.shape_)

    def get(self, idx):
        if self.view:
            par, f = self.view
            return par.get(f(idx))
        return self.data[idx]

    def set(self, idx, v):
        if self.view:
            par, f = self.view
            return par.set(f(idx), v)
        self.data[idx] = v

    def root(self):
        a = self
        while a.view:
            a = a.view[0]
        return a

    def indices(self):
        import itertools
        return itertools.product(*[range(s) for s in self.shape_])

    def indices_list(self):
        return list(self.indices())

    def items(self):
        return [(i, self.get(i)) for i in self.indices()]

    def flat(self):
        return [self.get(i) for i in self.indices()]


def carr_from(shape, flat, dtype="o"):
    import itertools
    idx = list(itertools.product(*[range(s) for s in shape]))
    return CArr(shape, dict(zip(idx, flat)), dtype)


class NativeFn:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class NativeMod:
    def __init__(self, name, ns, known=None):
        self.name, self.ns, self.known = name, ns, known

    def __repr__(self):
        return f"<module {self.name}>"


class NativeObj:
    """instance of a modelled library class"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.attrs = {}
        self.__dict__.update(kw)


class BuiltinType:
    def __init__(self, name, pred, ctor=None, ns=None):
        self.name, self.pred, self.ctor = name, pred, ctor
        self.ns = ns or {}

    def __repr__(self):
        return f"<class '{self.name}'>"


class TypingVal:
    def __init__(self, name):
        self.name = name


class ExcClass:
    def __init__(self, py):
        self.py = py

    def __repr__(self):
        return self.py.__name__


class ExcInst:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args
        self.attrs = {}
        self.loc = None

    def __repr__(self):
        nm = self.cls.py.__name__ if isinstance(self.cls, ExcClass) else self.cls.name
        return f"{nm}({', '.join(map(str, self.args))})"


class PyRaise(Exception):
    def __init__(self, exc, loc=None, stack=()):
        super().__init__(str(exc))
        self.exc, self.loc = exc, loc
        self.stack = stack


class FuncObj:
    def __init__(self, node, scope, name, module, qual, defaults, kwdefaults, cls=None):
        self.node, self.scope, self.name, self.module = node, scope, name, module
        self.qual, self.defaults, self.kwdefaults = qual, defaults, kwdefaults
        self.cls = cls
        self.attrs = {}
        self.abstract = False
        self.memo = None

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundMethod:
    def __init__(self, self_, func):
        self.self, self.func = self_, func

    def __repr__(self):
        return f"<bound method {self.func}>"


class PropertyObj:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached
        self.abstract = getattr(fget, "abstract", False)


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class SuperObj:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ClassObj:
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns = name, bases, ns
        self.module, self.qual = module, qual
        self.mro = None
        self.fields = None        # dataclass
        self.is_enum = False
        self.members = {}
        self.annotations = []
        self.node = None

    def __repr__(self):
        return f"<class {self.qual}>"


class InstObj:
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.frozen = None
        InstObj._n += 1
        self.uid = InstObj._n

    def __repr__(self):
        return f"<{self.cls.name} object>"


class GenObj:
    def __init__(self, gen, interp, qual):
        self.gen, self.interp, self.qual = gen, interp, qual
        self.done = False


class EllipsisVal:
    pass


ELLIPSIS = EllipsisVal()


class NotImpl:
    pass


NOTIMPL = NotImpl()


def hkey(v):
    """hashable identity of an abstract value used as dict key"""
    if isinstance(v, bool):
        return ("n", int(v))
    if isinstance(v, int):
        return ("n", v)
    if isinstance(v, Fraction):
        return ("n", int(v)) if v.denominator == 1 else ("fr", v)
    if isinstance(v, Poly):
        return ("p", v.key)
    if isinstance(v, str):
        return ("s", v)
    if v is None:
        return ("none",)
    if isinstance(v, tuple):
        return ("t",) + tuple(hkey(x) for x in v)
    if isinstance(v, (ClassObj, FuncObj, InstObj, BuiltinType, NativeFn, ExcClass,
                      NativeObj, NativeMod, TypingVal, GenObj)):
        return ("o", id(v))
    if isinstance(v, BoundMethod):
        return ("bm", hkey(v.self), hkey(v.func))
    if isinstance(v, NDArr) and v.ndim == 0:
        return ("sc", N.key(v.net))
    raise Unsupported(f"hash of {type(v).__name__}")
