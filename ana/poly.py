"""Symbolic integers of the abstract domain.

A size / rank / seed / offset is an integer polynomial over symbols.  Constants
stay plain ``int``; everything else is an (immutable) ``Poly``.  Ordering is
decided by substituting ``x -> lo(x) + x'`` and looking at coefficient signs
(plus the facts recorded by the trace partitioning); there is no solver.
"""
from __future__ import annotations

from fractions import Fraction


class Sym:
    __slots__ = ("name", "lo", "taints", "key", "op", "args", "base")

    def __init__(self, key, name, lo, taints, op=None, args=(), base=True):
        self.key = key
        self.name = name
        self.lo = lo
        self.taints = taints
        self.op = op
        self.args = args
        self.base = base  # a genuine free parameter (not min/max/mod/...)

    def __repr__(self):
        return self.name


class Ctx:
    """Per-analysis-run context: interned symbols, facts, decisions."""

    def __init__(self):
        self.syms = {}
        self.facts = []        # polys known to be >= 0
        self.ne = set()        # keys of polys known to be != 0
        self.subst = {}        # name -> int | Poly  (equality case splits)
        self.nn = None         # (facts list, its length, results of nonneg under those facts)
        self.data = []         # (kind, net, truth): assumed conditions on array values
        self.models = {}       # finite models found for the conditions above


CTX = Ctx()


def reset_ctx():
    global CTX
    CTX.__init__()
    return CTX


def new_sym(name, lo=1, taints=frozenset(), op=None, args=(), base=True):
    """Interned symbol -> Poly (or its case-split substitution)."""
    if name in CTX.subst:
        return CTX.subst[name]
    s = CTX.syms.get(name)
    if s is None:
        s = Sym(name, name, lo, taints, op, args, base)
        CTX.syms[name] = s
    return Poly({((name, 1),): 1})


def is_num(x):
    return isinstance(x, (int, Poly)) and not isinstance(x, bool)


def taints_of(x):
    if isinstance(x, Poly):
        out = frozenset()
        for m in x.t:
            for n, _ in m:
                out |= CTX.syms[n].taints
        return out
    return frozenset()


def _mul_mono(a, b):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_key", "_syms")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._syms = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        if isinstance(other, Poly):
            return self.key == other.key
        return False

    def __repr__(self):
        out = []
        for m, c in self.key:
            s = "*".join(n if e == 1 else f"{n}^{e}" for n, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out).replace("+ -", "- ") or "0"

    def __add__(self, o):
        return padd(self, o)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return padd(self, pneg(o))

    def __rsub__(self, o):
        return padd(o, pneg(self))

    def __mul__(self, o):
        return pmul(self, o)

    __rmul__ = __mul__

    def symbols(self):
        if self._syms is None:
            self._syms = frozenset(n for m in self.t for n, _ in m)
        return self._syms


def _terms(x):
    if isinstance(x, Poly):
        return x.t
    return {(): x} if x != 0 else {}


def mk(t):
    t = {m: c for m, c in t.items() if c != 0}
    if not t:
        return 0
    if len(t) == 1 and () in t:
        c = t[()]
        return int(c)
    return Poly(t)


def padd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    t = dict(_terms(a))
    for m, c in _terms(b).items():
        t[m] = t.get(m, 0) + c
    return mk(t)


def pneg(a):
    return -a


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    t = {}
    for m1, c1 in _terms(a).items():
        for m2, c2 in _terms(b).items():
            m = _mul_mono(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return mk(t)


def ppow(a, k):
    if isinstance(a, int):
        return a ** k
    r = 1
    for _ in range(k):
        r = pmul(r, a)
    return r


def peq(a, b):
    """structurally equal (identity of polynomials)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return psub(a, b) == 0


def exact_div(a, b):
    """a / b as polynomial, or None."""
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return None
        return a // b if a % b == 0 else None
    if isinstance(b, int):
        if b == 0:
            return None
        t = {}
        for m, c in _terms(a).items():
            if c % b:
                return None
            t[m] = c // b
        return mk(t)
    # long division w.r.t. a monomial order (graded lex on names)
    def lead(t):
        return max(t, key=lambda m: (sum(e for _, e in m), m))

    rem = dict(_terms(a))
    bt = b.t
    lb = lead(bt)
    q = {}
    guard = 0
    while rem:
        guard += 1
        if guard > 200:
            return None
        lr = lead(rem)
        d = dict(lr)
        for n, e in lb:
            d[n] = d.get(n, 0) - e
            if d[n] < 0:
                return None
            if d[n] == 0:
                del d[n]
        c = rem[lr]
        if c % bt[lb]:
            return None
        c //= bt[lb]
        m = tuple(sorted(d.items()))
        q[m] = q.get(m, 0) + c
        for m2, c2 in bt.items():
            mm = _mul_mono(m, m2)
            v = rem.get(mm, 0) - c * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return mk(q)


def pgcd(a, b):
    """A cheap common divisor (monomial content / exact divisors)."""
    if exact_div(a, b) is not None:
        return b
    if exact_div(b, a) is not None:
        return a
    from math import gcd

    def content(p):
        t = _terms(p)
        g = 0
        mono = None
        for m, c in t.items():
            g = gcd(g, abs(c))
            dm = dict(m)
            mono = dm if mono is None else {
                n: min(e, dm[n]) for n, e in mono.items() if n in dm
            }
        return g, mono or {}

    ga, ma = content(a)
    gb, mb = content(b)
    g = gcd(ga, gb)
    m = {n: min(e, mb[n]) for n, e in ma.items() if n in mb}
    r = mk({tuple(sorted(m.items())): g})
    return r


def _shift(p):
    """substitute x = lo + x' for every symbol; returns coefficient dict"""
    t = {(): 0}
    for m, c in _terms(p).items():
        cur = {(): c}
        for n, e in m:
            s = CTX.syms[n]
            lo = s.lo
            if lo is None:
                fac = {((n, 1),): 1}
                fac_signed = True
            else:
                fac = {((n, 1),): 1}
                if lo:
                    fac[()] = lo
            for _ in range(e):
                nxt = {}
                for m1, c1 in cur.items():
                    for m2, c2 in fac.items():
                        mm = _mul_mono(m1, m2)
                        nxt[mm] = nxt.get(mm, 0) + c1 * c2
                cur = nxt
        for mm, cc in cur.items():
            t[mm] = t.get(mm, 0) + cc
    return t


def _nonneg0(p):
    if isinstance(p, int):
        return p >= 0
    for m, c in _shift(p).items():
        if c < 0:
            return False
        if c > 0 and any(CTX.syms[n].lo is None and e % 2 for n, e in m):
            return False
    return True


def _minmax_syms(p):
    for m in _terms(p):
        for n, e in m:
            s = CTX.syms[n]
            if s.op in ("min", "max"):
                yield n, s


def _coef_of(p, name):
    """(coef poly c, rest r) with p = c*name + r, or None if nonlinear"""
    c, r = {}, {}
    for m, k in _terms(p).items():
        d = dict(m)
        e = d.get(name, 0)
        if e == 0:
            r[m] = k
        elif e == 1:
            del d[name]
            c[tuple(sorted(d.items()))] = k
        else:
            return None
    return mk(c), mk(r)


def nonneg(p, depth=3):
    """True if p >= 0 provably for all parameter values."""
    if _nonneg0(p):
        return True
    if isinstance(p, int):
        return False
    if depth <= 0:
        return False
    memo = _memo()
    k = (p.key, depth)
    r = memo.get(k)
    if r is None:
        r = _nonneg(p, depth)
        _memo()[k] = r
    return r


def _memo():
    """results of nonneg under the current facts (facts are only ever added to a list: proofs stay valid)"""
    m, f = CTX.nn, CTX.facts
    if m is None or m[0] is not f:
        m = CTX.nn = [f, len(f), {}]
    elif m[1] != len(f):
        m = CTX.nn = [f, len(f), {k: v for k, v in m[2].items() if v}]
    return m[2]


def _nonneg(p, depth):
    # min / max elimination
    for n, s in _minmax_syms(p):
        cr = _coef_of(p, n)
        if cr is None:
            continue
        c, r = cr
        pos = _nonneg0(c)
        neg = _nonneg0(pneg(c))
        if not (pos or neg):
            continue
        alts = [padd(pmul(c, a), r) for a in s.args]
        if (s.op == "min") == pos:
            if all(nonneg(a, depth - 1) for a in alts):
                return True
        else:
            if any(nonneg(a, depth - 1) for a in alts):
                return True
    mine = p.symbols()
    for f in CTX.facts:
        if mine.isdisjoint(f.symbols()):
            continue
        ms = {()}
        for m in _terms(p):
            if len(m) and sum(e for _, e in m) > 1:
                for n, e in m:
                    ms.add(((n, 1),))
        for m in ms:
            if any(CTX.syms[n].lo is None or CTX.syms[n].lo < 0 for n, _ in m):
                continue
            q = psub(p, pmul(f, mk({m: 1})))
            if _nonneg0(q):
                return True
            if depth > 1 and _size(q) <= _size(p) + 1 and nonneg(q, depth - 2):
                return True
    return False


def _size(p):
    return len(_terms(p))


def cmp_ge(a, b):
    """a >= b : True / False / None"""
    d = psub(a, b)
    if isinstance(d, int):
        return d >= 0
    if nonneg(d):
        return True
    if nonneg(psub(-1, d)):
        return False
    return None


def cmp_gt(a, b):
    return cmp_ge(a, padd(b, 1))


def cmp_eq(a, b):
    d = psub(a, b)
    if isinstance(d, int):
        return d == 0
    if nonneg(padd(d, -1)) or nonneg(psub(-1, d)):
        return False
    if Poly.key.fget(d) in CTX.ne or (-d).key in CTX.ne:
        return False
    if nonneg(d) and nonneg(pneg(d)):
        return True
    return None


def pkey(x):
    return repr(x)


def opaque(op, args, lo=0, taints=frozenset(), base=False):
    t = frozenset(taints)
    for a in args:
        t |= taints_of(a)
    name = f"{op}({','.join(pkey(a) for a in args)})"
    return new_sym(name, lo=lo, taints=t, op=op, args=tuple(args), base=base)


def pmin(*xs):
    return _mm("min", xs)


def pmax(*xs):
    return _mm("max", xs)


def min_args(x):
    """values that x never exceeds: its arguments if x is a minimum"""
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and CTX.syms[m[0][0]].op == "min":
            return [x] + list(CTX.syms[m[0][0]].args)
    return [x]


def _mm(op, xs):
    flat = []
    for x in xs:
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                s = CTX.syms[m[0][0]]
                if s.op == op:
                    flat.extend(s.args)
                    continue
        flat.append(x)
    xs = []
    for x in flat:
        if not any(peq(x, y) for y in xs):
            xs.append(x)
    keep = []
    for i, x in enumerate(xs):
        drop = False
        for j, y in enumerate(xs):
            if i == j:
                continue
            ge = nonneg(psub(x, y)) if op == "min" else nonneg(psub(y, x))
            if ge:
                # equal both ways: keep the first only
                back = nonneg(psub(y, x)) if op == "min" else nonneg(psub(x, y))
                if not back or j < i:
                    drop = True
                    break
        if not drop:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=pkey)
    los = []
    for x in keep:
        los.append(_lower(x))
    lo = min(los) if op == "min" else max(los)
    return opaque(op, keep, lo=lo)


def _lower(p):
    if isinstance(p, int):
        return p
    t = _shift(p)
    if all(c >= 0 for m, c in t.items() if m) and all(
        CTX.syms[n].lo is not None for m in t for n, _ in m
    ):
        return t.get((), 0)
    return -(10 ** 30)


def pfloordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    q = exact_div(a, b)
    if q is not None:
        return q
    # a = b*q + r with 0 <= r < b
    if isinstance(b, int):
        t, r = {}, {}
        for m, c in _terms(a).items():
            t[m] = c // b
            r[m] = c % b
        rr = mk(r)
        if isinstance(rr, int):
            return padd(mk(t), rr // b)
    if isinstance(a, Poly) and not nonneg(a) and nonneg(pneg(a)):
        return pneg(pceil_div(pneg(a), b))
    s = opaque("floordiv", (a, b), lo=0 if nonneg(a) else None)
    # monotone in the numerator
    for t in [t for n, t in CTX.syms.items() if t.op == "floordiv" and peq(t.args[1], b) and not peq(t.args[0], a)][:16]:
        o = opaque("floordiv", t.args)
        if nonneg(psub(a, t.args[0])):
            add_fact(psub(s, o))
        elif nonneg(psub(t.args[0], a)):
            add_fact(psub(o, s))
    # facts: a - b*s >= 0 ; b*s + b - 1 - a >= 0
    add_fact(psub(a, pmul(b, s)))
    add_fact(psub(padd(pmul(b, s), padd(b, -1)), a))
    return s


def pmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        # strip multiples of b and inner mods with multiple modulus
        r = {}
        for m, c in _terms(a).items():
            r[m] = c % b
        a2 = mk(r)
        # Mod(Mod(x, b), b) = Mod(x, b)
        if isinstance(a2, Poly) and len(a2.t) == 1:
            (m, c), = a2.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                s = CTX.syms[m[0][0]]
                if s.op == "mod" and isinstance(s.args[1], int):
                    if b % s.args[1] == 0 or s.args[1] <= b:
                        return a2
        if isinstance(a2, int):
            return a2 % b
        a = a2
        if nonneg(a) and nonneg(psub(b - 1, a)):
            return a
    elif exact_div(a, b) is not None:
        return 0
    if nonneg(a) and cmp_gt(b, a):
        return a
    s = opaque("mod", (a, b), lo=0)
    add_fact(psub(psub(b, 1), s))
    return s


def pceil_div(a, b):
    """ceil(a/b)"""
    if isinstance(a, int) and isinstance(b, int):
        return -((-a) // b)
    q = exact_div(a, b)
    if q is not None:
        return q
    s = opaque("ceildiv", (a, b), lo=1 if nonneg(padd(a, -1)) else 0)
    add_fact(psub(pmul(b, s), a))
    add_fact(psub(padd(a, psub(b, 1)), pmul(b, s)))
    return s


def add_fact(p):
    if isinstance(p, int):
        return
    if p not in CTX.facts:
        CTX.facts.append(p)
        # min(a, b) + r >= 0 gives a + r >= 0 and b + r >= 0; r - max(a, b) alike
        for n, s in _minmax_syms(p):
            cr = _coef_of(p, n)
            if cr is None or len(CTX.facts) > 80:
                continue
            c, r = cr
            pos = _nonneg0(c)
            if not pos and not _nonneg0(pneg(c)):
                continue
            if (s.op == "min") == pos:
                for a in s.args:
                    add_fact(padd(pmul(c, a), r))


def base_only(p):
    if isinstance(p, int):
        return True
    return all(CTX.syms[n].base for n in p.symbols())


def generically_different(a, b):
    """sizes that differ for generic parameter values (polys over genuine
    free parameters that are not identical), or provably differ."""
    d = psub(a, b)
    if isinstance(d, int):
        return d != 0
    return base_only(d) or cmp_eq(a, b) is False


def sname(x):
    return repr(x)
