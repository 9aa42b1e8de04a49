"""Tensor-network types: the abstract domain for arrays.

An array value is abstracted by a *net*: output axes (each a C-ordered tuple of
index legs of symbolic size) and a formal sum of products of atoms (input
arrays, DRM randomness, one-hot index maps, QR/SVD factors, ...) over legs; a
leg that is no output leg is summed over.  ``reshape`` only regroups or splits
legs, so the net records exactly *which mode of which operand meets which mode
of which other operand*, for every value of every size.  Two nets are equal
iff their normal forms coincide.
"""
from __future__ import annotations

import hashlib
import itertools
from fractions import Fraction

import poly as P
from poly import Poly, exact_div, padd, peq, pmul, psub


class Unsupported(Exception):
    """construct outside the analysed fragment: obligation undetermined"""


class NanDivision(Unsupported):
    """an array is divided by a number that is zero: the result is NaN or infinite"""


class NonTermination(Unsupported):
    """a loop returns to a state it was in before: it runs forever"""


class ShapeError(Exception):
    """definite shape mismatch (numpy would raise ValueError)"""


class NeedSplit(Exception):
    def __init__(self, leg, s1, s2):
        self.leg, self.s1, self.s2 = leg, s1, s2


class _Inf:
    def __repr__(self):
        return "inf"


INF = _Inf()

_ids = itertools.count(1)


class Leg:
    __slots__ = ("id", "size", "param")

    def __init__(self, size, param=False):
        self.id = next(_ids)
        self.size = size
        self.param = param

    def __repr__(self):
        return f"{'p' if self.param else 'l'}{self.id}:{self.size}"


def size_eq(a, b):
    if a is INF or b is INF:
        return a is b
    return peq(a, b)


def mismatch(a, b, msg):
    """sizes that are not known to agree: an error if they differ, otherwise undecided"""
    if a is INF or b is INF or P.cmp_eq(a, b) is False or P.generically_different(a, b):
        raise ShapeError(msg)
    import numeval
    if numeval.sizes_only(a) and numeval.sizes_only(b) and numeval.ints_differ(a, b):
        raise ShapeError(msg)
    raise Unsupported(f"undecided size agreement {a} vs {b} ({msg})")


def mkleg(size):
    """tuple of legs for an axis of that size"""
    if size is not INF and isinstance(size, int) and size == 1:
        return ()
    return (Leg(size),)


def axsize(legs):
    r = 1
    for l in legs:
        if l.size is INF:
            return INF
        r = pmul(r, l.size)
    return r


# ---------------------------------------------------------------- coefs
# coef = (Fraction, tuple(sorted((scalkey, Fraction exponent))))
ONE = (Fraction(1), ())


def cmul(a, b):
    if not b[1]:
        return (a[0] * b[0], a[1])
    if not a[1]:
        return (a[0] * b[0], b[1])
    d = dict(a[1])
    for k, e in b[1]:
        d[k] = d.get(k, 0) + e
        if d[k] == 0:
            del d[k]
    return (a[0] * b[0], tuple(sorted(d.items(), key=lambda t: repr(t[0]))))


def cpow(a, e):
    """coef ** e (integer e, or fraction when the number part is a square)"""
    e = Fraction(e)
    if e.denominator == 1:
        return (a[0] ** int(e), tuple((k, x * e) for k, x in a[1]))
    if a[0] == 1:
        return (a[0], tuple((k, x * e) for k, x in a[1]))
    if a[0] > 0:
        mono = tuple((k, x * e) for k, x in a[1])
        return cmul((Fraction(1), (((("num", a[0])), e),)), (Fraction(1), mono))
    raise Unsupported("fractional power of a negative coefficient")


SCALS = {}     # scal key -> dict(nonneg=bool, net=Net)
NONNEG = set()  # keys of nets that a specification knows to be sums of squares
REG = {}       # registry: key -> Net  (for QR/SVD/fn heads)
MASKS = {}
READ = {}      # key -> readable text
VANISH = {}    # svd key -> number of nonzero singular values (symbolic)
NONZEROS = {}  # count symbol -> net whose nonzero entries it counts
SVCOUNT = {}   # count symbol -> (svd key, op, threshold net, size)


def reset():
    SCALS.clear()
    REG.clear()
    NONNEG.clear()
    MASKS.clear()
    READ.clear()
    VANISH.clear()
    SVCOUNT.clear()
    NONZEROS.clear()


def poly_terms(p):
    """poly -> list of coefs"""
    if isinstance(p, (int, Fraction)):
        return [(Fraction(p), ())] if p else []
    if isinstance(p, float):
        return [(Fraction(p), ())] if p else []
    out = []
    for m, c in p.t.items():
        for n, _ in m:
            SCALS.setdefault(("sym", n), {"nonneg": True})
        out.append((Fraction(c), tuple(sorted(
            (((("sym", n)), Fraction(e)) for n, e in m), key=lambda t: repr(t[0])))))
    return out


# ---------------------------------------------------------------- net
class Net:
    __slots__ = ("axes", "terms", "_key", "_simple")

    def __init__(self, axes, terms, simple=False):
        self.axes = tuple(tuple(a) for a in axes)
        self.terms = tuple(terms)
        self._key = None
        self._simple = simple

    @property
    def shape(self):
        return tuple(axsize(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    def __repr__(self):
        return readable(self)


def legs_of_term(t):
    out = []
    seen = set()
    for h, args in t[1]:
        for a in args:
            for l in a:
                if l.id not in seen:
                    seen.add(l.id)
                    out.append(l)
    return out


def free_legs(net):
    out = []
    seen = set()
    for a in net.axes:
        for l in a:
            if l.id not in seen:
                seen.add(l.id)
                out.append(l)
    return out


def atom_net(head, shape):
    axes = [mkleg(s) for s in shape]
    return Net(axes, [(ONE, ((head, tuple(axes)),))], simple=True)


def zero_net(shape):
    return Net([mkleg(s) for s in shape], [], simple=True)


def const_net(shape, value):
    """value: int/float/Fraction/Poly"""
    return Net([mkleg(s) for s in shape], [(c, ()) for c in poly_terms(value)],
               simple=True)


def scalar_net(value):
    return const_net((), value)


def scal_var(name, nonneg=False):
    k = ("var", name)
    SCALS.setdefault(k, {"nonneg": nonneg})
    return Net((), [((Fraction(1), ((k, Fraction(1)),)), ())], simple=True)


def eye_net(n):
    l = mkleg(n)
    return Net((l, l), [(ONE, ())], simple=True)


def resolve_leg(l, env):
    r = env.get(l.id)
    if r is None:
        return (l,)
    out = ()
    for x in r:
        out += resolve_leg(x, env)
    return out


def resolve_legs(legs, env):
    out = ()
    for l in legs:
        out += resolve_leg(l, env)
    return out


def map_term(t, env):
    return (t[0], tuple((h, tuple(resolve_legs(a, env) for a in args))
                        for h, args in t[1]))


def map_net(net, env):
    return Net([resolve_legs(a, env) for a in net.axes],
               [map_term(t, env) for t in net.terms])


def fresh(net):
    """alpha-rename all non-param legs"""
    env = {}

    def f(l):
        if l.param:
            return l
        r = env.get(l.id)
        if r is None:
            r = env[l.id] = Leg(l.size)
        return r

    axes = [tuple(f(l) for l in a) for a in net.axes]
    terms = [(c, tuple((h, tuple(tuple(f(l) for l in a) for a in args))
                       for h, args in atoms)) for c, atoms in net.terms]
    return Net(axes, terms, simple=net._simple)


def unify(A, B, env, out_atoms, strict=True):
    """make flat index over legs A equal to the one over legs B (env is
    extended; irreducible remainders become I atoms)."""
    a = list(resolve_legs(A, env))
    b = list(resolve_legs(B, env))
    sa, sb = axsize(a), axsize(b)
    if not size_eq(sa, sb):
        mismatch(sa, sb, f"size {sa} meets size {sb}")

    def bind(x, y):
        # y -> x
        if x.id == y.id:
            return
        if y.param and x.param:
            out_atoms.append((("I",), ((x,), (y,))))
            return
        if y.param:
            x, y = y, x
        env[y.id] = (x,)

    def split(l, s1, s2):
        if l.param:
            return None
        l1, l2 = Leg(s1), Leg(s2)
        env[l.id] = (l1, l2)
        return [l1, l2]

    def fix(lst):
        return list(resolve_legs(lst, env))

    while a and b:
        a, b = fix(a), fix(b)
        x, y = a[0], b[0]
        if size_eq(x.size, y.size):
            bind(x, y)
            a, b = a[1:], b[1:]
            continue
        x2, y2 = a[-1], b[-1]
        if size_eq(x2.size, y2.size):
            bind(x2, y2)
            a, b = a[:-1], b[:-1]
            continue
        if x.size is INF or y.size is INF:
            break
        q = exact_div(x.size, y.size)
        if q is not None and len(b) > 1:
            r = split(x, y.size, q)
            if r:
                continue
        q = exact_div(y.size, x.size)
        if q is not None and len(a) > 1:
            r = split(y, x.size, q)
            if r:
                continue
        q = exact_div(x2.size, y2.size)
        if q is not None and len(b) > 1:
            r = split(x2, q, y2.size)
            if r:
                continue
        q = exact_div(y2.size, x2.size)
        if q is not None and len(a) > 1:
            r = split(y2, q, x2.size)
            if r:
                continue
        # common factor split
        g = P.pgcd(x.size, y.size)
        if not (isinstance(g, int) and g == 1) and len(a) > 1 and len(b) > 1:
            # only sound when leading factors align: x=(g,x/g) y=(g,y/g)
            qx, qy = exact_div(x.size, g), exact_div(y.size, g)
            if qx is not None and qy is not None and not x.param and not y.param:
                split(x, g, qx)
                split(y, g, qy)
                continue
        break
    if a or b:
        out_atoms.append((("I",), (tuple(a), tuple(b))))


def contract(nets, labels, out):
    """einsum: labels[i] is the label sequence of nets[i]'s axes."""
    nets = [fresh(n) for n in nets]
    env, extra = {}, []
    rep = {}
    for n, ls in zip(nets, labels):
        if len(ls) != n.ndim:
            raise ShapeError("operand has more/less dimensions than subscripts")
        for ax, lab in zip(n.axes, ls):
            if lab not in rep or not rep[lab]:
                rep[lab] = ax
            elif ax:
                unify(rep[lab], ax, env, extra)
    terms = []
    for combo in itertools.product(*[n.terms for n in nets]):
        c = ONE
        atoms = ()
        for t in combo:
            c = cmul(c, t[0])
            atoms += t[1]
        terms.append(map_term((c, atoms + tuple(extra)), env))
    axes = [resolve_legs(rep[l], env) for l in out]
    return simplify(_sum_out(Net(axes, terms), rep, out, env, nets))


def _sum_out(net, rep, out, env, nets):
    """account for summed legs that occur in no atom of a term (sum of 1)"""
    allleg = {}
    for n in nets:
        for l in free_legs(n):
            for x in resolve_leg(l, env):
                if not x.param:
                    allleg[x.id] = x
    fr = {l.id for l in free_legs(net)}
    summed = [l for i, l in allleg.items() if i not in fr]
    if not summed:
        return net
    terms = []
    for t in net.terms:
        have = {l.id for l in legs_of_term(t)}
        cs = [ONE]
        for l in summed:
            if l.id not in have:
                if l.size is INF:
                    raise Unsupported("sum over unbounded leg")
                cs = [cmul(c, k) for c in cs for k in poly_terms(l.size)]
        for c in cs:
            terms.append((cmul(t[0], c), t[1]))
    return Net(net.axes, terms)


def _broadcast(nets):
    nd = max(n.ndim for n in nets)
    return nd


def ewise_mul(a, b):
    nd = max(a.ndim, b.ndim)
    la = [("x", nd - a.ndim + i) for i in range(a.ndim)]
    lb = [("x", nd - b.ndim + i) for i in range(b.ndim)]
    return contract([a, b], [la, lb], [("x", i) for i in range(nd)])


def align(a, b):
    """common axes for broadcasting addition; returns (a', b') sharing axes"""
    a, b = fresh(a), fresh(b)
    nd = max(a.ndim, b.ndim)
    ax = [()] * (nd - a.ndim) + list(a.axes)
    bx = [()] * (nd - b.ndim) + list(b.axes)
    env, extra = {}, []
    axes = []
    perm_b = []
    for x, y in zip(ax, bx):
        if x and y:
            ex = []
            unify(x, y, env, ex)
            if ex:
                # irreducible regrouping between output axes: keep x's legs as
                # output, b's legs become bound, linked by the I atom
                extra.extend(ex)
            axes.append(x)
        else:
            axes.append(x or y)
    a2 = Net([resolve_legs(x, env) for x in axes],
             [map_term(t, env) for t in a.terms], simple=a._simple and not env)
    b2 = Net([resolve_legs(x, env) for x in axes],
             [map_term((t[0], t[1] + tuple(extra)), env) for t in b.terms])
    # diagonal output axes (same leg twice) bound to distinct legs: handled by
    # unify's env mapping both to one leg -- must stay an explicit delta
    return a2, b2


def _undiag(net):
    """make output legs distinct: the same leg in two axes positions becomes
    two legs tied by an I atom"""
    seen = set()
    axes, extra = [], []
    for a in net.axes:
        na = []
        for l in a:
            if l.id in seen or l.param:
                n = Leg(l.size)
                extra.append((("I",), ((l,), (n,))))
                na.append(n)
                seen.add(n.id)
            else:
                seen.add(l.id)
                na.append(l)
        axes.append(tuple(na))
    if not extra:
        return net
    return Net(axes, [(c, at + tuple(extra)) for c, at in net.terms])


def add(a, b):
    a2, b2 = align(_undiag(a), _undiag(b))
    return simplify(Net(a2.axes, a2.terms + b2.terms))


def scale(net, coefs):
    """multiply by a list of coefs (a sum)"""
    return Net(net.axes, [(cmul(t[0], c), t[1]) for t in net.terms for c in coefs])


def neg(net):
    return scale(net, [(Fraction(-1), ())])


def sub(a, b):
    return add(a, neg(b))


def transpose(net, perm):
    return Net([net.axes[p] for p in perm], net.terms, simple=net._simple)


def broadcast_to(net, shape):
    axes = [()] * (len(shape) - net.ndim) + list(net.axes)
    out = []
    for a, s in zip(axes, shape):
        if a:
            if not size_eq(axsize(a), s):
                mismatch(axsize(a), s, "broadcast")
            out.append(a)
        else:
            out.append(mkleg(s))
    return Net(out, net.terms)


def reshape(net, shape):
    """C-order reshape; ``shape`` has explicit sizes (no -1)"""
    net = _undiag(net)
    flat = [l for a in net.axes for l in a]
    tot = axsize(flat)
    want = 1
    for s in shape:
        want = pmul(want, s)
    if not size_eq(tot, want):
        mismatch(tot, want, f"cannot reshape array of size {tot} into {tuple(shape)}")
    env = {}
    axes = []
    cur = list(flat)
    extra = []
    ok = True
    i = 0
    shape = list(shape)

    def take(legs, s):
        """split off a prefix of size s -> (prefix, rest) or None"""
        pre = []
        acc = s
        legs = list(legs)
        while True:
            if isinstance(acc, int) and acc == 1:
                return pre, legs
            if not legs:
                return None
            l = legs[0]
            q = exact_div(acc, l.size)
            if q is not None:
                pre.append(l)
                legs = legs[1:]
                acc = q
                continue
            q = exact_div(l.size, acc)
            if q is not None and not l.param:
                l1, l2 = Leg(acc), Leg(q)
                env[l.id] = (l1, l2)
                pre.append(l1)
                return pre, [l2] + legs[1:]
            return None

    for k, s in enumerate(shape):
        r = take(cur, s)
        if r is None:
            # fall back: regroup everything left through an I atom
            restsize = shape[k:]
            newaxes = [mkleg(x) for x in restsize]
            extra.append((("I",), (tuple(l for a in newaxes for l in a),
                                   tuple(cur))))
            axes.extend(newaxes)
            cur = []
            break
        axes.append(tuple(r[0]))
        cur = r[1]
    terms = [map_term((c, at + tuple(extra)), env) for c, at in net.terms]
    axes = [resolve_legs(a, env) for a in axes]
    return simplify(Net(axes, terms)) if extra else Net(axes, terms,
                                                         simple=net._simple and not env)


def merge_axis(net, k):
    """make axis k a single leg (or empty)"""
    a = net.axes[k]
    if len(a) <= 1:
        if a and (a[0].param or sum(1 for x in net.axes for l in x
                                    if l.id == a[0].id) > 1):
            pass
        else:
            return net
    net = _undiag(net)
    a = net.axes[k]
    if len(a) <= 1:
        return net
    n = Leg(axsize(a))
    axes = list(net.axes)
    axes[k] = (n,)
    return Net(axes, [(c, at + ((("I",), ((n,), a)),)) for c, at in net.terms])


def slice_axis(net, k, start, size):
    """net[..., start:start+size, ...] on axis k"""
    full = net.axes[k]
    if isinstance(start, int) and start == 0 and size_eq(axsize(full), size):
        return net
    if not full:
        # size-1 axis
        if isinstance(size, int) and size == 0:
            return Net(_rep(net.axes, k, (Leg(0),)), [])
        if isinstance(start, int) and start == 0 and isinstance(size, int) and size == 1:
            return net
        raise Unsupported("slice of unit axis")
    net = _undiag(fresh(net))
    net = merge_axis(net, k)
    L = net.axes[k][0]
    K = mkleg(size)
    return simplify(Net(_rep(net.axes, k, K),
                        [(c, at + ((("Inj", start), (K, (L,))),))
                         for c, at in net.terms]))


def index_axis(net, k, pos):
    """net[..., pos, ...]: drops axis k; pos int/Poly"""
    full = net.axes[k]
    if not full:
        return Net(net.axes[:k] + net.axes[k + 1:], net.terms, simple=net._simple)
    net = _undiag(fresh(net))
    net = merge_axis(net, k)
    L = net.axes[k][0]
    return simplify(Net(net.axes[:k] + net.axes[k + 1:],
                        [(c, at + ((("Inj", pos), ((), (L,))),))
                         for c, at in net.terms]))


def index_axis_leg(net, k, leg):
    """index axis k with a (param) leg: generic position"""
    full = net.axes[k]
    if not full:
        return Net(net.axes[:k] + net.axes[k + 1:], net.terms)
    net = _undiag(fresh(net))
    ax = net.axes[k]
    return simplify(Net(net.axes[:k] + net.axes[k + 1:],
                        [(c, at + ((("I",), ((leg,), ax)),))
                         for c, at in net.terms]))


def unslice_axis(net, k, start, L):
    """embed: axis k (size s) into a leg of bigger axis legs L (fresh net)"""
    K = net.axes[k]
    return Net(_rep(net.axes, k, L),
               [(c, at + ((("Inj", start), (K, L)),)) for c, at in net.terms])


def _rep(axes, k, v):
    axes = list(axes)
    axes[k] = tuple(v)
    return axes


def sum_axes(net, axes):
    labs = [("x", i) for i in range(net.ndim)]
    return contract([net], [labs], [l for i, l in enumerate(labs) if i not in axes])


def diag_of(net):
    return contract([net], [["i", "i"]], ["i"])


def diag_from(net):
    n = fresh(net)
    return Net((n.axes[0], n.axes[0]), n.terms, simple=n._simple)


def concat(nets, axis):
    """np.concatenate"""
    tot = 0
    sizes = []
    for n in nets:
        s = axsize(n.axes[axis])
        sizes.append(s)
        tot = padd(tot, s)
    base = None
    off = 0
    res = None
    out_leg = mkleg(tot)
    if not out_leg:
        return nets[0]
    for n, s in zip(nets, sizes):
        n = _undiag(fresh(n))
        if isinstance(s, int) and s == 0:
            continue
        n = merge_axis(n, axis)
        K = n.axes[axis]
        if size_eq(s, tot):
            m = n
        else:
            m = Net(_rep(n.axes, axis, out_leg),
                    [(c, at + ((("Inj", off), (K, out_leg)),)) for c, at in n.terms])
        res = m if res is None else add(res, m)
        off = padd(off, s)
    return simplify(res)


# ---------------------------------------------------------------- simplify
def is_free(l, free):
    return l.param or l.id in free


def _align(fine, coarse):
    """[(coarse leg, the fine legs it stands for)] or None"""
    out, k = [], 0
    for y in coarse:
        g, n = [], 1
        while k < len(fine) and not (g and size_eq(n, y.size)):
            if fine[k].size is INF or y.size is INF:
                return None
            g.append(fine[k])
            n = P.pmul(n, fine[k].size)
            k += 1
        if not g or not size_eq(n, y.size) or any(x.id == y.id for x in g) and len(g) > 1:
            return None
        out.append((y, g))
    return out if k == len(fine) else None


def _occ(atoms):
    d = {}
    for i, (h, args) in enumerate(atoms):
        for j, a in enumerate(args):
            for p, l in enumerate(a):
                d.setdefault(l.id, []).append((i, j, p))
    return d


def _sub_term(atoms, env):
    return [(h, tuple(resolve_legs(a, env) for a in args)) for h, args in atoms]


SIMPLIFY_LIMIT = 4000
# generators whose output is one sequential stream (not filled by blocks)
PREFIX_STREAMS = ("RS", "PCG", "RSMT19937", "RSPCG")


def simplify(net):
    if net._simple:
        return net
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            raise Unsupported("simplify diverges")
        free = {}
        for i, l in enumerate(free_legs(net)):
            free[l.id] = i
        try:
            out = []
            for t in net.terms:
                out.extend(_simp_term(t, free))
            net2 = Net(net.axes, out)
            net2 = _collect(net2)
            net2._simple = True
            return net2
        except NeedSplit as e:
            l1, l2 = Leg(e.s1), Leg(e.s2)
            net = map_net(net, {e.leg.id: (l1, l2)})


def _simp_term(t, free):
    work = [(t[0], list(t[1]))]
    done = []
    steps = 0
    while work:
        steps += 1
        if steps > SIMPLIFY_LIMIT:
            raise Unsupported("term rewriting limit")
        c, atoms = work.pop()
        if c[0] == 0:
            continue
        r = _step(c, atoms, free)
        if r is None:
            if atoms and any(e < 0 and k[0] == "net" for k, e in c[1]):
                c, atoms = _cancel_recip(c, atoms, free)
            done.append((c, tuple(atoms)))
        else:
            work.extend(r)
    return done


def _scalar_parts(atoms, free):
    """(connected parts without free legs, remaining atoms)"""
    parts, rest = [], []
    left = list(atoms)
    while left:
        comp = [left.pop()]
        ids = {l.id for x in comp[0][1] for l in x}
        grown = True
        while grown:
            grown = False
            for a in list(left):
                i2 = {l.id for x in a[1] for l in x}
                if i2 & ids:
                    left.remove(a)
                    comp.append(a)
                    ids |= i2
                    grown = True
        if ids & set(free):
            rest += comp
        else:
            parts.append(comp)
    return parts, rest


def _cancel_recip(c, atoms, free):
    """x * x^-1 = 1 for scalar parts of a term"""
    parts, rest = _scalar_parts(atoms, free)
    if not parts:
        return c, atoms
    keys = [key(Net((), [(ONE, tuple(p))])) for p in parts]
    coef = dict(c[1])
    for k, e in c[1]:
        if k[0] != "net" or e >= 0 or "net" not in SCALS.get(k, {}):
            continue
        base = SCALS[k]["net"]
        if len(base.terms) != 1 or base.terms[0][0] != ONE:
            continue
        want = [key(Net((), [(ONE, tuple(p))])) for p in _scalar_parts(base.terms[0][1], ())[0]]
        while coef[k] <= -1:
            idx, pool = [], list(range(len(keys)))
            for w in want:
                j = next((i for i in pool if keys[i] == w), None)
                if j is None:
                    break
                pool.remove(j)
                idx.append(j)
            if len(idx) < len(want):
                break
            keys = [keys[i] for i in pool]
            parts = [parts[i] for i in pool]
            coef[k] += 1
    return (c[0], tuple(sorted(((k, e) for k, e in coef.items() if e != 0), key=repr))), rest + [a for p in parts for a in p]


def _inj_size(arg):
    return 1 if not arg else arg[0].size


def _rel(a, sa, b, sb):
    """relation of intervals [a,a+sa) and [b,b+sb): 'disjoint','same','sub'
    (first in second),'sup', None"""
    if size_eq(sa, INF) and size_eq(sb, INF):
        return "same" if peq(a, b) else None
    if sa is INF or sb is INF:
        if sa is INF:
            r = _rel(b, sb, a, sa)
            return {"sub": "sup", "sup": "sub"}.get(r, r)
        ge = P.cmp_ge(a, b)
        if ge:
            return "sub"
        if P.cmp_ge(b, padd(a, sa)):
            return "disjoint"
        return None
    if peq(a, b) and peq(sa, sb):
        return "same"
    ea, eb = padd(a, sa), padd(b, sb)
    if P.cmp_ge(b, ea) or P.cmp_ge(a, eb):
        return "disjoint"
    if P.cmp_ge(a, b) and P.cmp_ge(eb, ea):
        return "sub"
    if P.cmp_ge(b, a) and P.cmp_ge(ea, eb):
        return "sup"
    return None


def _step(c, atoms, free):
    """one rewriting step; None if in normal form, else list of (coef, atoms)"""
    # ---- I atoms
    for i, (h, args) in enumerate(atoms):
        if h[0] != "I":
            continue
        A, B = args
        rest = atoms[:i] + atoms[i + 1:]
        if not A and not B:
            return [(c, rest)]
        if A and B:
            if A[0].id == B[0].id:
                return [(c, rest + [(h, (A[1:], B[1:]))])]
            if A[-1].id == B[-1].id:
                return [(c, rest + [(h, (A[:-1], B[:-1]))])]
            for x, y, ra, rb in ((A[0], B[0], A[1:], B[1:]),
                                 (A[-1], B[-1], A[:-1], B[:-1])):
                if size_eq(x.size, y.size):
                    if not is_free(y, free):
                        env = {y.id: (x,)}
                    elif not is_free(x, free):
                        env = {x.id: (y,)}
                    else:
                        env = None
                    if env is not None:
                        return [(c, _sub_term(rest + ([(h, (ra, rb))] if ra or rb else []), env))]
                    if ra or rb:
                        return [(c, rest + [(h, ((x,), (y,))), (h, (ra, rb))])]
            if len(A) + len(B) > 2:
                for x, y, lx, ly, front in (
                        (A[0], B[0], len(A), len(B), True),
                        (A[-1], B[-1], len(A), len(B), False)):
                    if x.size is INF or y.size is INF:
                        continue
                    q = exact_div(x.size, y.size)
                    big, small, other = x, y, ly
                    if q is None or ly < 2:
                        q = exact_div(y.size, x.size)
                        big, small, other = y, x, lx
                        if q is None or lx < 2:
                            continue
                    s1, s2 = (small.size, q) if front else (q, small.size)
                    if big.param:
                        continue
                    if is_free(big, free):
                        raise NeedSplit(big, s1, s2)
                    l1, l2 = Leg(s1), Leg(s2)
                    return [(c, _sub_term(atoms, {big.id: (l1, l2)}))]
            if len(A) == 1 and len(B) == 1:
                # both free: use one representative elsewhere
                x, y = A[0], B[0]
                kx = (0 if x.param else 1, free.get(x.id, -x.id), x.id)
                ky = (0 if y.param else 1, free.get(y.id, -y.id), y.id)
                if kx > ky:
                    x, y = y, x
                used = any(l.id == y.id for hh, aa in rest for a in aa for l in a)
                if used:
                    return [(c, _sub_term(rest, {y.id: (x,)}) + [(h, ((x,), (y,)))])]
    occ = _occ(atoms)

    # ---- zero-size legs kill a term only if bound: sum over nothing
    for h, args in atoms:
        for a in args:
            for l in a:
                if l.size is not INF and isinstance(l.size, int) and l.size == 0 \
                        and not is_free(l, free):
                    return []

    # ---- Inj
    # one position written over two decompositions of the same range: the finer one determines the other
    multi = [(i, h[1], args[0], args[1]) for i, (h, args) in enumerate(atoms)
             if h[0] == "Inj" and len(args[0]) == 1 and args[1]]
    if len(multi) > 1:
        for i, s, K, L in multi:
            if len(L) < 2:
                continue
            for j, s2, K2, L2 in multi:
                if i == j or K[0].id != K2[0].id or not peq(s, s2) or len(L2) > len(L) or len(L2) == len(L) and j < i:
                    continue
                gs = _align(L, L2)
                if gs is not None:
                    rest = [a for k, a in enumerate(atoms) if k != j]
                    return [(c, rest + [(("I",), ((y,), tuple(g))) for y, g in gs])]
    injs = [(i, h[1], args[0], args[1]) for i, (h, args) in enumerate(atoms)
            if h[0] == "Inj" and len(args[0]) <= 1 and len(args[1]) == 1]
    for i, s, K, L in injs:
        L0 = L[0]
        rest = atoms[:i] + atoms[i + 1:]
        # full
        if isinstance(s, int) and s == 0 and K and size_eq(K[0].size, L0.size):
            return [(c, rest + [(("I",), (K, L))])]
        # out of range unit position is left alone
        # bound big leg only here
        if not is_free(L0, free) and len(occ[L0.id]) == 1:
            return [(c, rest)]
    for i, s, K, L in injs:
        for j, s2, K2, L2 in injs:
            if i == j:
                continue
            rest = [a for k, a in enumerate(atoms) if k not in (i, j)]
            if L[0].id == L2[0].id and i < j:
                r = _rel(s, _inj_size(K), s2, _inj_size(K2))
                if r == "disjoint":
                    return []
                if r == "same":
                    return [(c, rest + [atoms[i], (("I",), (K, K2))])]
                if r == "sub":
                    return [(c, rest + [atoms[i], (("Inj", psub(s, s2)), (K, K2))])]
                if r == "sup":
                    return [(c, rest + [atoms[j], (("Inj", psub(s2, s)), (K2, K))])]
            if K2 and L[0].id == K2[0].id:
                # Inj(s)[K,L] Inj(s2)[L,P] -> Inj(s)[K,L] Inj(s+s2)[K,P]
                return [(c, rest + [atoms[i], (("Inj", padd(s, s2)), (K, L2))])]
            if i < j and K and K2 and K[0].id == K2[0].id and peq(s, s2) \
                    and size_eq(L[0].size, L2[0].size):
                return [(c, rest + [atoms[i], (("I",), (L, L2))])]
    # window of a window: sum_k [L = s+k][P = t+k] -> Chi[s, s+|K|)(L) [P = L+t-s]
    for i, s, K, L in injs:
        for j, t, K2, P_ in injs:
            if i == j or not K or not K2 or K[0].id != K2[0].id or is_free(K[0], free) or len(occ[K[0].id]) != 2:
                continue
            if L[0].size is INF or P_[0].id == L[0].id or P.cmp_ge(t, s) is not True:
                continue
            if P_[0].size is not INF and P.cmp_ge(P_[0].size, padd(L[0].size, psub(t, s))) is not True:
                continue
            rest = [a for k, a in enumerate(atoms) if k not in (i, j)]
            return [(c, rest + [(("Chi", s, padd(s, K[0].size)), (L,)), (("Inj", psub(t, s)), (L, P_))])]
    # a C-order draw from one stream is a prefix of every longer draw: the number of rows drawn does not matter
    for i, s, K, L in injs:
        L0 = L[0]
        if is_free(L0, free) or len(occ[L0.id]) != 2 or L0.size is INF:
            continue
        need = padd(s, _inj_size(K))
        if size_eq(need, L0.size) or P.cmp_ge(L0.size, need) is not True:
            continue
        for j, (h, args) in enumerate(atoms):
            if h[0] == "rnd" and h[1] in PREFIX_STREAMS and args[0] and args[0][0].id == L0.id:
                nl = mkleg(need)
                rest = [a for k, a in enumerate(atoms) if k not in (i, j)]
                rest.append((h, (tuple(nl) + args[0][1:],)))
                if nl:
                    rest.append((("Inj", s), (K, nl)))
                elif K:
                    continue
                return [(c, rest)]
    for i, s, K, L in injs:
        if not (isinstance(s, int) and s == 0) or not K or is_free(K[0], free) or L[0].size is INF:
            continue
        on = [k for k, (h, args) in enumerate(atoms) if k != i and any(l.id == K[0].id for x in args for l in x)]
        if all(atoms[k][0][0] == "Chi" or atoms[k][0][0] == "rnd" and atoms[k][0][1] in PREFIX_STREAMS
               and atoms[k][1][0][0].id == K[0].id for k in on) and any(atoms[k][0][0] == "rnd" for k in on):
            rest = [a for k, a in enumerate(atoms) if k != i]
            return [(c, _sub_term(rest, {K[0].id: (L[0],)}) + [(("Chi", 0, K[0].size), (L,))])]
    # constant unit injection of an identity etc: K bound occurring once
    for i, s, K, L in injs:
        if K and not is_free(K[0], free) and len(occ[K[0].id]) == 1:
            rest = atoms[:i] + atoms[i + 1:]
            return [(c, rest + [(("Chi", s, padd(s, K[0].size)), (L,))])]
    for i, s, K, L in multi:
        if len(L) > 1 and not is_free(K[0], free) and len(occ[K[0].id]) == 1:
            rest = atoms[:i] + atoms[i + 1:]
            return [(c, rest + [(("Chi", s, padd(s, K[0].size)), (L,))])]
    # ---- Chi
    for i, (h, args) in enumerate(atoms):
        if h[0] == "Chi" and len(args[0]) > 1:
            rest = atoms[:i] + atoms[i + 1:]
            if isinstance(h[1], int) and h[1] == 0 and P.cmp_ge(h[2], axsize(args[0])):
                return [(c, rest)]
            if P.cmp_ge(h[1], h[2]):
                return []
    chis = [(i, h[1], h[2], args[0]) for i, (h, args) in enumerate(atoms)
            if h[0] == "Chi" and len(args[0]) == 1]
    for i, a, b, L in chis:
        rest = atoms[:i] + atoms[i + 1:]
        L0 = L[0]
        if isinstance(a, int) and a == 0 and L0.size is not INF and \
                P.cmp_ge(b, L0.size):
            return [(c, rest)]
        if P.cmp_ge(a, b):
            return []
        if not is_free(L0, free) and len(occ[L0.id]) == 1:
            return [(cmul(c, k), rest) for k in poly_terms(psub(b, a))]
        for j, s, K, L2 in injs:
            if L2[0].id == L0.id:
                r = _rel(s, _inj_size(K), a, psub(b, a))
                if r in ("sub", "same"):
                    return [(c, rest)]
                if r == "disjoint":
                    return []
                if r == "sup" and K:
                    return [(c, rest + [(("Chi", psub(a, s), psub(b, s)), (K,))])]
            if K and K[0].id == L0.id:
                pass
        for j, a2, b2, L2 in chis:
            if i < j and L2[0].id == L0.id:
                r = _rel(a, psub(b, a), a2, psub(b2, a2))
                if r == "disjoint":
                    return []
                if r in ("same", "sub"):
                    return [(c, [x for k, x in enumerate(atoms) if k != j])]
                if r == "sup":
                    return [(c, rest)]
                if peq(a, a2):
                    ge = P.cmp_ge(b, b2)
                    if ge is not None:
                        return [(c, [x for k, x in enumerate(atoms)
                                     if k != (i if ge else j)])]
        # svd rank cut: S vanishes beyond full rank
        if isinstance(a, int) and a == 0:
            for hh, aa in atoms:
                if hh[0] in ("S", "Nz") and aa[0] == L and (
                        P.cmp_ge(b, hh[2]) or
                        (hh[1] in VANISH and P.cmp_ge(b, VANISH[hh[1]]))):
                    return [(c, rest)]
    # unit injection beyond everything: nothing to do

    # ---- one-hot maps
    es = [(i, h, args) for i, (h, args) in enumerate(atoms) if h[0] == "E"]
    for x in range(len(es)):
        i, h, args = es[x]
        J = args[1]
        if J and all(not is_free(l, free) and len(occ[l.id]) == 1 for l in J):
            return [(c, atoms[:i] + atoms[i + 1:])]
        for y in range(x + 1, len(es)):
            j, h2, args2 = es[y]
            if h2 == h and args2[0] == args[0]:
                rest = [a for k, a in enumerate(atoms) if k != j]
                if args[1] == args2[1]:
                    return [(c, rest)]
                return [(c, rest + [(("I",), (args[1], args2[1]))])]
    # ---- selections
    ss = [(i, h, args) for i, (h, args) in enumerate(atoms) if h[0] == "Sel"]
    for x in range(len(ss)):
        i, h, args = ss[x]
        M, N = args[0], args[1]
        rest = atoms[:i] + atoms[i + 1:]
        if M and not is_free(M[0], free) and len(occ[M[0].id]) == 1:
            out = []
            for cc, at in instantiate(MASKS[h[1]], [N] + list(args[2:])):
                out.append((cmul(c, cc), rest + at))
            return out
        if N and all(not is_free(l, free) and len(occ[l.id]) == 1 for l in N) \
                and M and is_free(M[0], free):
            return [(c, rest)]
        if N and all(not is_free(l, free) and len(occ[l.id]) == 1 for l in N):
            return [(c, rest)]
        for y in range(x + 1, len(ss)):
            j, h2, args2 = ss[y]
            if h2 == h and args2[2:] == args[2:]:
                r2 = [a for k, a in enumerate(atoms) if k != j]
                if args2[1] == args[1]:
                    return [(c, r2 + [(("I",), (args[0], args2[0]))])]
                if args2[0] == args[0]:
                    return [(c, r2 + [(("I",), (args[1], args2[1]))])]
    # ---- factorisations
    r = _factor_rules(c, atoms, free, occ)
    if r is not None:
        return r
    # ---- powers of 0/1 masks: identical E handled above; Chi handled
    return None


def instantiate(net, arglegs):
    """terms of ``net`` with its axes identified with the given leg tuples"""
    n = _undiag(fresh(net))
    out = []
    links = [(("I",), (tuple(a), tuple(b))) for a, b in zip(arglegs, n.axes)
             if a or b]
    for c, at in n.terms:
        out.append((c, list(at) + list(links)))
    return out


def _only(legs, allowed, occ, free):
    """legs are bound and occur exactly in the given (atom,arg) slots"""
    for l in legs:
        if is_free(l, free):
            return False
        for (i, j, p) in occ[l.id]:
            if (i, j) not in allowed:
                return False
    return True


def _same_legs(a, b):
    return len(a) == len(b) and all(x.id == y.id for x, y in zip(a, b))


def _factor_rules(c, atoms, free, occ):
    byhead = {}
    for i, (h, args) in enumerate(atoms):
        if h[0] in ("Q", "R", "U", "S", "V", "Rinv", "Inv", "P", "Nz"):
            byhead.setdefault((h[0], h[1]), []).append(i)
    if not byhead:
        return None
    def without(*idx):
        return [a for k, a in enumerate(atoms) if k not in idx]

    # first row or column of several factors of one matrix: one position
    pins = {}
    for q, (h, a) in enumerate(atoms):
        if h[0] == "Inj" and not a[0] and len(a[1]) == 1 and isinstance(h[1], int) and not is_free(a[1][0], free):
            pins[a[1][0].id] = q
    if pins:
        seen, drop = {}, None
        for kind, key in byhead:
            ks = {"U": 1, "V": 0, "S": 0, "Nz": 0}.get(kind)
            if ks is None:
                continue
            for i in byhead[kind, key]:
                K = atoms[i][1][ks]
                if len(K) != 1 or K[0].id not in pins:
                    continue
                q = pins[K[0].id]
                if kind in ("S", "Nz") and atoms[q][0][1] == 0 and isinstance(atoms[i][0][2], int) and atoms[i][0][2] == 1 \
                        and len(occ[K[0].id]) == 4:
                    on = sorted(atoms[x][0][0] for x, _, _ in occ[K[0].id] if atoms[x][0][1] == key)
                    if on in (["S", "U", "V"], ["Nz", "U", "U"], ["Nz", "V", "V"]):
                        drop = q
                o = seen.setdefault((key, atoms[q][0][1]), K[0])
                if o.id != K[0].id and size_eq(o.size, K[0].size):
                    return [(c, _sub_term(without(q), {K[0].id: (o,)}))]
        if drop is not None:
            return [(c, without(drop))]
    for kind, key in byhead:
        if kind in ("R", "S") and key in REG and not REG[key].terms:
            return []                  # factors of a zero matrix

    def expand(key, legs, idx, extra=()):
        out = []
        base = without(*idx)
        for cc, at in instantiate(REG[key], legs):
            out.append((cmul(c, cc), base + list(extra) + at))
        return out

    for (kind, key), idxs in list(byhead.items()):
        if kind == "Q":
            for i in idxs:
                I, K = atoms[i][1]
                for j in byhead.get(("R", key), []):
                    K2, J = atoms[j][1]
                    if _same_legs(K, K2) and _only(K, {(i, 1), (j, 0)}, occ, free):
                        return expand(key, [I, J], (i, j))
                for j in idxs:
                    if j <= i:
                        continue
                    I2, K2 = atoms[j][1]
                    if _same_legs(I, I2) and _only(I, {(i, 0), (j, 0)}, occ, free):
                        return [(c, without(i, j) + [(("I",), (K, K2))])]
                for j in byhead.get(("Rinv", key), []):
                    J, K2 = atoms[j][1]
                    if _same_legs(K, K2) and _only(K, {(i, 1), (j, 1)}, occ, free):
                        return [(c, without(i, j) + [(("Inv", key), (J, I))])]
        elif kind == "R":
            for i in idxs:
                K, J = atoms[i][1]
                for j in idxs:
                    if j <= i:
                        continue
                    K2, J2 = atoms[j][1]
                    if _same_legs(K, K2) and _only(K, {(i, 0), (j, 0)}, occ, free):
                        # A^T A
                        out = []
                        base = without(i, j)
                        A = REG[key]
                        row = A.axes[0]
                        fresh_rows = tuple(Leg(l.size) for l in row)
                        t1 = instantiate(A, [fresh_rows, J])
                        t2 = instantiate(A, [fresh_rows, J2])
                        for c1, a1 in t1:
                            for c2, a2 in t2:
                                out.append((cmul(c, cmul(c1, c2)), base + a1 + a2))
                        return out
                for j in byhead.get(("Rinv", key), []):
                    J2, K2 = atoms[j][1]
                    if _same_legs(K, K2) and _only(K, {(i, 0), (j, 1)}, occ, free):
                        return [(c, without(i, j) + [(("I",), (J, J2))])]
                    if _same_legs(J, J2) and _only(J, {(i, 1), (j, 0)}, occ, free):
                        return [(c, without(i, j) + [(("I",), (K, K2))])]
        elif kind in ("U", "V"):
            ka = 1 if kind == "U" else 0       # K argument position
            ia = 1 - ka
            # (A V^T) V = A: the mark records that the rest of the term is A V^T
            for m in byhead.get(("Nz", key), []):
                K = atoms[m][1][0]
                two = [i for i in idxs if _same_legs(atoms[i][1][ka], K)]
                if len(two) == 2 and _only(K, {(m, 0), (two[0], ka), (two[1], ka)}, occ, free):
                    return [(c, without(m, *two) + [(("I",), (atoms[two[0]][1][ia], atoms[two[1]][1][ia]))])]
            for i in idxs:
                for j in idxs:
                    if j <= i:
                        continue
                    X, Y = atoms[i][1][ia], atoms[j][1][ia]
                    if _same_legs(X, Y) and _only(X, {(i, ia), (j, ia)}, occ, free):
                        K, K2 = atoms[i][1][ka], atoms[j][1][ka]
                        if _same_legs(K, K2) and any(l.size is INF for l in K) and not any(
                                hh[0] in ("Chi", "S", "Inj") and any(l.id == K[0].id for a in aa for l in a) for hh, aa in atoms):
                            continue        # the trace counts the columns, which are not known here
                        return [(c, without(i, j) + [(("I",), (K, K2))])]
        if kind == "U":
            for i in idxs:
                I, K = atoms[i][1]
                for j in byhead.get(("S", key), []):
                    (K2,) = atoms[j][1]
                    if not _same_legs(K, K2):
                        continue
                    for k in byhead.get(("V", key), []):
                        K3, J = atoms[k][1]
                        if _same_legs(K, K3) and _only(
                                K, {(i, 1), (j, 0), (k, 0)}, occ, free):
                            return expand(key, [I, J], (i, j, k))
                    # U S -> A V^T
                    A = REG[key]
                    newJ = tuple(Leg(l.size) for l in A.axes[1])
                    out = []
                    base = without(i, j)
                    for cc, at in instantiate(A, [I, newJ]):
                        out.append((cmul(c, cc), base + at +
                                    [(("V", key), (K, newJ)), (("Nz", key, atoms[j][0][2]), (K,))]))
                    return out
        if kind == "V":
            for i in idxs:
                K, J = atoms[i][1]
                for j in byhead.get(("S", key), []):
                    (K2,) = atoms[j][1]
                    if not _same_legs(K, K2):
                        continue
                    if any(_same_legs(atoms[u][1][1], K) for u in byhead.get(("U", key), [])):
                        continue
                    A = REG[key]
                    newI = tuple(Leg(l.size) for l in A.axes[0])
                    out = []
                    base = without(i, j)
                    for cc, at in instantiate(A, [newI, J]):
                        out.append((cmul(c, cc), base + at +
                                    [(("U", key), (newI, K)), (("Nz", key, atoms[j][0][2]), (K,))]))
                    return out
        if kind in ("Q", "Inv") and key in REG:
            A = REG[key]
            if len(A.terms) == 1 and len(A.terms[0][1]) == 1 and A.terms[0][0] == ONE:
                hA, argsA = A.terms[0][1][0]
                if len(argsA) == 2 and _same_legs(argsA[0], A.axes[0]) \
                        and _same_legs(argsA[1], A.axes[1]):
                    for i in idxs:
                        a0, a1 = atoms[i][1]
                        for j, (h2, args2) in enumerate(atoms):
                            if h2 != hA or j == i:
                                continue
                            if kind == "Q":
                                if _same_legs(a0, args2[0]) and _only(
                                        a0, {(i, 0), (j, 0)}, occ, free):
                                    return [(c, without(i, j) + [(("R", key), (a1, args2[1]))])]
                            else:
                                if _same_legs(a1, args2[0]) and _only(
                                        a1, {(i, 1), (j, 0)}, occ, free):
                                    return [(c, without(i, j) + [(("I",), (a0, args2[1]))])]
                                if _same_legs(a0, args2[1]) and _only(
                                        a0, {(i, 0), (j, 1)}, occ, free):
                                    return [(c, without(i, j) + [(("I",), (a1, args2[0]))])]
    return None


# ---------------------------------------------------------------- canonical form
def _h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


_BUDGET = [0]


def _term_canon(atoms, label):
    """canonical readable string of a term's atom product; ``label`` gives
    labels of free legs.  Nz marks a product that is known to vanish beyond the
    rank of a factorised matrix: redundant, so it is left out."""
    atoms = [a for a in atoms if a[0][0] != "Nz"]
    if not atoms:
        return ""
    bound = {}
    for h, args in atoms:
        for a in args:
            for l in a:
                if l.id not in label:
                    bound[l.id] = l
    heads = [headrepr(h) for h, _ in atoms]
    color = {i: ("b", repr(l.size)) for i, l in bound.items()}
    color.update({i: ("f", s) for i, s in label.items()})
    color = {i: _h(v) for i, v in color.items()}
    _BUDGET[0] = 400
    return _canon_rec(atoms, heads, color, bound, label)


def _sym_args(h, parts):
    """I atoms are symmetric"""
    if h[0] == "I":
        return tuple(sorted(parts))
    return tuple(parts)


def _refine(atoms, heads, color, bound):
    n = len(set(color[i] for i in bound))
    while True:
        sig = {i: [] for i in bound}
        for (h, args), hr in zip(atoms, heads):
            parts = [tuple(color[l.id] for l in a) for a in args]
            whole = _h((hr, _sym_args(h, [repr(p) for p in parts])))
            for ai, a in enumerate(args):
                tag = 0 if h[0] == "I" else ai
                for p, l in enumerate(a):
                    if l.id in bound:
                        sig[l.id].append((whole, tag, parts[ai], p))
        new = dict(color)
        for i in bound:
            new[i] = _h((color[i], sorted(map(repr, sig[i]))))
        m = len(set(new[i] for i in bound))
        color = new
        if m == n:
            return color
        n = m


def _canon_rec(atoms, heads, color, bound, label):
    if bound:
        color = _refine(atoms, heads, color, bound)
    classes = {}
    for i in bound:
        classes.setdefault(color[i], []).append(i)
    tied = sorted((len(v), k) for k, v in classes.items() if len(v) > 1)
    if not tied:
        order = sorted(bound, key=lambda i: color[i])
        names = dict(label)
        for k, i in enumerate(order):
            names[i] = f"b{k}"
        sizes = [f"b{k}:{bound[i].size}" for k, i in enumerate(order)]
        parts = []
        for (h, args), hr in zip(atoms, heads):
            ps = ["(" + ",".join(names[l.id] for l in a) + ")" for a in args]
            parts.append(hr + "[" + ",".join(_sym_args(h, ps)) + "]")
        return " ".join(sorted(parts)) + (" {" + ",".join(sizes) + "}" if sizes else "")
    _BUDGET[0] -= 1
    if _BUDGET[0] < 0:
        raise Unsupported("canonical labelling budget")
    k = tied[0][1]
    best = None
    for i in classes[k]:
        c2 = dict(color)
        c2[i] = _h((c2[i], "*"))
        s = _canon_rec(atoms, heads, c2, bound, label)
        if best is None or s < best:
            best = s
    return best


def headrepr(h):
    return h[0] + ("<" + ",".join(str(x) for x in h[1:]) + ">" if len(h) > 1 else "")


def _merge_groups(net):
    """merge legs that only ever occur adjacent (bound or free)"""
    guard = 0
    while True:
        guard += 1
        if guard > 100:
            return net
        # free legs: over all terms; bound legs: per term
        freeids = {l.id for l in free_legs(net)}
        nxt, prv, leg = {}, {}, {}

        def note(tup, scope, only):
            for p, l in enumerate(tup):
                if only is not None and ((l.id in freeids) != only):
                    continue
                k = (scope if l.id not in freeids else None, l.id)
                n = tup[p + 1].id if p + 1 < len(tup) else None
                q = tup[p - 1].id if p > 0 else None
                leg[k] = l
                nxt.setdefault(k, set()).add(n)
                prv.setdefault(k, set()).add(q)

        for a in net.axes:
            note(a, None, None)
        for ti, t in enumerate(net.terms):
            for h, args in t[1]:
                for a in args:
                    note(a, ti, None)
        done = False
        for k, ns in nxt.items():
            l = leg[k]
            if l.param or len(ns) != 1:
                continue
            n = next(iter(ns))
            if n is None or n == l.id:
                continue
            k2 = (k[0], n) if (k[0], n) in leg else None
            if k2 is None:
                continue
            # both free or both bound in the same scope
            if (l.id in freeids) != (n in freeids):
                continue
            l2 = leg[k2]
            if l2.param or prv[k2] != {l.id}:
                continue
            m = Leg(pmul(l.size, l2.size) if l.size is not INF and l2.size is not INF else INF)
            if m.size is INF:
                continue

            def rw(tup):
                out = []
                for x in tup:
                    if x.id == l.id:
                        out.append(m)
                    elif x.id == l2.id:
                        continue
                    else:
                        out.append(x)
                return tuple(out)

            if k[0] is None:
                net = Net([rw(a) for a in net.axes],
                          [(c, tuple((h, tuple(rw(a) for a in args)) for h, args in at))
                           for c, at in net.terms])
            else:
                terms = list(net.terms)
                c, at = terms[k[0]]
                terms[k[0]] = (c, tuple((h, tuple(rw(a) for a in args)) for h, args in at))
                net = Net(net.axes, terms)
            done = True
            break
        if not done:
            return net


def _labels(net):
    lab = {}
    for ai, a in enumerate(net.axes):
        for p, l in enumerate(a):
            if l.id not in lab:
                lab[l.id] = f"f{ai}.{p}"
    for t in net.terms:
        for l in legs_of_term(t):
            if l.param and l.id not in lab:
                lab[l.id] = f"p{l.id}"
    return lab


def _collect(net):
    """combine like terms; merge tiling indicator functions"""
    if len(net.terms) == 0:
        return net
    if len(net.terms) == 1:
        if net.terms[0][0][0] == 0:
            return Net(net.axes, [])
        return Net(net.axes, [(_cnorm(net.terms[0][0]), net.terms[0][1])])
    lab = _labels(net)
    groups = {}
    order = []
    for c, at in net.terms:
        c = _cnorm(c)
        mn = _merge_groups(Net((), [(ONE, at)])) if False else None
        k = (_term_canon(at, lab), c[1])
        if k not in groups:
            groups[k] = [Fraction(0), at, c[1]]
            order.append(k)
        groups[k][0] += c[0]
    terms = [((groups[k][0], groups[k][2]), groups[k][1]) for k in order
             if groups[k][0] != 0]
    net = Net(net.axes, terms)
    if any(h[0] == "Chi" for c, at in terms for h, _ in at):
        net = _merge_chi(net)
    if sum(1 for c, at in net.terms for h, _ in at if h[0] == "Inj") > 1:
        net = _merge_units(net)
    return net


def _merge_units(net):
    """sum over all k of e_k(x) e_k(y) -> identity(x, y)  (concrete sizes)"""
    changed = True
    while changed:
        changed = False
        lab = _labels(net)
        groups = {}
        for ti, (c, at) in enumerate(net.terms):
            units = [(ai, h[1], args[1]) for ai, (h, args) in enumerate(at)
                     if h[0] == "Inj" and not args[0] and len(args[1]) == 1 and isinstance(h[1], int)
                     and isinstance(args[1][0].size, int)]
            for x in range(len(units)):
                for y in range(x + 1, len(units)):
                    (i, k, a), (j, l, b) = units[x], units[y]
                    if k != l or a[0].size != b[0].size or a[0].id == b[0].id:
                        continue
                    rest = tuple(t for q, t in enumerate(at) if q not in (i, j))
                    rest += ((("I",), (a, b)),)
                    g = groups.setdefault((_term_canon(rest, lab), repr(c), a[0].size), {})
                    g.setdefault(k, (ti, c, rest))
        for (_, _, n), g in groups.items():
            if len(g) == n and len({v[0] for v in g.values()}) == n:
                kill = {v[0] for v in g.values()}
                ti, c, rest = g[min(g)]
                terms = [t for q, t in enumerate(net.terms) if q not in kill] + [(c, rest)]
                net = simplify(Net(net.axes, terms))
                changed = True
                break
    return net


def _cnorm(c):
    """sqrt(s)^2 -> s is handled at construction; numbers folded"""
    out = []
    f = c[0]
    for k, e in c[1]:
        if k[0] == "num":
            if e.denominator == 1:
                f *= k[1] ** int(e)
                continue
        out.append((k, e))
    return (f, tuple(out))


def _merge_chi(net):
    """f*Chi[a,b) + f*Chi[b,c) -> f*Chi[a,c)"""
    changed = True
    while changed:
        changed = False
        lab = _labels(net)
        terms = list(net.terms)
        info = []
        for ti, (c, at) in enumerate(terms):
            for ai, (h, args) in enumerate(at):
                if h[0] != "Chi":
                    continue
                marker = (("ChiSlot",), args)
                rest = at[:ai] + (marker,) + at[ai + 1:]
                info.append((ti, ai, h[1], h[2], args, (_term_canon(rest, lab), c)))
        for x in info:
            for y in info:
                if x[0] == y[0]:
                    continue
                if x[5] == y[5] and peq(x[3], y[2]):
                    ti, ai = x[0], x[1]
                    c, at = terms[ti]
                    new = (c, at[:ai] + ((("Chi", x[2], y[3]), x[4]),) + at[ai + 1:])
                    terms = [t for k, t in enumerate(terms) if k not in (x[0], y[0])]
                    net = Net(net.axes, terms + [new])
                    net = simplify(net)
                    changed = True
                    break
            if changed:
                break
    return net


def _unmark(n):
    """leave out the redundant marks of vanishing products"""
    if not any(h[0] == "Nz" for c, at in n.terms for h, _ in at):
        return n
    return simplify(Net(n.axes, [(c, tuple(a for a in at if a[0][0] != "Nz")) for c, at in n.terms]))


def key(net):
    if net._key is None:
        n = _merge_groups(_unmark(simplify(net)))
        lab = _labels(n)
        axes = tuple(tuple((lab[l.id], repr(l.size)) for l in a) for a in n.axes)
        terms = sorted((_term_canon(at, lab), repr(c)) for c, at in n.terms)
        # like terms may have become equal after merging
        acc = {}
        for c, at in n.terms:
            k = (_term_canon(at, lab), c[1])
            acc[k] = acc.get(k, 0) + c[0]
        terms = sorted((k[0], repr(k[1]), str(v)) for k, v in acc.items() if v)
        s = (axes, tuple(terms))
        net._key = _h(s)
        READ[net._key] = s
    return net._key


def is_zero(net, _expand=True):
    n = _unmark(simplify(net))
    if not n.terms:
        return True
    n = _merge_groups(n)
    lab = _labels(n)
    acc = {}
    for c, at in n.terms:
        k = (_term_canon(at, lab), c[1])
        acc[k] = acc.get(k, 0) + c[0]
    if all(v == 0 for v in acc.values()):
        return True
    return _expand and is_zero(_enumerate_legs(n), False) if _has_units(n) else False


def _has_units(n):
    """position selections or windows on a summation of concrete length"""
    return any(h[0] == "Inj" and not args[0] or h[0] == "Chi" for c, at in n.terms for h, args in at)


def _enumerate_legs(net, limit=9, most=600):
    """write every short concrete summation as the sum over its positions"""
    terms, work = [], list(net.terms)
    done = 0
    while work:
        c, at = work.pop()
        free = {l.id for a in net.axes for l in a}
        occ, skip = {}, set()
        for h, args in at:
            for a in args:
                for l in a:
                    occ.setdefault(l.id, l)
            if h[0] == "Inj" and not args[0]:
                skip.update(l.id for l in args[1])
            if h[0] == "Inj":
                skip.update(l.id for a in args for l in a)
        leg = next((l for i, l in occ.items() if i not in free and i not in skip and isinstance(l.size, int) and 1 < l.size < limit), None)
        done += 1
        if leg is None or done > most:
            terms.append((c, _unshare(at, free)))
            continue
        # position of the leg after refreshing: open it as an additional last axis
        opened = fresh(Net(list(net.axes) + [(leg,)], [(c, at)]))
        for k in range(leg.size):
            n = simplify(index_axis(opened, len(net.axes), k))
            r = _realign(n, net.axes)
            work.extend(r)
    r = Net(net.axes, terms)
    r._simple = True      # sharing a selected position again is what simplification would do
    return r


def _unshare(at, free):
    """a summation pinned to one position: every use gets its own copy"""
    at = list(at)
    for i, (h, args) in enumerate(list(at)):
        if h[0] != "Inj" or args[0] or len(args[1]) != 1 or args[1][0].id in free:
            continue
        l = args[1][0]
        first = True
        for j, (h2, a2) in enumerate(list(at)):
            if j == i:
                continue
            new = []
            for a in a2:
                na = []
                for x in a:
                    if x.id == l.id:
                        if not first:
                            x = Leg(l.size)
                            at.append((h, ((), (x,))))
                        first = False
                    na.append(x)
                new.append(tuple(na))
            at[j] = (h2, tuple(new))
    return tuple(at)


def _realign(n, axes):
    """the terms of ``n`` over the given axis legs"""
    out = []
    n = _undiag(fresh(n))
    for c, at in n.terms:
        sub_ = {}
        for a, b in zip(n.axes, axes):
            if len(a) != len(b):
                raise Unsupported("axis groups")
            for x, y in zip(a, b):
                sub_[x.id] = (y,)
        out.append((c, tuple(_sub_term(list(at), sub_))))
    return out


def equal(a, b):
    if a.ndim != b.ndim:
        return False
    if any(not size_eq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    if key(a) == key(b):
        return True
    return is_zero(sub(a, b))


def readable(net, limit=6):
    try:
        n = _merge_groups(simplify(net))
    except Exception:
        n = net
    lab = _labels(n)
    axes = "(" + ", ".join("*".join(f"{lab[l.id]}:{l.size}" for l in a) or "1" for a in n.axes) + ")"
    ts = []
    for c, at in n.terms[:limit]:
        cs = str(c[0]) if c[0] != 1 or not (c[1] or at) else ""
        cs += "".join(f" {scalrepr(k)}^{e}" if e != 1 else f" {scalrepr(k)}" for k, e in c[1])
        try:
            ts.append((cs + " " + _term_canon(at, lab)).strip())
        except Unsupported:
            ts.append(cs + " <...>")
    if len(n.terms) > limit:
        ts.append(f"... {len(n.terms)} terms")
    return axes + " " + (" + ".join(ts) or "0")


def scalrepr(k):
    if k[0] == "sym":
        return k[1]
    if k[0] == "var":
        return k[1]
    return f"{k[0]}:{k[1]}"


# ---------------------------------------------------------------- scalars
def is_scalar_const(net):
    """0-d net made of coefs only"""
    return net.ndim == 0 and all(not at for c, at in net.terms)


def scal_symbol(kind, net, nonneg=False):
    k = (kind, key(net))
    SCALS.setdefault(k, {"nonneg": nonneg, "net": net})
    return k


def manifestly_nonneg(net):
    """0-d (or elementwise) value is >= 0 whatever the atoms"""
    n = simplify(net)
    if NONNEG and key(n) in NONNEG:
        return True
    for c, at in n.terms:
        if c[0] < 0:
            return False
        for k, e in c[1]:
            if not SCALS.get(k, {}).get("nonneg") and e % 2:
                return False
        if at and not _gram(at):
            return False
    return True


def _gram(atoms):
    """product of atoms is a square (each atom pairs with a copy under an
    involution of legs fixing the shared ones): recognised as the contraction
    X[i..]X[i..] of identical factors"""
    from collections import Counter
    cnt = Counter((headrepr(h)) for h, a in atoms)
    if any(v % 2 for v in cnt.values()):
        return False
    if len(atoms) == 2:
        return all(_same_legs(a, b) for a, b in zip(atoms[0][1], atoms[1][1]))
    # try to split in two halves connected only through bound legs symmetric
    half1, half2 = [], []
    pool = list(atoms)
    lab = {}
    # brute force on small products
    n = len(atoms)
    if n > 16:
        return False
    import itertools as it
    byh = {}
    for i, (h, a) in enumerate(atoms):
        byh.setdefault(headrepr(h), []).append(i)
    if any(len(v) != 2 for v in byh.values()):
        return False
    pairs = list(byh.values())
    for choice in it.product((0, 1), repeat=len(pairs) - 1):
        ch = (0,) + choice
        h1 = [atoms[p[c]] for p, c in zip(pairs, ch)]
        h2 = [atoms[p[1 - c]] for p, c in zip(pairs, ch)]
        l1 = {l.id: l for h, a in h1 for x in a for l in x}
        l2 = {l.id: l for h, a in h2 for x in a for l in x}
        shared = set(l1) & set(l2)
        labm = {i: f"s{i}" for i in shared}
        try:
            if _term_canon(tuple(h1), labm) == _term_canon(tuple(h2), labm):
                return True
        except Unsupported:
            return False
    return False


def scal_recip(net):
    """1/x for a 0-d net"""
    n = simplify(net)
    if not n.terms:
        raise ZeroDivisionError
    if len(n.terms) == 1 and not n.terms[0][1]:
        return Net((), [(cpow(n.terms[0][0], -1), ())], simple=True)
    if len(n.terms) == 1:
        c, at = n.terms[0]
        base = Net((), [(ONE, at)])
        k = scal_symbol("net", base, nonneg=manifestly_nonneg(base))
        return Net((), [(cmul(cpow(c, -1), (Fraction(1), ((k, Fraction(-1)),))), ())],
                   simple=True)
    k = scal_symbol("net", n, nonneg=manifestly_nonneg(n))
    return Net((), [((Fraction(1), ((k, Fraction(-1)),)), ())], simple=True)


def scal_pow(net, e):
    n = simplify(net)
    e = Fraction(e)
    if e == 0:
        return scalar_net(1)
    if e.denominator == 1 and e > 0 and e <= 4:
        r = n
        for _ in range(int(e) - 1):
            r = ewise_mul(r, n)
        return _fold_scal(r)
    if not n.terms:
        return n
    if len(n.terms) == 1 and not n.terms[0][1]:
        c = n.terms[0][0]
        if e.denominator == 1:
            return _fold_scal(Net((), [(cpow(c, e), ())]))
        if c[0] > 0 and all(SCALS.get(k, {}).get("nonneg") for k, _ in c[1]):
            f = c[0]
            import math
            if e.denominator == 2:
                p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if p * p == f.numerator and q * q == f.denominator:
                    rt = Fraction(p, q) ** e.numerator
                    return Net((), [((rt, tuple((k, x * e) for k, x in c[1])), ())],
                               simple=True)
            return _fold_scal(Net((), [(cpow(c, e), ())]))
        if c[0] > 0 and e == Fraction(1, 2) and all(
                x.denominator == 1 and x % 2 == 0 for _, x in c[1]):
            # sqrt(x^2) = |x|
            out = Net((), [(cpow((c[0], ()), e), ())])
            for k, x in c[1]:
                out = ewise_mul(out, scal_pow(scal_abs(
                    Net((), [((Fraction(1), ((k, Fraction(1)),)), ())])), x / 2))
            return out
    k = scal_symbol("net", n, nonneg=True)
    if e < 0:
        SCALS[k]["nonneg"] = manifestly_nonneg(n)
    # pull out a constant positive factor
    if len(n.terms) == 1 and n.terms[0][0] != ONE and n.terms[0][0][0] > 0 and \
            all(SCALS.get(kk, {}).get("nonneg") or x % 2 == 0
                for kk, x in n.terms[0][0][1]):
        c = n.terms[0][0]
        return ewise_mul(scal_pow(Net((), [(c, ())]), e),
                         scal_pow(Net((), [(ONE, n.terms[0][1])]), e))
    return Net((), [((Fraction(1), ((k, e),)), ())], simple=True)


def _fold_scal(net):
    """scal symbols ('net', key) with integer positive exponent expand back"""
    out = None
    for c, at in net.terms:
        base = Net((), [((c[0], ()), at)])
        ok = True
        for k, e in c[1]:
            if k[0] == "net" and e.denominator == 1 and e > 0 and "net" in SCALS[k]:
                for _ in range(int(e)):
                    base = ewise_mul(base, SCALS[k]["net"])
            else:
                base = scale(base, [(Fraction(1), ((k, e),))])
        out = base if out is None else add(out, base)
    return simplify(out) if out is not None else net


def scal_abs(net):
    n = simplify(net)
    if not n.terms:
        return n
    if manifestly_nonneg(n):
        return n
    if manifestly_nonneg(neg(n)):
        return neg(n)
    if len(n.terms) == 1 and not n.terms[0][1]:
        c = n.terms[0][0]
        out = (abs(c[0]), ())
        res = Net((), [(out, ())])
        for k, e in c[1]:
            if SCALS.get(k, {}).get("nonneg") or e % 2 == 0:
                res = scale(res, [(Fraction(1), ((k, e),))])
            else:
                if k[0] == "abs":
                    kk = k
                else:
                    kk = ("abs", repr(k))
                    SCALS.setdefault(kk, {"nonneg": True})
                res = scale(res, [(Fraction(1), ((kk, e),))])
        return res
    nk = key(neg(n))
    k = key(n)
    kk = ("abs", min(k, nk))
    SCALS.setdefault(kk, {"nonneg": True, "net": n})
    return Net((), [((Fraction(1), ((kk, Fraction(1)),)), ())], simple=True)


# ---------------------------------------------------------------- loop helpers
def has_head(net, head, _seen=None):
    """the net (or a net one of its atoms / scalars was built from) uses head"""
    seen = _seen if _seen is not None else set()
    if id(net) in seen:
        return False
    seen.add(id(net))
    for c, at in net.terms:
        for h, _ in at:
            if h == head or net_mentions(h, head, seen):
                return True
        for k, _ in c[1]:
            n = SCALS.get(k, {}).get("net")
            if n is not None and has_head(n, head, seen):
                return True
    return False


def net_mentions(h, head, _seen=None):
    if h == head:
        return True
    if len(h) > 1:
        for x in h[1:]:
            n = REG.get(x) if isinstance(x, (str, tuple)) else None
            if n is None and h[0] == "Sel":
                n = MASKS.get(x)
            if n is not None and has_head(n, head, _seen):
                return True
    return False


def sum_param(net, leg):
    """sum over a loop (param) leg"""
    new = Leg(leg.size)
    terms = []
    for c, at in net.terms:
        if any(l is leg or l.id == leg.id for h, args in at for a in args for l in a):
            terms.append(map_term((c, at), {leg.id: (new,)}))
        else:
            for k in poly_terms(leg.size):
                terms.append((cmul(c, k), at))
    axes = [resolve_legs(a, {leg.id: (new,)}) for a in net.axes]
    return simplify(Net(axes, terms))


def uses_leg(net, leg):
    return any(l.id == leg.id for c, at in net.terms for h, args in at
               for a in args for l in a) or any(l.id == leg.id for a in net.axes for l in a)


def open_param(net, leg, pos):
    """turn a param leg into a new output axis at position pos"""
    new = Leg(leg.size)
    n = map_net(net, {leg.id: (new,)})
    axes = list(n.axes)
    axes.insert(pos, (new,))
    return Net(axes, n.terms)
