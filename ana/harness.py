"""Obligations: run abstract scenarios over all trace partitions and judge."""
from __future__ import annotations

import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import interp as IN
import net as N
import numeval as NE
import poly as P
from net import Leg, NanDivision, Net, NonTermination, ShapeError, Unsupported
from poly import Poly
from values import *

sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Stop(Exception):
    """scenario cannot continue (already recorded)"""


class Scenario:
    def __init__(self, case, decider, rec):
        self.case, self.rec = case, rec
        self.I = IN.Interp(REPO)
        self.I.decider = decider
        self.lib = self.I.lib
        self.label = ""
        if not case.opts.get("raw_rng"):
            self.model_rng()

    # ------------------------------------------------------------ recording
    def out(self, status, label, detail="", loc=None, rule=None):
        self.rec(status, f"{self.label}{label}", detail, loc or "", rule)

    def ok(self, label):
        self.out("ok", label)

    def bad(self, label, detail, loc=None, rule=None):
        if not self.feasible():
            self.out("undet", label, "partition has no model: " + detail)
            return
        self.out("violation", label, detail, loc, rule)

    def undet(self, label, detail):
        self.out("undet", label, detail)

    def feasible(self):
        return NE.sat() is True and NE.data_sat()

    # ------------------------------------------------------------ interpreter access
    def ns(self, mod):
        return self.I.load(mod if mod.startswith(("tt_sketch", "scripts")) else "tt_sketch." + mod).ns

    def client(self, src):
        """namespace of client code"""
        import textwrap
        return self.I.load_source("client", textwrap.dedent(src))

    def cls(self, mod, name):
        ns = self.ns(mod)
        if name not in ns:
            raise MissingAnchor(f"{mod}.{name}")
        return ns[name]

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def m(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name), list(a), k)

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def list(self, v):
        """python list of an abstract iterable"""
        if isinstance(v, list):
            return v
        return list(self.I.iterate(v))

    # ------------------------------------------------------------ models
    def model_rng(self):
        def rn(args, kw):
            v = dict(zip(("shape", "seed"), args))
            v.update(kw)
            shape, seed = v["shape"], v.get("seed")
            if seed is None:
                seed = self.lib.fresh_ambient("random_normal(seed=None)")
            rng = NativeObj("rng", family="MT", skey=self.lib.seedkey(seed), pos=0,
                            taints=self.lib.seed_taints(seed), seed=seed)
            self.I.event("rng_new", family="MT", seed=seed, skey=rng.skey, rng=rng)
            r = self.lib.sized(rng, "normal", shape)
            if self.opt("record_draws"):
                self.draws.append((rng.skey, r.net, self.I.loc()))
            return r
        self.draws = []
        self.I.overrides["tt_sketch.utils.random_normal"] = rn

    def opt(self, k, d=None):
        return self.case.opts.get(k, d)

    # ------------------------------------------------------------ symbols
    def sym(self, name, lo=1):
        return P.new_sym(name, lo)

    def dims(self, d, unit=(), name="n", conc=None):
        out = []
        for k in range(d):
            if conc and k in conc:
                out.append(conc[k])
            elif k in unit:
                out.append(1)
            else:
                out.append(self.sym(f"{name}{k}", 2))
        return tuple(out)

    def ranks(self, shape, name="r", bounded=True, unit=()):
        out = []
        for k in range(len(shape) - 1):
            out.append(1 if k in unit else self.sym(f"{name}{k}", 1))
        if bounded:
            self.bound_ranks(shape, out)
        return tuple(out)

    def bound_ranks(self, shape, ranks):
        for k, r in enumerate(ranks):
            for n in (shape[k], shape[k + 1]):
                if isinstance(n, Poly):
                    P.add_fact(P.psub(n, r))

    # ------------------------------------------------------------ arrays
    def atom(self, name, *shape):
        a = self.lib.arr(N.atom_net(("in", name), shape))
        a.origin = "input " + name
        return a

    def tt_cores(self, name, shape, ranks):
        rr = (1,) + tuple(ranks) + (1,)
        return [self.atom(f"{name}.{k}", rr[k], n, rr[k + 1]) for k, n in enumerate(shape)]

    def tt(self, name, shape, ranks):
        return self.call(self.cls("tensor", "TensorTrain"), ListObj(self.tt_cores(name, shape, ranks)))

    def cp(self, name, shape, rank):
        cores = [self.atom(f"{name}.{k}", n, rank) for k, n in enumerate(shape)]
        return self.call(self.cls("tensor", "CPTensor"), ListObj(cores))

    def tucker(self, name, shape, ranks):
        fs = [self.atom(f"{name}.U{k}", r, n) for k, (r, n) in enumerate(zip(ranks, shape))]
        core = self.atom(f"{name}.C", *ranks)
        return self.call(self.cls("tensor", "TuckerTensor"), ListObj(fs), core)

    def dense(self, name, shape):
        return self.call(self.cls("tensor", "DenseTensor"), self.atom(name, *shape))

    def index_rows(self, name, shape, nnz):
        rows = []
        for k, n in enumerate(shape):
            L = N.mkleg(nnz)
            V = N.mkleg(n)
            if V:
                net = Net((L, V), [(N.ONE, ((("E", f"{name}.i{k}"), (L, V)),))])
            else:
                net = N.const_net((nnz, 1), 1)
            rows.append(IntArr((nnz,), [(1, net)], 0))
        return rows

    def sparse(self, name, shape, nnz, as_tuple=False):
        rows = self.index_rows(name, shape, nnz)
        ind = tuple(rows) if as_tuple else IntStack(rows, nnz)
        return self.call(self.cls("tensor", "SparseTensor"), tuple(shape), ind, self.atom(f"{name}.e", nnz))

    def sum(self, parts):
        return self.call(self.cls("tensor", "TensorSum"), ListObj(list(parts)))

    # ------------------------------------------------------------ values
    def net(self, v):
        return self.lib.tonet(v)

    def to_numpy(self, x):
        return self.net(self.m(x, "to_numpy"))

    def arr(self, net):
        return self.lib.arr(net)

    # ------------------------------------------------------------ judgements
    def eq(self, label, got, want, what="value", rule=None):
        loc = getattr(got, "origin", None)
        try:
            g = got if isinstance(got, Net) else self.net(got)
            w = want if isinstance(want, Net) else self.net(want)
        except Unsupported as e:
            self.undet(label, str(e))
            return
        if g.ndim != w.ndim:
            self.bad(label, f"{what} has {g.ndim} axes {g.shape}, expected {w.ndim} axes {w.shape}", loc, rule)
            return
        for i, (x, y) in enumerate(zip(g.shape, w.shape)):
            if not P.peq(x, y) and P.cmp_eq(x, y) is not True:
                d = NE.ints_differ(x, y)
                if d:
                    self.bad(label, f"{what}: axis {i} has size {x}, expected {y}", loc, rule)
                else:
                    self.undet(label, f"axis {i}: {x} vs {y}")
                return
        try:
            same = N.equal(g, w)
        except Unsupported as e:
            same = None
            why = str(e)
        except ShapeError as e:
            same = None
            why = str(e)
        else:
            why = "normal forms differ"
        if same:
            self.ok(label)
            return
        d = NE.nets_differ(g, w)
        if d and (same is False or why):
            self.bad(label, f"{what} is {self.show(g)} ; expected {self.show(w)}", loc, rule)
        else:
            self.undet(label, f"{why} (model check: {'agree' if d is False else 'n/a'}): {self.show(g)} | {self.show(w)}")

    def show(self, net):
        try:
            return N.readable(net)[:600]
        except Exception:
            return "<net>"

    def eqint(self, label, got, want, what="value", loc=None):
        if isinstance(got, NDArr) and got.ndim == 0:
            p = self.lib.net_as_poly(got)
            if p is None:
                self.eq(label, got, self.lib.arr(N.scalar_net(want)), what)
                return
            got = p
        if isinstance(got, bool) or not isinstance(got, (int, Poly)):
            if isinstance(got, Fraction) and got.denominator == 1:
                got = int(got)
            elif isinstance(got, (int, Fraction)) and not isinstance(got, bool):
                self.bad(label, f"{what} is {got}, expected {want}", loc)
                return
            else:
                self.bad(label, f"{what} is {self.desc(got)}, expected the integer {want}", loc)
                return
        if P.peq(got, want) or P.cmp_eq(got, want) is True:
            self.ok(label)
            return
        d = NE.ints_differ(got, want)
        if d:
            self.bad(label, f"{what} is {got}, expected {want}", loc)
        else:
            self.undet(label, f"{what}: {got} vs {want}")

    def ge(self, label, a, b, what="value"):
        r = P.cmp_ge(a, b)
        if r is True:
            self.ok(label)
            return
        for env in NE.assignments(8, seed=21, span=4):
            try:
                if env.poly(a) < env.poly(b):
                    self.bad(label, f"{what}: {a} can be below {b}")
                    return
            except NE.CantEval:
                continue
        self.undet(label, f"{what}: {a} >= {b} not provable")

    def eqtuple(self, label, got, want, what="value", loc=None):
        if isinstance(got, (CArr, ListObj)):
            self.bad(label, f"{what} is a {type(got).__name__}, expected a tuple", loc)
            return
        if not isinstance(got, tuple):
            self.bad(label, f"{what} is {self.desc(got)}, expected the tuple {want}", loc)
            return
        if len(got) != len(want):
            self.bad(label, f"{what} is {got}, expected {tuple(want)}", loc)
            return
        for i, (x, y) in enumerate(zip(got, want)):
            self.eqint(f"{label}[{i}]", x, y, f"{what}[{i}] of {got}", loc)

    def desc(self, v):
        if isinstance(v, InstObj):
            return f"a {v.cls.name}"
        if isinstance(v, NDArr):
            return f"array {self.show(v.net)}"
        return repr(v)[:120]

    def true(self, label, cond, detail, loc=None):
        if cond is True:
            self.ok(label)
        elif cond is False:
            self.bad(label, detail, loc)
        else:
            self.undet(label, detail)

    def eqarrays(self, label, got, want):
        got, want = self.list(got), self.list(want)
        if len(got) != len(want):
            self.bad(label, f"{len(got)} arrays, expected {len(want)}")
            return
        for i, (a, b) in enumerate(zip(got, want)):
            self.eq(f"{label}[{i}]", a, b, f"array {i}")

    def excname(self, e):
        c = e.exc.cls
        return c.py.__name__ if isinstance(c, ExcClass) else c.name

    def is_exc(self, e, pyclass):
        c = e.exc.cls
        if isinstance(c, ExcClass):
            return issubclass(c.py, pyclass)
        return any(isinstance(k, ExcClass) and issubclass(k.py, pyclass) for k in self.I.mro(c))

    def raises(self, label, exc, thunk, detail="", also=()):
        """the call must be refused with ``exc``"""
        try:
            v = thunk()
            # generators are only refused when consumed
            if isinstance(v, GenObj):
                self.list(v)
        except PyRaise as e:
            if self.is_exc(e, exc) or any(self.is_exc(e, x) for x in also):
                self.ok(label)
            else:
                self.bad(label, f"raises {self.excname(e)}: {e.exc} instead of {exc.__name__} {detail}",
                         e.loc)
            return None
        except Unsupported as e:
            self.undet(label, str(e))
            return None
        self.bad(label, f"no {exc.__name__} is raised {detail}; returned {self.desc(v)}")
        return v

    def run(self, label, thunk):
        """the call must succeed"""
        try:
            return thunk()
        except PyRaise as e:
            self.bad(label, f"raises {self.excname(e)}: {e.exc}  [{' <- '.join(reversed(e.stack or [])) }]", e.loc)
            raise Stop()
        except NanDivision as e:
            self.bad(label, "divides by zero, so the result is NaN or infinite", self.I.loc())
            raise Stop()
        except NonTermination as e:
            self.bad(label, str(e), self.I.loc())
            raise Stop()
        except Unsupported as e:
            self.undet(label, f"{e} at {self.I.loc()}")
            raise Stop()

    def trying(self, label, thunk):
        """like run, but the scenario goes on (returns None on failure)"""
        try:
            return self.run(label, thunk)
        except Stop:
            return None

    # ------------------------------------------------------------ taints
    def taints(self, v, seen=None):
        """ambient sources (entropy, time, cpu count, addresses, ...) that a value depends on"""
        seen = set() if seen is None else seen
        if id(v) in seen:
            return frozenset()
        seen.add(id(v))
        if isinstance(v, Poly):
            return P.taints_of(v)
        if isinstance(v, NDArr):
            return self.lib.net_taints(v.net)
        if isinstance(v, Net):
            return self.lib.net_taints(v)
        if isinstance(v, CArr):
            return self.taints(tuple(v.flat()), seen)
        if isinstance(v, (IntArr, IntStack, Mask)):
            return self.lib.net_taints(self.lib.tonet(v)) if isinstance(v, IntArr) else \
                self.taints(tuple(v.rows), seen) if isinstance(v, IntStack) else frozenset()
        t = frozenset()
        if isinstance(v, ListObj):
            for x in v.items:
                t |= self.taints(x, seen)
        elif isinstance(v, (tuple, list)):
            for x in v:
                t |= self.taints(x, seen)
        elif isinstance(v, DictObj):
            for kk, (k, x) in v.d.items():
                t |= self.taints(k, seen) | self.taints(x, seen)
        elif isinstance(v, InstObj):
            for k, x in v.attrs.items():
                t |= self.taints(x, seen)
        elif isinstance(v, NativeObj):
            t |= frozenset(getattr(v, "taints", ()) or ())
        return t

    def untainted(self, label, v, what):
        t = self.taints(v)
        if t:
            self.bad(label, f"{what} depends on {', '.join(sorted(t))}")
        else:
            self.ok(label)

    # ------------------------------------------------------------ freezing
    def freeze(self, v, label, seen=None):
        seen = set() if seen is None else seen
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, NDArr):
            v.root().frozen = label
            if v.root() is not v:
                v.frozen = label
        elif isinstance(v, CArr):
            v.root().frozen = label
        elif isinstance(v, (IntArr, IntStack)):
            v.frozen = label
            if isinstance(v, IntStack):
                for r in v.rows:
                    self.freeze(r, label, seen)
        elif isinstance(v, ListObj):
            v.frozen = label
            for i, x in enumerate(v.items):
                self.freeze(x, f"{label}[{i}]", seen)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                self.freeze(x, f"{label}[{i}]", seen)
        elif isinstance(v, DictObj):
            v.frozen = label
            for kk, (k, x) in v.d.items():
                self.freeze(x, label, seen)
        elif isinstance(v, InstObj):
            v.frozen = label
            v.marked = frozenset(v.attrs)
            for k, x in v.attrs.items():
                if not k.startswith("_"):
                    self.freeze(x, f"{label}.{k}", seen)

    def mutations(self, label, since=0, allow=()):
        ev = [e for e in self.I.events[since:] if e["kind"] == "mutation"
              and not any(a in e["label"] for a in allow)]
        if not ev:
            self.ok(label)
        seen = set()
        for e in ev:
            k = (e["label"], e["loc"])
            if k in seen:
                continue
            seen.add(k)
            self.bad(label, f"{e['label']} is modified ({e['what']})", e["loc"])


class MissingAnchor(Exception):
    pass


class HardTimeout(BaseException):
    pass


class Case:
    def __init__(self, prop, name, fn, args=(), tier="quick", **opts):
        self.prop, self.name, self.fn, self.args, self.tier, self.opts = prop, name, fn, args, tier, opts

    def run(self):
        recs = []
        info = {"partitions": 0, "visited": set(), "case": self.name}
        t0 = time.time()

        def go(d):
            def rec(status, label, detail, loc, rule):
                recs.append({"status": status, "label": label, "detail": detail, "loc": loc,
                             "case": self.name, "rule": rule,
                             "path": [f"{x[2]} := {x[1]}" for x in d.taken],
                             "subst": {k: repr(v) for k, v in getattr(d, 'subst', {}).items()}})
            sc = None
            try:
                sc = Scenario(self, d, rec)
                self.fn(sc, *self.args)
            except Stop:
                pass
            except MissingAnchor as e:
                rec("anchor", "anchor", f"public name {e} not found", "", None)
            except PyRaise as e:
                if sc.opt("raise_ok"):
                    pass
                else:
                    sc.bad("completes", f"raises {sc.excname(e)}: {e.exc} [{' <- '.join(reversed(e.stack or []))}]", e.loc)
            except NonTermination as e:
                sc.bad("completes", str(e), sc.I.loc())
            except Unsupported as e:
                rec("undet", sc.label if sc else "", f"{e} at {sc.I.loc() if sc else ''}", "", None)
            except ShapeError as e:
                rec("undet", sc.label if sc else "", f"model: {e} at {sc.I.loc()}", "", None)
            except RecursionError as e:
                rec("undet", "", "analysis recursion limit", "", None)
            except Exception as e:
                tb = traceback.format_exc()
                rec("internal", "internal", f"{type(e).__name__}: {e}\n{tb[-1500:]}", "", None)
            if sc is not None:
                info["visited"] |= sc.I.visited
            return 1
        limit = self.opts.get("max_paths", 48)
        n = 0
        deadline = t0 + self.opts.get("timeout", 240)

        def late(signum, frame):
            raise HardTimeout()

        def note(why):
            recs.append({"status": "undet", "label": "partitions", "detail": why, "loc": "",
                         "case": self.name, "rule": None, "path": [], "subst": {}})
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.opts.get("timeout", 240) + 5)
        try:
            for d, r in IN.explore(go, limit):
                if d is None:
                    note("path limit")
                    break
                n += 1
                if time.time() > deadline:
                    note("time limit")
                    break
        except HardTimeout:
            note("time limit within a partition")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        info["partitions"] = n
        info["time"] = time.time() - t0
        info["visited"] = sorted(info["visited"])
        return recs, info


class AstCase:
    """a scenario of an analysis that works on the syntax tree (or the stripped Cython source) directly"""

    def __init__(self, prop, name, fn, args=(), tier="quick", **opts):
        self.prop, self.name, self.fn, self.args, self.tier, self.opts = prop, name, fn, args, tier, opts

    def run(self):
        recs, visited, t0 = [], set(), time.time()

        def rec(status, label, detail="", loc="", rule=None):
            recs.append({"status": status, "label": label, "detail": detail, "loc": loc, "case": self.name, "rule": rule, "path": [], "subst": {}})

        def late(signum, frame):
            raise HardTimeout()
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.opts.get("timeout", 240))
        try:
            self.fn(rec, visited, *self.args)
        except HardTimeout:
            rec("undet", "time", "time limit")
        except Unsupported as e:
            rec("undet", "analysis", str(e))
        except MissingAnchor as e:
            rec("anchor", "anchor", f"{e} not found")
        except Exception as e:
            rec("internal", "internal", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return recs, {"partitions": 1, "visited": sorted(visited), "case": self.name, "time": time.time() - t0}
