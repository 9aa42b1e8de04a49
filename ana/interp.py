"""Abstract interpreter over the Python syntax trees of the repository.

Nothing of the repository is imported or executed: modules are parsed, and
statements are interpreted over the abstract values of ``values``/``net``.
Sizes, ranks, seeds, entries stay symbolic; branches on undecided conditions
are partitioned (both sides analysed); loops over symbolic ranges are analysed
once for a generic index.
"""
from __future__ import annotations

import ast
import os
from fractions import Fraction

import net as N
import poly as P
from net import Leg, Net, NonTermination, ShapeError, Unsupported
from poly import Poly
from values import *


class Decider:
    """trace partitioning: answers undecided conditions from a script"""

    def __init__(self, script=()):
        self.script = list(script)
        self.taken = []           # (key, value, desc)
        self.memo = {}
        self.pos = 0
        self.substs = []          # alternatives requiring a substitution

    def decide(self, ub):
        key = ub.key
        if key in self.memo:
            v = self.memo[key]
        else:
            if self.pos < len(self.script):
                v = self.script[self.pos]
            else:
                v = False if ub.eq is not None else True
            self.pos += 1
            self.memo[key] = v
            self.taken.append((key, v, ub.desc, ub.eq))
            if ub.data is not None:
                P.CTX.data.append(ub.data + (v,))
            if ub.eq is not None:
                if not v:
                    p = ub.eq
                    if isinstance(p, Poly):
                        P.CTX.ne.add(p.key)
                        if P.nonneg(p):
                            P.add_fact(P.padd(p, -1))
                        elif P.nonneg(P.pneg(p)):
                            P.add_fact(P.psub(-1, p))
                else:
                    P.add_fact(ub.eq)
                    P.add_fact(P.pneg(ub.eq))
            f = ub.apply_true if v else ub.apply_false
            if f:
                f()
        return (not v) if ub.neg else v


def overwritten_names(body):
    """names that a loop body assigns unconditionally before it can read them"""
    done, read = set(), set()

    def loads(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id not in done:
                read.add(x.id)

    def stores(t):
        if isinstance(t, ast.Name):
            if t.id not in read:
                done.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                stores(e.value if isinstance(e, ast.Starred) else e)
        else:
            loads(t)

    def block(b):
        for st in b:
            if isinstance(st, ast.Assign):
                loads(st.value)
                for t in st.targets:
                    stores(t)
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    loads(st.value)
                    stores(st.target)
            elif isinstance(st, ast.AugAssign):
                loads(st.value)
                if isinstance(st.target, ast.Name):
                    if st.target.id not in done:
                        read.add(st.target.id)
                else:
                    loads(st.target)
            elif isinstance(st, ast.With):
                for i in st.items:
                    loads(i.context_expr)
                    if i.optional_vars is not None:
                        stores(i.optional_vars)
                block(st.body)
            else:
                loads(st)
    block(body)
    return done - read


class Scope:
    __slots__ = ("vars", "parent", "globals", "locals", "func", "cls", "gl", "nl", "deleted")

    def __init__(self, parent, globs, localnames=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals = globs
        self.locals = localnames
        self.func = func
        self.gl = set()
        self.nl = set()


class Frame:
    __slots__ = ("func", "scope", "file", "line", "qual", "loops", "cls")

    def __init__(self, func, scope, file, qual):
        self.func, self.scope, self.file, self.qual = func, scope, file, qual
        self.line = 0
        self.loops = []
        self.cls = None


def local_names(node):
    """names assigned in a function body (not in nested functions)"""
    names = set()
    glob, nonl = set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehension binds outside
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            # first iterable is evaluated outside
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in node.body if isinstance(node.body, list) else [node.body]:
        walk(s)
    return names - glob - nonl, glob, nonl


def has_yield(node):
    def walk(n, top):
        if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                                      ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, ast.GeneratorExp):
            return False
        return any(walk(c, False) for c in ast.iter_child_nodes(n))

    return any(walk(s, False) for s in node.body)


class LoopCtx:
    """one generic loop being analysed"""

    def __init__(self, leg):
        self.leg = leg
        self.journal = []      # undo closures
        self.written = []      # (arr, op)
        self.created_after = None


MAXDEPTH = 120


class Interp:
    def __init__(self, repo, package="tt_sketch"):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.frames = []
        self.decider = Decider()
        self.events = []
        self.visited = set()
        self.calls = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.loops = []
        self.clock = 0
        self.overrides = {}       # qualified function name -> native replacement
        import libmodel
        self.lib = libmodel.Lib(self)

    # ------------------------------------------------------------ locations
    def loc(self):
        for f in reversed(self.frames):
            if f.file and not f.file.startswith("<"):
                return f"{f.file}:{f.line} ({f.qual})"
        return "<spec>"

    def stack(self):
        return [f"{f.file}:{f.line} ({f.qual})" for f in self.frames
                if f.file and not f.file.startswith("<")]

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["loc"] = self.loc()
        kw["stack"] = self.stack()
        self.events.append(kw)

    # ------------------------------------------------------------ exceptions
    def throw(self, py, msg=""):
        e = ExcInst(ExcClass(py), (msg,))
        e.loc = self.loc()
        raise PyRaise(e, self.loc(), self.stack())

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py")
        if os.path.exists(base + ".py"):
            return base + ".py"
        if os.path.exists(base + ".pyx"):
            return base + ".pyx"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.lib.module(name)
        if m is not None:
            self.modules[name] = m
            return m
        par = None
        if "." in name:   # parents first; they may import this module
            par = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = self.module_path(name)
        if path is None:
            raise_ = ExcInst(ExcClass(ModuleNotFoundError), (name,))
            raise PyRaise(raise_, self.loc(), self.stack())
        mod = NativeMod(name, {})
        mod.path = path
        mod.repo = True
        self.modules[name] = mod
        if path.endswith(".pyx"):
            mod.ns.update(self.lib.pyx_module(name))
            return mod
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        scope = Scope(None, mod.ns)
        scope.vars = mod.ns
        mod.ns["__name__"] = name
        mod.ns["__file__"] = path
        fr = Frame(None, scope, os.path.relpath(path, self.repo), "<module>")
        self.frames.append(fr)
        try:
            for _ in self.exec_block(tree.body, fr, mod):
                raise Unsupported("yield at module level")
        finally:
            self.frames.pop()
        if par is not None:
            par.ns[name.rsplit(".", 1)[1]] = mod
        return mod

    def load_source(self, name, src):
        """a client module given as text (part of a scenario, not of the repository)"""
        mod = NativeMod(name, {})
        mod.path = name + ".py"
        self.modules[name] = mod
        scope = Scope(None, mod.ns)
        scope.vars = mod.ns
        mod.ns["__name__"] = name
        fr = Frame(None, scope, "<client>", "<module>")
        self.frames.append(fr)
        try:
            for _ in self.exec_block(ast.parse(src).body, fr, mod):
                raise Unsupported("yield at module level")
        finally:
            self.frames.pop()
        return mod.ns

    # ------------------------------------------------------------ statements
    def loop_state(self, fr):
        """the local variables as a comparable value; None if there are any whose state cannot be seen"""
        def enc(v, depth=0):
            if depth > 6:
                raise KeyError
            if v is None or isinstance(v, (bool, int, float, str, bytes, Fraction)):
                return (type(v).__name__, v)
            if isinstance(v, Poly):
                return ("poly", v)
            if isinstance(v, tuple):
                return ("t",) + tuple(enc(x, depth + 1) for x in v)
            if isinstance(v, ListObj):
                return ("l",) + tuple(enc(x, depth + 1) for x in v.items)
            if isinstance(v, slice):
                return ("s", enc(v.start), enc(v.stop), enc(v.step))
            raise KeyError
        try:
            return tuple((k, enc(v)) for k, v in sorted(fr.scope.vars.items()) if not callable(v) and not isinstance(v, FuncObj))
        except (KeyError, TypeError):
            return None

    def exec_block(self, stmts, fr, mod):
        for s in stmts:
            r = yield from self.exec_stmt(s, fr, mod)
            if r is not None:
                return r
        return None

    def exec_stmt(self, s, fr, mod):
        fr.line = s.lineno
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        t = type(s)
        if t is ast.Expr:
            v = s.value
            if isinstance(v, ast.Yield):
                yield (self.ev(v.value, fr) if v.value else None)
                return None
            if isinstance(v, ast.YieldFrom):
                for x in self.iterate(self.ev(v.value, fr)):
                    yield x
                return None
            if isinstance(v, ast.Constant):
                return None
            self.ev(v, fr)
            return None
        if t is ast.Assign:
            if isinstance(s.value, ast.Yield):
                yield (self.ev(s.value.value, fr) if s.value.value else None)
                v = None
            else:
                v = self.ev(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
            return None
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
            if isinstance(s.target, ast.Name) and fr.cls is not None:
                fr.cls.append((s.target.id, s.value is not None,
                               ast.unparse(s.annotation)))
            return None
        if t is ast.AugAssign:
            self.augassign(s, fr)
            return None
        if t is ast.Return:
            return ("return", self.ev(s.value, fr) if s.value else None)
        if t is ast.If:
            c = self.truth(self.ev(s.test, fr))
            return (yield from self.exec_block(s.body if c else s.orelse, fr, mod))
        if t is ast.For:
            return (yield from self.exec_for(s, fr, mod))
        if t is ast.While:
            n = 0
            while self.truth(self.ev(s.test, fr)):
                n += 1
                if n > 3000:
                    raise Unsupported("while loop bound")
                if n >= 60:
                    st = self.loop_state(fr)
                    if n == 60:
                        seen, back = [], 0
                    if st is None:
                        seen = None
                    elif seen is not None:
                        if st in seen:
                            raise NonTermination(f"the loop in line {s.lineno} of {fr.qual} does not end: it is back in the state of iteration {60 + seen.index(st)} after {n} iterations")
                        if len(seen) < 200:
                            seen.append(st)
                r = yield from self.exec_block(s.body, fr, mod)
                if r == "break":
                    return None
                if isinstance(r, tuple):
                    return r
                fr.line = s.lineno
            else:
                return (yield from self.exec_block(s.orelse, fr, mod))
        if t is ast.Break:
            return "break"
        if t is ast.Continue:
            return "continue"
        if t is ast.Pass:
            return None
        if t is ast.FunctionDef:
            f = self.make_func(s, fr, mod)
            for d in reversed(s.decorator_list):
                f = self.call(self.ev(d, fr), [f], {})
            self.store(s.name, f, fr)
            return None
        if t is ast.ClassDef:
            c = self.make_class(s, fr, mod)
            for d in reversed(s.decorator_list):
                c = self.call(self.ev(d, fr), [c], {})
            self.store(s.name, c, fr)
            return None
        if t is ast.Import:
            for a in s.names:
                m = self.load(a.name)
                if a.asname:
                    self.store(a.asname, m, fr)
                else:
                    self.store(a.name.split(".")[0], self.load(a.name.split(".")[0]), fr)
            return None
        if t is ast.ImportFrom:
            self.import_from(s, fr, mod)
            return None
        if t is ast.Raise:
            self.do_raise(s, fr)
        if t is ast.Try:
            return (yield from self.exec_try(s, fr, mod))
        if t is ast.With:
            return (yield from self.exec_with(s, fr, mod))
        if t is ast.Assert:
            v = self.ev(s.test, fr)
            if isinstance(v, UnknownBool):
                return None
            try:
                ok = self.truth(v)
            except Unsupported:
                return None
            if not ok:
                self.throw(AssertionError, "assertion")
            return None
        if t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
            return None
        if t is ast.Global:
            fr.scope.gl.update(s.names)
            return None
        if t is ast.Nonlocal:
            fr.scope.nl.update(s.names)
            return None
        if t is ast.Match:
            subj = self.ev(s.subject, fr)
            for case in s.cases:
                if self.match(case.pattern, subj, fr) and (
                        case.guard is None or self.truth(self.ev(case.guard, fr))):
                    return (yield from self.exec_block(case.body, fr, mod))
            return None
        raise Unsupported(f"statement {t.__name__}")

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance_(v, self.ev(p.cls, fr)))
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, ListObj):
                items = v.items
            elif isinstance(v, tuple):
                items = list(v)
            else:
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("star pattern")
            return len(items) == len(p.patterns) and all(
                self.match(q, x, fr) for q, x in zip(p.patterns, items))
        raise Unsupported("match pattern")

    def import_from(self, s, fr, mod):
        name = s.module or ""
        if s.level:
            base = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.store(k, v, fr)
                continue
            v = self.getattr_mod(m, a.name, importing=True)
            self.store(a.asname or a.name, v, fr)

    def do_raise(self, s, fr):
        if s.exc is None:
            cur = self.current_exc[-1] if getattr(self, "current_exc", None) else None
            if cur is None:
                self.throw(RuntimeError, "No active exception to reraise")
            raise cur
        e = self.ev(s.exc, fr)
        if isinstance(e, (ExcClass, ClassObj)):
            e = self.call(e, [], {})
        if not isinstance(e, ExcInst):
            if isinstance(e, NativeObj) and e.kind == "warning":
                self.throw(UserWarning, "warning")
            self.throw(TypeError, "exceptions must derive from BaseException")
        e.loc = self.loc()
        raise PyRaise(e, self.loc(), self.stack())

    def exc_matches(self, exc, types):
        if isinstance(types, tuple):
            return any(self.exc_matches(exc, t) for t in types)
        if isinstance(types, ExcClass):
            c = exc.cls
            if isinstance(c, ExcClass):
                return issubclass(c.py, types.py)
            return any(isinstance(b, ExcClass) and issubclass(b.py, types.py)
                       for b in self.mro(c))
        if isinstance(types, ClassObj):
            return isinstance(exc.cls, ClassObj) and types in self.mro(exc.cls)
        raise Unsupported("except type")

    def exec_try(self, s, fr, mod):
        r = None
        pend = None
        nframes = len(self.frames)
        try:
            r = yield from self.exec_block(s.body, fr, mod)
        except PyRaise as e:
            del self.frames[nframes:]
            handled = False
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.exc, self.ev(h.type, fr)):
                    handled = True
                    if h.name:
                        self.store(h.name, e.exc, fr)
                    if not hasattr(self, "current_exc"):
                        self.current_exc = []
                    self.current_exc.append(e)
                    try:
                        r = yield from self.exec_block(h.body, fr, mod)
                    except PyRaise as e2:
                        pend = e2
                        del self.frames[nframes:]
                    finally:
                        self.current_exc.pop()
                    break
            if not handled:
                pend = e
        else:
            if r is None and s.orelse:
                try:
                    r = yield from self.exec_block(s.orelse, fr, mod)
                except PyRaise as e2:
                    pend = e2
                    del self.frames[nframes:]
        if s.finalbody:
            r2 = yield from self.exec_block(s.finalbody, fr, mod)
            if r2 is not None:
                return r2
        if pend is not None:
            raise pend
        return r

    def exec_with(self, s, fr, mod):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            v = self.lib.enter(m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        nframes = len(self.frames)
        try:
            r = yield from self.exec_block(s.body, fr, mod)
        except PyRaise as e:
            del self.frames[nframes:]
            for m in reversed(mgrs):
                if self.lib.exit(m, e):
                    return None
            raise
        for m in reversed(mgrs):
            self.lib.exit(m, None)
        return r

    def exec_for(self, s, fr, mod):
        itv = self.ev(s.iter, fr)
        gen = self.generic_of(itv)
        if gen is not None:
            size, mkelem = gen
            yield from self.generic_for(s, fr, mod, size, mkelem)
            return None
        n = 0
        for x in self.iterate(itv):
            n += 1
            if n > 20000:
                raise Unsupported("loop bound")
            self.assign(s.target, x, fr)
            r = yield from self.exec_block(s.body, fr, mod)
            if r == "break":
                return None
            if isinstance(r, tuple):
                return r
            fr.line = s.lineno
        return (yield from self.exec_block(s.orelse, fr, mod))

    # ------------------------------------------------------------ generic loops
    def generic_for(self, s, fr, mod, size, mkelem):
        """a loop over a symbolic number of iterations, analysed once for a
        generic index; writes indexed by the loop become whole-axis writes,
        accumulations become sums over the loop leg"""
        leg = Leg(size, param=True)
        before = dict(fr.scope.vars)
        lc = LoopCtx(leg)
        lc.clock = self.clock
        self.loops.append(lc)
        try:
            self.assign(s.target, mkelem(leg), fr)
            r = yield from self.exec_block(s.body, fr, mod)
        finally:
            self.loops.pop()
        if r is not None and r != "continue":
            raise Unsupported("break/return inside a loop of symbolic length")
        changed = [k for k, v in fr.scope.vars.items()
                   if k in before and before[k] is not v]
        # arrays written in the body that existed before
        arrs = []
        for a, op in lc.written:
            if a not in arrs:
                arrs.append(a)
        other = [a for a in arrs if any(op == "other" for b, op in lc.written if b is a)]
        targets = set(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
        acc_names = []
        temps = overwritten_names(s.body)
        for k in changed:
            if k in targets or k in temps:
                continue
            old, new = before[k], fr.scope.vars[k]
            if isinstance(new, (NDArr, Fraction, int, Poly)) and isinstance(
                    old, (NDArr, Fraction, int, Poly)) and not isinstance(old, bool):
                if self.lib.dep_on_leg(new, leg) or not self.lib.same_value(old, new):
                    acc_names.append(k)
        if other or acc_names:
            # second pass with opaque markers for the accumulators
            for u in reversed(lc.journal):
                u()
            for k in changed:
                fr.scope.vars[k] = before[k]
            marks = {}
            lc2 = LoopCtx(leg)
            lc2.clock = lc.clock
            for a in other:
                old = a.net
                m = N.atom_net(("mark", id(a)), old.shape)
                marks[id(a)] = (a, old, m)
                a._net = m
                a.version += 1
            nm = {}
            for k in acc_names:
                old = before[k]
                on = self.lib.tonet(old)
                shp = on.shape
                newv = self.lib.tonet_first(lc, k)
                m = N.atom_net(("mark", k), shp)
                nm[k] = (on, m)
                fr.scope.vars[k] = NDArr(m, origin=self.loc())
            self.loops.append(lc2)
            try:
                self.assign(s.target, mkelem(leg), fr)
                r = yield from self.exec_block(s.body, fr, mod)
            finally:
                self.loops.pop()
            for a, old, m in marks.values():
                a._net = self._accumulate(old, m, a.net, leg)
                a.version += 1
            for k, (on, m) in nm.items():
                v = fr.scope.vars[k]
                fr.scope.vars[k] = NDArr(
                    self._accumulate(on, m, self.lib.tonet(v), leg), origin=self.loc())
            lc = lc2
        # finish generic writes
        for a in {id(x): x for x, op in lc.written if op == "gen"}.values():
            self.lib.finish_generic(a, leg)
        for k in list(fr.scope.vars):
            if k in targets or (k not in before):
                fr.scope.vars.setdefault(k, None)
        return None

    def _accumulate(self, old, mark, new, leg):
        head = mark.terms[0][1][0][0]

        def hasmark(net):
            return any(h == head for c, at in net.terms for h, _ in at) or any(
                N.net_mentions(h, head) for c, at in net.terms for h, _ in at)

        delta = N.sub(new, mark)
        if hasmark(delta):
            raise Unsupported("loop-carried value is not a plain accumulation")
        return N.add(old, N.sum_param(delta, leg))

    # ------------------------------------------------------------ functions/classes
    def make_func(self, node, fr, mod, cls=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        name = getattr(node, "name", "<lambda>")
        qual = name
        if fr.qual != "<module>":
            qual = f"{fr.qual}.{name}"
        f = FuncObj(node, fr.scope, name, mod, qual, defaults, kwd)
        f.file = fr.file
        if isinstance(node, ast.FunctionDef):
            f.locals_, f.gl, f.nl = local_names(node)
            f.isgen = has_yield(node)
        else:
            f.locals_, f.gl, f.nl = set(), set(), set()
            f.isgen = False
        f.owner = None
        return f

    def make_class(self, node, fr, mod):
        bases = [self.ev(b, fr) for b in node.bases]
        scope = Scope(fr.scope, fr.scope.globals)
        q = node.name if fr.qual == "<module>" else f"{fr.qual}.{node.name}"
        cfr = Frame(None, scope, fr.file, q)
        cfr.cls = []
        cfr.line = node.lineno
        self.frames.append(cfr)
        try:
            for _ in self.exec_block(node.body, cfr, mod):
                raise Unsupported("yield in class body")
        finally:
            self.frames.pop()
        c = ClassObj(node.name, bases, scope.vars, mod, q)
        c.node = node
        c.annotations = cfr.cls
        self.mro(c)
        for v in scope.vars.values():
            g = v
            if isinstance(g, (StaticMethod, ClassMethod)):
                g = g.f
            if isinstance(g, PropertyObj):
                for h in (g.fget, g.fset):
                    if isinstance(h, FuncObj):
                        h.owner = c
                continue
            if isinstance(g, FuncObj) and g.owner is None:
                g.owner = c
        if any(isinstance(b, BuiltinType) and b.name in ("Enum", "IntEnum", "StrEnum", "Flag")
               or isinstance(b, ClassObj) and b.is_enum for b in bases):
            c.is_enum = True
            for k, v in list(scope.vars.items()):
                if k.startswith("_") or isinstance(v, (FuncObj, PropertyObj, StaticMethod, ClassMethod)):
                    continue
                m = InstObj(c)
                if isinstance(v, NativeObj) and v.kind == "enum_auto":
                    v = len(c.members) + 1
                m.attrs.update({"name": k, "value": v, "_value_": v, "_name_": k})
                for k2, m2 in c.members.items():
                    if self.lib.same_value(m2.attrs["value"], v):
                        m = m2
                c.members[k] = m
                c.ns[k] = m
        return c

    def mro(self, c):
        if not isinstance(c, ClassObj):
            return [c]
        if c.mro is not None:
            return c.mro
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.throw(TypeError, "Cannot create a consistent method resolution order")
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]
        c.mro = out
        return out

    def class_lookup(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassObj):
                if name in k.ns:
                    return k.ns[name], k
            elif isinstance(k, BuiltinType) and name in k.ns:
                return k.ns[name], k
        return None, None

    def abstract_methods(self, c):
        out = []
        seen = set()
        for k in self.mro(c):
            if not isinstance(k, ClassObj):
                continue
            for n, v in k.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                g = v.f if isinstance(v, (StaticMethod, ClassMethod)) else v
                if getattr(g, "abstract", False):
                    out.append(n)
        has_abc = any(isinstance(k, BuiltinType) and k.name == "ABC" for k in self.mro(c))
        return out if has_abc else []

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, NativeFn):
            return f.fn(args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, FuncObj):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ExcInst(f, tuple(args))
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, BuiltinType):
            if f.ctor is None:
                raise Unsupported(f"call of type {f.name}")
            return f.ctor(args, kw)
        if isinstance(f, InstObj):
            m, _ = self.class_lookup(f.cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
            self.throw(TypeError, f"'{f.cls.name}' object is not callable")
        if isinstance(f, NativeObj):
            return self.lib.call_obj(f, args, kw)
        if isinstance(f, TypingVal):
            return TypingVal(f.name)
        if isinstance(f, StaticMethod):
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, (int, Poly, Fraction, str, tuple, ListObj, NDArr, DictObj)):
            self.throw(TypeError, f"'{self.lib.typename(f)}' object is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos) and not a.vararg:
            self.throw(TypeError, f"{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        npo = {x.arg for x in a.posonlyargs}
        extra = {}
        names = set(pos) - npo | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    self.throw(TypeError, f"{f.qual}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw(TypeError, f"{f.qual}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.throw(TypeError, f"{f.qual}() missing required argument '{n}'")
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults:
                    out[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.throw(TypeError, f"{f.qual}() missing required keyword-only argument '{x.arg}'")
        if a.kwarg:
            out[a.kwarg.arg] = DictObj({hkey(k): (k, v) for k, v in extra.items()})
        return out

    def call_func(self, f, args, kw):
        key = f"{f.module.name if f.module else ''}.{f.owner.name + '.' if f.owner else ''}{f.name}"
        if key in self.overrides:
            return self.overrides[key](args, kw)
        if f.memo is not None:
            import copy
            g = copy.copy(f)
            g.memo = None
            return f.memo(list(args), dict(kw), lambda: self.call_func(g, args, kw))
        if len(self.frames) > MAXDEPTH:
            self.throw(RecursionError, "maximum recursion depth exceeded")
        self.calls += 1
        self.visited.add(f"{f.file}:{f.owner.name + '.' if f.owner else ''}{f.name}")
        env = self.bind_args(f, args, kw)
        scope = Scope(f.scope if not self._is_class_scope(f) else f.scope, f.scope.globals,
                      f.locals_, f)
        scope.vars.update(env)
        fr = Frame(f, scope, f.file, f.qual)
        if isinstance(f.node, ast.Lambda):
            fr.line = f.node.lineno
            self.frames.append(fr)
            n = len(self.frames)
            try:
                v = self.ev(f.node.body, fr)
            finally:
                del self.frames[n - 1:]
            return v
        fr.line = f.node.lineno
        if f.isgen:
            return GenObj(self._gen(f, fr), self, f.qual)
        self.frames.append(fr)
        n = len(self.frames)
        try:
            r = None
            g = self.exec_block(f.node.body, fr, f.module)
            try:
                next(g)
                raise Unsupported("unexpected yield")
            except StopIteration as e:
                r = e.value
        finally:
            del self.frames[n - 1:]
        if isinstance(r, tuple) and r[0] == "return":
            return r[1]
        return None

    def _is_class_scope(self, f):
        return f.owner is not None

    def _gen(self, f, fr):
        g = self.exec_block(f.node.body, fr, f.module)
        while True:
            self.frames.append(fr)
            n = len(self.frames)
            try:
                try:
                    v = next(g)
                except StopIteration as e:
                    return e.value[1] if isinstance(e.value, tuple) else None
            finally:
                del self.frames[n - 1:]
            yield v

    def gen_next(self, g):
        """next() of a GenObj; raises StopIteration"""
        return next(g.gen)

    def instantiate(self, c, args, kw):
        if c.is_enum:
            for m in c.members.values():
                if self.lib.same_value(m.attrs["value"], args[0]):
                    return m
            self.throw(ValueError, f"not a valid {c.name}")
        ab = self.abstract_methods(c)
        if ab:
            self.throw(TypeError, f"Can't instantiate abstract class {c.name} with abstract methods {', '.join(ab)}")
        for k in self.mro(c):
            if isinstance(k, ExcClass):
                e = ExcInst(c, tuple(args))
                init, _ = self.class_lookup(c, "__init__")
                if init is not None:
                    self.call(BoundMethod(e, init), args, kw)
                return e
        new, own = self.class_lookup(c, "__new__")
        if new is not None:
            raise Unsupported("__new__")
        o = InstObj(c)
        init, own = self.class_lookup(c, "__init__")
        if init is not None:
            self.call(self.bind(init, o), args, kw)
        elif self.dc_fields(c) is not None:
            self.dc_init(o, args, kw)
        elif any(isinstance(k, BuiltinType) and k.name == "NamedTuple" for k in self.mro(c)):
            raise Unsupported("NamedTuple")
        elif args or kw:
            self.throw(TypeError, f"{c.name}() takes no arguments")
        return o

    def dc_fields(self, c):
        out = None
        for k in reversed(self.mro(c)):
            if isinstance(k, ClassObj) and k.fields is not None:
                out = out or {}
                for n, d in k.fields:
                    out[n] = d
        if out is None:
            return None
        return list(out.items())

    def dc_init(self, o, args, kw):
        fields = self.dc_fields(o.cls)
        kw = dict(kw)
        # __init__ defined by the most derived dataclass in the mro
        if len(args) > len(fields):
            self.throw(TypeError, f"{o.cls.name}.__init__() takes {len(fields) + 1} positional arguments but {len(args) + 1} were given")
        for i, (n, d) in enumerate(fields):
            if i < len(args):
                if n in kw:
                    self.throw(TypeError, f"{o.cls.name}.__init__() got multiple values for argument '{n}'")
                v = args[i]
            elif n in kw:
                v = kw.pop(n)
            elif d is not None:
                v = d[0]
                if isinstance(v, NativeObj) and v.kind == "dc_field":
                    if v.factory is not None:
                        v = self.call(v.factory, [], {})
                    elif v.has_default:
                        v = v.default
                    else:
                        self.throw(TypeError, f"missing argument '{n}'")
            else:
                self.throw(TypeError, f"{o.cls.name}.__init__() missing required argument '{n}'")
            o.attrs[n] = v
        if kw:
            self.throw(TypeError, f"{o.cls.name}.__init__() got an unexpected keyword argument '{next(iter(kw))}'")
        pi, _ = self.class_lookup(o.cls, "__post_init__")
        if pi is not None:
            self.call(self.bind(pi, o), [], {})

    def bind(self, v, obj, cls=None):
        if isinstance(v, FuncObj):
            return BoundMethod(obj, v)
        if isinstance(v, ClassMethod):
            return BoundMethod(cls or obj.cls, v.f)
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, NativeFn) and getattr(v, "method", False):
            return BoundMethod(obj, v)
        return v

    # ------------------------------------------------------------ attributes
    def getattr_mod(self, m, name, importing=False):
        if name in m.ns:
            return m.ns[name]
        if getattr(m, "repo", False):
            sub = self.module_path(m.name + "." + name)
            if sub is not None and (importing or m.name + "." + name in self.modules):
                return self.load(m.name + "." + name)
            if importing:
                self.throw(ImportError, f"cannot import name '{name}' from '{m.name}'")
            self.throw(AttributeError, f"module '{m.name}' has no attribute '{name}'")
        sub = self.lib.module(m.name + "." + name)
        if sub is not None:
            m.ns[name] = sub
            return sub
        if self.lib.known(m.name, name):
            def bad(args, kw, q=f"{m.name}.{name}"):
                raise Unsupported(f"library function {q}")
            return NativeFn(f"{m.name}.{name}", bad)
        if importing:
            self.throw(ImportError, f"cannot import name '{name}' from '{m.name}'")
        self.throw(AttributeError, f"module '{m.name}' has no attribute '{name}'")

    def getattr(self, o, name):
        if isinstance(o, InstObj):
            v, own = self.class_lookup(o.cls, name)
            if isinstance(v, PropertyObj):
                if v.cached:
                    if name in o.attrs:
                        return o.attrs[name]
                    r = self.call(v.fget, [o], {})
                    o.attrs[name] = r
                    return r
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if own is not None:
                return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return AttrDict(o, lambda n: self.event("mutation", label=o.frozen, what=f"attribute {n}")
                                if o.frozen and self.observable(o, n) else None)
            ga, _ = self.class_lookup(o.cls, "__getattr__")
            if ga is not None:
                return self.call(BoundMethod(o, ga), [name], {})
            r = self.lib.object_attr(o, name)
            if r is not None:
                return r
            self.throw(AttributeError, f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, ClassObj):
            v, own = self.class_lookup(o, name)
            if own is not None:
                if isinstance(v, ClassMethod):
                    return BoundMethod(o, v.f)
                if isinstance(v, StaticMethod):
                    return v.f
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(self.mro(o))
            if name == "__members__" and o.is_enum:
                return DictObj({hkey(k): (k, m) for k, m in o.members.items()})
            if name == "__doc__" or name == "__module__":
                return o.module.name if name == "__module__" else None
            self.throw(AttributeError, f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, NativeMod):
            return self.getattr_mod(o, name)
        if isinstance(o, SuperObj):
            mro = self.mro(o.obj.cls if isinstance(o.obj, (InstObj, ExcInst)) else o.obj)
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if isinstance(k, ClassObj) and name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, PropertyObj):
                        return self.call(v.fget, [o.obj], {})
                    if isinstance(v, ClassMethod):
                        return BoundMethod(o.obj if isinstance(o.obj, ClassObj) else o.obj.cls, v.f)
                    return self.bind(v, o.obj) if isinstance(o.obj, (InstObj, ExcInst)) else v
                if isinstance(k, ClassObj) and name == "__init__" and k.fields is not None:
                    return NativeFn("dc_init", lambda a, kw: self.dc_init(o.obj, a, kw))
            if name == "__init__":
                return NativeFn("object.__init__", lambda a, kw: None)
            if name == "__init_subclass__":
                return NativeFn("object.__init_subclass__", lambda a, kw: None)
            if name == "__repr__":
                return NativeFn("object.__repr__", lambda a, kw: "<object>")
            self.throw(AttributeError, f"'super' object has no attribute '{name}'")
        if isinstance(o, FuncObj):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name if name == "__name__" else o.qual
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                self.throw(AttributeError, name)
            if name == "__module__":
                return o.module.name
            raise Unsupported(f"function attribute {name}")
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            if name in ("__name__", "__qualname__"):
                return self.getattr(o.func, name)
            return self.lib.method_attr(o, name)
        if isinstance(o, ExcInst):
            if name == "args":
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassObj):
                v, own = self.class_lookup(o.cls, name)
                if own is not None:
                    return BoundMethod(o, v) if isinstance(v, FuncObj) else v
            if name == "value":
                return o.args[0] if o.args else None
            raise Unsupported(f"exception attribute {name}")
        return self.lib.getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, InstObj):
            pv, _ = self.class_lookup(o.cls, name)
            if isinstance(pv, PropertyObj) and not pv.cached:
                if pv.fset is None:
                    self.throw(AttributeError, f"can't set attribute '{name}'")
                self.call(pv.fset, [o, v], {})
                return
            if o.frozen and self.observable(o, name) and not (name in o.attrs and o.attrs[name] is v):
                self.event("mutation", label=o.frozen, what=f"attribute {name}")
            old = o.attrs.get(name, o)
            self.journal(lambda: o.attrs.__setitem__(name, old) if old is not o
                         else o.attrs.pop(name, None))
            o.attrs[name] = v
            return
        if isinstance(o, ClassObj):
            o.ns[name] = v
            return
        if isinstance(o, FuncObj):
            o.attrs[name] = v
            return
        if isinstance(o, ExcInst):
            o.attrs[name] = v
            return
        self.lib.setattr(o, name, v)

    def observable(self, o, name):
        """private attributes and attributes added since the object was marked are caches, not observable state
        (what they hold is judged by C33)"""
        return not name.startswith("_") and name in getattr(o, "marked", o.attrs)

    def journal(self, undo):
        for l in self.loops:
            l.journal.append(undo)

    # ------------------------------------------------------------ names
    def load_name(self, name, fr):
        sc = fr.scope
        if sc.locals is not None and name in sc.locals and name not in sc.gl and name not in sc.nl:
            if name in sc.vars:
                return sc.vars[name]
            self.throw(UnboundLocalError, f"cannot access local variable '{name}'")
        if name not in sc.gl:
            s = sc
            first = True
            while s is not None:
                if (first or not self._scope_is_class(s)) and name in s.vars:
                    return s.vars[name]
                if not first and s.locals is not None and name in s.locals and name not in s.gl and name not in s.nl:
                    self.throw(NameError, f"free variable '{name}' referenced before assignment")
                first = False
                s = s.parent
        if name in sc.globals:
            return sc.globals[name]
        b = self.lib.builtins.get(name, self)
        if b is not self:
            return b
        if name == "__class__" and fr.func is not None and fr.func.owner is not None:
            return fr.func.owner
        self.throw(NameError, f"name '{name}' is not defined")

    def _scope_is_class(self, s):
        return s.locals is None and s.vars is not s.globals and s.func is None \
            and not getattr(s, "comp", False)

    def store(self, name, v, fr):
        sc = fr.scope
        if name in sc.gl:
            sc.globals[name] = v
            return
        if name in sc.nl:
            s = sc.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
        sc.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        items = list(self.iterate(v, limit=len(elts) + 2000))
        st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if st:
            i = st[0]
            k = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.throw(ValueError, "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, ListObj(items[i:len(items) - k]), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - k:]):
                self.assign(e, x, fr)
            return
        if len(items) != len(elts):
            self.throw(ValueError, f"cannot unpack {len(items)} values into {len(elts)}")
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def augassign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            v = self.ev(s.value, fr)
            self.store(t.id, self.lib.inplace(op, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, fr)
            r = self.lib.inplace(op, cur, v)
            if r is not cur:
                self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.lib.getitem(o, idx)
            v = self.ev(s.value, fr)
            r = self.lib.inplace(op, cur, v)
            self.lib.setitem(o, idx, r, aug=(cur is r))
        else:
            raise Unsupported("augmented assignment target")

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            if t.id not in fr.scope.vars:
                self.throw(UnboundLocalError, t.id)
            del fr.scope.vars[t.id]
        elif isinstance(t, ast.Subscript):
            self.lib.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, InstObj):
                if t.attr not in o.attrs:
                    self.throw(AttributeError, t.attr)
                if o.frozen and self.observable(o, t.attr):
                    self.event("mutation", label=o.frozen, what=f"attribute {t.attr}")
                del o.attrs[t.attr]
            else:
                raise Unsupported("del attribute")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        if hasattr(e, "lineno"):
            fr.line = e.lineno
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else v
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            raise Unsupported("complex")
        return v

    def ev_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def ev_List(self, e, fr):
        return ListObj(self._elts(e.elts, fr))

    def ev_Set(self, e, fr):
        return SetObj(self._elts(e.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, e, fr):
        d = DictObj()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                d.d.update(o.d)
            else:
                kk = self.ev(k, fr)
                d.d[hkey(kk)] = (kk, self.ev(v, fr))
        return d

    def ev_BinOp(self, e, fr):
        return self.lib.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        t = type(e.op).__name__
        if t == "Not":
            if isinstance(v, UnknownBool):
                return v.negate()
            return not self.truth(v)
        return self.lib.unop(t, v)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(v, UnknownBool):
                v = t
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        return self.lib.compare(op, a, b)

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if isinstance(f, NativeFn) and f.name == "super" and not e.args:
            cls = fr.func.owner if fr.func else None
            sc = fr.scope
            fn = fr.func
            while cls is None and sc is not None:
                sc = sc.parent
                fn = sc.func if sc is not None else None
                cls = fn.owner if fn is not None else None
            first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
            return SuperObj(cls, (sc or fr.scope).vars[first])
        if isinstance(f, NativeFn) and f.name in ("locals", "globals", "vars", "eval", "exec"):
            raise Unsupported(f.name)
        args = self._elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, fr)
                if not isinstance(o, DictObj):
                    raise Unsupported("** of non-dict")
                for kk, v in o.d.values():
                    kw[kk] = v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        line = fr.line
        fr.line = e.lineno
        r = self.call(f, args, kw)
        return r

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.lib.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        return self.ev(s, fr)

    def ev_Slice(self, e, fr):
        return SliceObj(self.ev(e.lower, fr) if e.lower else None,
                        self.ev(e.upper, fr) if e.upper else None,
                        self.ev(e.step, fr) if e.step else None)

    def ev_Starred(self, e, fr):
        raise Unsupported("starred")

    def ev_Lambda(self, e, fr):
        return self.make_func(e, fr, fr.func.module if fr.func else None)

    def ev_JoinedStr(self, e, fr):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, fr)
                out += self.lib.to_str(x)
        return out

    def ev_FormattedValue(self, e, fr):
        return self.lib.to_str(self.ev(e.value, fr))

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        sc = fr.scope
        while getattr(sc, "func", None) == "comp":
            sc = sc.parent
        sc.vars[e.target.id] = v
        return v

    # comprehensions
    def _comp(self, gens, fr, emit):
        """run nested generators; emit(frame) for each element. Generic
        (symbolic length) single generators are reported via exception."""
        sc = Scope(fr.scope, fr.scope.globals, None, "comp")
        cf = Frame(fr.func, sc, fr.file, fr.qual)
        cf.line = fr.line
        self.frames.append(cf)
        n = len(self.frames)

        def rec(i):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            itv = self.ev(g.iter, cf if i else fr)
            gen = self.generic_of(itv)
            if gen is not None:
                raise Unsupported("nested comprehension over symbolic range")
            for x in self.iterate(itv):
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    rec(i + 1)

        try:
            rec(0)
        finally:
            del self.frames[n - 1:]

    def _generic_comp(self, e, fr):
        """[elt for x in <symbolic>] -> (leg, value) or None"""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        itv = self.ev(g.iter, fr)
        gen = self.generic_of(itv)
        if gen is None:
            return (None, itv)
        if g.ifs:
            raise Unsupported("filtered comprehension over symbolic range")
        size, mk = gen
        leg = Leg(size, param=True)
        sc = Scope(fr.scope, fr.scope.globals, None, "comp")
        cf = Frame(fr.func, sc, fr.file, fr.qual)
        cf.line = fr.line
        self.frames.append(cf)
        try:
            self.assign(g.target, mk(leg), cf)
            if isinstance(e, ast.DictComp):
                return (leg, (self.ev(e.key, cf), self.ev(e.value, cf)))
            return (leg, self.ev(e.elt, cf))
        finally:
            self.frames.pop()

    def _simple_comp(self, e, fr, itv, emit):
        g = e.generators[0]
        sc = Scope(fr.scope, fr.scope.globals, None, "comp")
        cf = Frame(fr.func, sc, fr.file, fr.qual)
        cf.line = fr.line
        self.frames.append(cf)
        n = len(self.frames)
        try:
            for x in self.iterate(itv):
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    emit(cf)
        finally:
            del self.frames[n - 1:]

    def _listcomp(self, e, fr):
        out = []
        gc = self._generic_comp(e, fr)
        if gc is not None and gc[0] is not None:
            return GenericList(gc[0], gc[1])
        if gc is not None:
            self._simple_comp(e, fr, gc[1], lambda cf: out.append(self.ev(e.elt, cf)))
        else:
            self._comp(e.generators, fr, lambda cf: out.append(self.ev(e.elt, cf)))
        return out

    def ev_ListComp(self, e, fr):
        r = self._listcomp(e, fr)
        return r if isinstance(r, GenericList) else ListObj(r)

    def ev_SetComp(self, e, fr):
        r = self._listcomp(e, fr)
        if isinstance(r, GenericList):
            raise Unsupported("set of symbolic length")
        return SetObj(r)

    def ev_GeneratorExp(self, e, fr):
        # lazily evaluated; the first iterable is evaluated eagerly
        if len(e.generators) == 1:
            g = e.generators[0]
            itv = self.ev(g.iter, fr)
            if self.generic_of(itv) is not None:
                gc = self._generic_comp(e, fr)
                return GenericList(gc[0], gc[1])

            def run():
                sc = Scope(fr.scope, fr.scope.globals, None, "comp")
                cf = Frame(fr.func, sc, fr.file, fr.qual)
                cf.line = fr.line
                for x in self.iterate(itv):
                    self.frames.append(cf)
                    n = len(self.frames)
                    try:
                        self.assign(g.target, x, cf)
                        if not all(self.truth(self.ev(c, cf)) for c in g.ifs):
                            continue
                        v = self.ev(e.elt, cf)
                    finally:
                        del self.frames[n - 1:]
                    yield v

            return GenObj(run(), self, "<genexpr>")
        out = []
        self._comp(e.generators, fr, lambda cf: out.append(self.ev(e.elt, cf)))
        return GenObj(iter(out), self, "<genexpr>")

    def ev_DictComp(self, e, fr):
        gc = self._generic_comp(e, fr)
        if gc is not None and gc[0] is not None:
            return GenDict(gc[0], gc[1][0], gc[1][1])
        d = DictObj()

        def emit(cf):
            k = self.ev(e.key, cf)
            d.d[hkey(k)] = (k, self.ev(e.value, cf))

        if gc is not None:
            self._simple_comp(e, fr, gc[1], emit)
        else:
            self._comp(e.generators, fr, emit)
        return d

    def ev_Yield(self, e, fr):
        raise Unsupported("yield expression")

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v):
        if isinstance(v, UnknownBool):
            txt = f"{v.key} {v.desc}"
            t = set()
            for n, sy in P.CTX.syms.items():
                if sy.taints and n in txt:
                    t |= sy.taints
            if t:
                self.event("tainted_branch", taints=t, desc=v.desc)
            return self.decider.decide(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListObj):
            return len(v.items) > 0
        if isinstance(v, (DictObj, SetObj)):
            return len(v.d) > 0
        if isinstance(v, Poly):
            return self.truth(self.compare("NotEq", v, 0))
        if isinstance(v, InstObj):
            for nm in ("__bool__", "__len__"):
                m, _ = self.class_lookup(v.cls, nm)
                if m is not None:
                    return self.truth(self.call(BoundMethod(v, m), [], {}))
            return True
        return self.lib.truth(v)

    def iterate(self, v, limit=None):
        return self.lib.iterate(v)

    def generic_of(self, v):
        return self.lib.generic_of(v)

    def isinstance_(self, v, t):
        return self.lib.isinstance_(v, t)


def explore(run, max_paths=64):
    """enumerate trace partitions.  ``run(decider) -> result`` is called once
    per partition; yields (decider, result)."""
    stack = [((), {})]
    n = 0
    known = {}
    while stack:
        script, subst = stack.pop()
        n += 1
        if n > max_paths:
            yield None, "path limit"
            return
        d = Decider(script)
        P.reset_ctx()
        P.CTX.subst.update(subst)
        for v in subst.values():
            for x in (v.symbols() if isinstance(v, Poly) else ()):
                if x in known:
                    P.CTX.syms[x] = known[x]
        N.reset()
        d.subst = dict(subst)
        res = run(d)
        yield d, res
        # siblings of the decisions taken beyond the script
        for i in range(len(script), len(d.taken)):
            k, v, desc, eq = d.taken[i]
            pre = tuple(t[1] for t in d.taken[:i])
            if eq is None:
                stack.append((pre + (not v,), subst))
            else:
                s = solve_eq(eq, subst)
                if s is None:
                    stack.append((pre + (True,), subst))
                elif s:
                    ns = {k: replaced(v, s) for k, v in subst.items()}
                    ns.update(s)
                    known.update(P.CTX.syms)
                    # restart with the equality built in
                    stack.append(((), ns))
    return


def replaced(v, s):
    """the value of an earlier case split under a later one"""
    if not isinstance(v, Poly):
        return v
    out = 0
    for m, c in v.t.items():
        t = c
        for n, e in m:
            for _ in range(e):
                t = P.pmul(t, s[n] if n in s else Poly({((n, 1),): 1}))
        out = P.padd(out, t)
    return out


def solve_eq(p, subst):
    """p == 0 -> {symbol: value} for a linear isolated symbol, or None"""
    cands = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            n = m[0][0]
            s = P.CTX.syms[n]
            if not s.base:
                continue
            if any(n in dict(m2) for m2 in p.t if m2 != m):
                continue
            rest = P.mk({m2: c2 for m2, c2 in p.t.items() if m2 != m})
            val = P.pneg(rest) if c == 1 else rest
            cands.append((n, val, s))
    for n, val, s in cands:
        if isinstance(val, int):
            if s.lo is not None and val < s.lo:
                return {}
            return {n: val}
    for n, val, s in cands:
        if isinstance(val, Poly) and len(val.t) == 1:
            return {n: val}
    return None
