"""C32 No execution path uses a name or attribute that does not exist.

Rule: (a) every name read in a function is bound in the function, an enclosing one, its module or the interpreter, and every
imported name exists in the module of the package it is imported from; (b) on every path of a function (loops taken at least once,
conditions followed along the path) a local name is assigned before it is read; (c) every attribute read on self, on a class of the
package or on a value whose class is known from an annotation or its construction exists in that class, its ancestors or (for a
declared type) its descendants; (d) every call of a function, method or constructor of the package fits its parameters;
(e) the public entry points interpreted with every combination of options and formats raise no NameError or AttributeError."""
import ast
import builtins
import itertools
import os
import symtable

import harness
from harness import AstCase, Case, MissingAnchor
from resolve import Program, Flow, accepts, CLASS_ATTRS
from spec.common import *

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__path__", "__package__", "__annotations__", "__spec__", "__builtins__"}
_PROG = {}


def program():
    if harness.REPO not in _PROG:
        _PROG[harness.REPO] = Program(harness.REPO, "tt_sketch")
    return _PROG[harness.REPO]


def functions(tree):
    """(qualified name, node, class node or None, nested) of every function"""
    def go(body, prefix, cls, nested):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + n.name, n, cls, nested
                yield from go(ast.walk_body(n) if False else inner(n), prefix + n.name + ".", cls if nested else None, True)
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, prefix + n.name + ".", n, False)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                sub = []
                for f in ("body", "orelse", "finalbody"):
                    sub += getattr(n, f, []) or []
                for h in getattr(n, "handlers", []):
                    sub += h.body
                yield from go(sub, prefix, cls, nested)

    def inner(n):
        return n.body
    yield from go(tree.body, "", None, False)


def names(rec, visited, mod):
    """(a) names that no scope binds; imports of names that do not exist"""
    P_ = program()
    d = P_.mods.get(mod)
    if d is None:
        raise MissingAnchor(mod)
    with open(os.path.join(harness.REPO, d["path"])) as f:
        src = f.read()
    if d["star"]:
        return rec("undet", "names", "star import")
    top = symtable.symtable(src, d["path"], "exec")
    glob = set(d["names"])
    for s in ast.walk(d["tree"]):
        if isinstance(s, ast.Global):
            glob |= set(s.names)
    glob |= {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported()}
    lines = {}
    for n in ast.walk(d["tree"]):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, n.lineno)
    ann = set()
    if any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in d["tree"].body):
        for n in ast.walk(d["tree"]):
            for a in ("annotation", "returns"):
                if getattr(n, a, None) is not None:
                    ann |= {id(x) for x in ast.walk(getattr(n, a))}
    evaluated = {n.id for n in ast.walk(d["tree"]) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in ann}
    todo = [top]
    while todo:
        t = todo.pop()
        todo.extend(t.get_children())
        if t.get_type() == "function":
            visited.add(f"{mod}.{t.get_name()}")
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t is top):
                n = s.get_name()
                if n in glob or n in BUILTINS or n not in evaluated:
                    rec("ok", f"{t.get_name()}: {n}")
                else:
                    rec("violation", f"{t.get_name()}: {n}", f"the name {n} is read but bound nowhere", f"{d['path']}:{lines.get(n, 0)} {t.get_name()}")
    for n in ast.walk(d["tree"]):
        if isinstance(n, ast.ImportFrom):
            src_mod = P_.absolute(mod, n)
            if not src_mod or src_mod.split(".")[0] != "tt_sketch":
                continue
            if src_mod not in P_.mods and src_mod not in P_.pyx:
                rec("violation", f"import {src_mod}", f"the module {src_mod} does not exist", f"{d['path']}:{n.lineno}")
                continue
            for a in n.names:
                if a.name == "*":
                    continue
                if src_mod in P_.pyx:
                    good = a.name in P_.pyx[src_mod]
                else:
                    good = P_.resolve_name(src_mod, a.name) is not None
                rec("ok" if good else "violation", f"import {src_mod}.{a.name}", "" if good else f"{src_mod} has no {a.name}", f"{d['path']}:{n.lineno}")


def assigned(rec, visited, mod):
    """(b) definite assignment"""
    P_ = program()
    d = P_.mods.get(mod)
    if d is None:
        raise MissingAnchor(mod)
    for q, fn, _, _ in functions(d["tree"]):
        visited.add(f"{mod}.{q}")
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "locals", "eval") for n in ast.walk(fn)):
            rec("undet", q, "the function evaluates text")
            continue
        found = []
        fl = Flow(fn, lambda n, name, facts: found.append((n, name, facts)))
        reads = fl.run()
        for n, name, facts in found:
            rec("violation", f"{q}: {name}", f"{name} is read before it is assigned when {', '.join(facts) or 'the function is called'}", f"{d['path']}:{n.lineno} {q}")
        for _ in range(max(0, min(reads, 400) - len(found))):
            rec("ok", f"{q}")


class Types:
    """classes of expressions of one function, as far as annotations and constructions tell"""

    def __init__(self, P_, mod, fn, cls):
        self.P, self.mod, self.fn, self.cls = P_, mod, fn, cls
        self.types = {}          # name -> (set of classes, exact)
        self.me = None
        args = fn.args.posonlyargs + fn.args.args
        stored = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored[n.id] = stored.get(n.id, 0) + 1
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    stored[a.arg] = 9
        narrowed = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr", "type", "callable") and n.args and isinstance(n.args[0], ast.Name):
                if n.func.id == "isinstance" and len(n.args) == 2:
                    ks = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
                    if all((P_.resolve_expr(mod, k) or (0,))[0] == "class" for k in ks):
                        narrowed.add((n.args[0].id, tuple(P_.resolve_expr(mod, k)[1].name for k in ks)))
                        self.widen(n.args[0].id, [P_.resolve_expr(mod, k)[1] for k in ks])
                        continue
                self.types[n.args[0].id] = None
        self.narrow = narrowed
        bad = {k for k, v in self.types.items() if v is None}
        wide = {k: v for k, v in self.types.items() if v}
        self.types = {}
        deco = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in fn.decorator_list]
        for i, a in enumerate(args + fn.args.kwonlyargs):
            if stored.get(a.arg) or a.arg in bad:
                continue
            if i == 0 and cls is not None and "staticmethod" not in deco:
                self.types[a.arg] = ([cls], False, "classmethod" in deco)
                self.me = a.arg
                continue
            if a.annotation is None:
                continue
            ks = self.annotation(a.annotation)
            if ks:
                self.types[a.arg] = (ks + wide.get(a.arg, []), False, False)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stored.get(n.targets[0].id) == 1:
                k = self.constructed(n.value)
                if k is not None and n.targets[0].id not in self.types and n.targets[0].id not in bad:
                    self.types[n.targets[0].id] = ([k], True, False)

    def widen(self, name, ks):
        if self.types.get(name, 0) is None:
            return
        self.types[name] = (self.types.get(name) or []) + ks

    def annotation(self, e):
        """classes an annotation stands for, None when it may be something else"""
        if isinstance(e, ast.Constant):
            if e.value is None:
                return []
            if isinstance(e.value, str):
                try:
                    return self.annotation(ast.parse(e.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.Subscript):
            n = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, "id", "")
            if n in ("Optional", "Union"):
                parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                out = []
                for p in parts:
                    k = self.annotation(p)
                    if k is None:
                        return None
                    out += k
                return out
            k = self.P.resolve_expr(self.mod, e.value)
            return [k[1]] if k and k[0] == "class" else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.annotation(e.left), self.annotation(e.right)
            return None if a is None or b is None else a + b
        k = self.P.resolve_expr(self.mod, e)
        if k and k[0] == "class":
            return [k[1]]
        return None

    def constructed(self, e):
        if isinstance(e, ast.Call):
            k = self.P.resolve_expr(self.mod, e.func)
            if k and k[0] == "class" and not self.local(e.func) and not any("__new__" in a.methods for a in self.P.ancestors(k[1])):
                return k[1]
        return None

    def local(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            return True
        return e.id in {a.arg for a in self.fn.args.posonlyargs + self.fn.args.args + self.fn.args.kwonlyargs} or \
            any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(self.fn))

    def of(self, e):
        if isinstance(e, ast.Name):
            return self.types.get(e.id)
        k = self.constructed(e)
        if k is not None:
            return ([k], True, False)
        return None


def guarded(fn, node):
    """inside a try that catches what a missing attribute raises"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(n is node for st in t.body for n in ast.walk(st)):
            for h in t.handlers:
                ns = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type else {"Exception"}
                if ns & {"AttributeError", "Exception", "BaseException", "TypeError", "NameError"}:
                    return True
        if isinstance(t, ast.With) and "suppress" in ast.dump(t.items[0].context_expr):
            if any(n is node for st in t.body for n in ast.walk(st)):
                return True
    return False


def attributes(rec, visited, mod):
    """(c) and (d)"""
    P_ = program()
    d = P_.mods.get(mod)
    if d is None:
        raise MissingAnchor(mod)
    bynode = {id(c.node): c for c in P_.classes}
    for q, fn, cnode, nested in functions(d["tree"]):
        visited.add(f"{mod}.{q}")
        cls = bynode.get(id(cnode)) if cnode is not None and not nested else None
        T = Types(P_, mod, fn, cls)
        own = {id(x) for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn for x in ast.walk(n)}
        for n in ast.walk(fn):
            if id(n) in own:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loc = f"{d['path']}:{n.lineno} {q}"
                t = T.of(n.value)
                if t is not None:
                    ks, exact, _ = t
                    rs = [P_.has_attr(k, n.attr, exact) for k in ks]
                    if True in rs:
                        rec("ok", f"{q}: {n.attr}")
                    elif None in rs:
                        pass
                    elif not guarded(fn, n):
                        rec("violation", f"{q}: {n.attr}", f"no {' or '.join(k.name for k in ks)} has an attribute {n.attr}", loc)
                elif isinstance(n.value, (ast.Name, ast.Attribute)) and not T.local(n.value):
                    k = P_.resolve_expr(mod, n.value)
                    if k and k[0] == "class":
                        r = P_.has_attr(k[1], n.attr, True)
                        if r is False and not guarded(fn, n):
                            rec("violation", f"{q}: {n.attr}", f"the class {k[1].name} has no attribute {n.attr}", loc)
                        elif r:
                            rec("ok", f"{q}: {n.attr}")
                    elif k and k[0] == "module" and k[1] in P_.mods:
                        r = P_.resolve_name(k[1], n.attr) is not None
                        if not r and not guarded(fn, n):
                            rec("violation", f"{q}: {n.attr}", f"the module {k[1]} has no {n.attr}", loc)
                        elif r:
                            rec("ok", f"{q}: {n.attr}")
            if isinstance(n, ast.Call):
                fit(rec, P_, mod, d, q, fn, cls, T, n)


def fit(rec, P_, mod, d, q, fn, cls, T, n):
    loc = f"{d['path']}:{n.lineno} {q}"
    f = n.func
    sigs, what = [], ast.unparse(f)
    if isinstance(f, ast.Name):
        if T.me is not None and f.id == T.me and T.types.get(f.id, (0, 0, False))[2]:
            for k in P_.descendants(cls):
                sigs.append(P_.signature(k))
        elif not T.local(f):
            k = P_.resolve_name(mod, f.id)
            if k and k[0] == "func" and plain(k[2]):
                sigs = [("sig", k[2], 0)]
            elif k and k[0] == "class":
                sigs = [P_.signature(k[1])]
    elif isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None:
            for k in P_.descendants(cls):
                anc = P_.ancestors(k)
                if any(a.external for a in anc):
                    sigs.append(None)
                for a in anc:
                    if a is not cls and f.attr in a.methods:
                        sigs.append(("sig", a.methods[f.attr], 0 if f.attr in a.statics else 1))
                if f.attr == "__init__":
                    sigs.append(("fields", []))
            if not sigs:
                rec("violation", f"{q}: super().{f.attr}", f"no base of {cls.name} has {f.attr}", loc) if not any(a.external or a.dynamic for a in P_.ancestors(cls)) and not (f.attr.startswith("__")) else None
                return
        else:
            t = T.of(v)
            if t is not None:
                ks, exact, isclass = t
                fam = []
                for k in ks:
                    fam += [k] if exact else P_.descendants(k)
                for k in fam:
                    m = P_.lookup(k, f.attr)
                    if m is None:
                        if P_.has_attr(k, f.attr, True) is not False:
                            sigs.append(None)
                        continue
                    if f.attr in m[0].props:
                        sigs.append(None)
                        continue
                    bound = f.attr in m[0].statics
                    sigs.append(("sig", m[1], 0 if bound or (isclass and f.attr not in m[0].clsm) else 1))
            elif isinstance(v, (ast.Name, ast.Attribute)) and not T.local(v):
                k = P_.resolve_expr(mod, v)
                if k and k[0] == "class":
                    m = P_.lookup(k[1], f.attr)
                    if m is not None and f.attr not in m[0].props:
                        sigs = [("sig", m[1], 1 if f.attr in m[0].clsm else 0)]
                elif k and k[0] == "module" and k[1] in P_.mods:
                    b = P_.resolve_name(k[1], f.attr)
                    if b and b[0] == "func" and plain(b[2]):
                        sigs = [("sig", b[2], 0)]
                    elif b and b[0] == "class":
                        sigs = [P_.signature(b[1])]
    if not sigs or None in sigs:
        return
    why = [accepts(s, n) for s in sigs]
    if None in why:
        rec("ok", f"{q}: {what}()")
    elif not guarded(fn, n):
        rec("violation", f"{q}: {what}()", f"the call of {what} does not fit: {why[0]}", loc)


def plain(fn):
    return not fn.decorator_list


def modules():
    out = []
    root = os.path.join(harness.REPO, "tt_sketch")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py") and os.path.getsize(os.path.join(d, f)):
                m = os.path.relpath(os.path.join(d, f), harness.REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return out


CASES = []
for m_ in modules():
    s_ = m_[len("tt_sketch."):] if "." in m_ else m_
    CASES.append(AstCase("C32", f"names_{s_}", names, (m_,)))
    CASES.append(AstCase("C32", f"assigned_{s_}", assigned, (m_,)))
    CASES.append(AstCase("C32", f"attributes_{s_}", attributes, (m_,)))


# -------------------------------------------------------------------- (e) the entry points under every combination of options
BADEXC = ("NameError", "UnboundLocalError", "AttributeError", "ModuleNotFoundError", "ImportError")


def attempt(S, label, thunk, loc=None):
    try:
        r = thunk()
    except PyRaise as e:
        n = S.excname(e)
        args = getattr(e.exc, "args", ())
        text = str(args[0]) if args else ""
        arity = n == "TypeError" and any(t in text for t in ("unexpected keyword", "required positional", "positional argument", "multiple values"))
        if n in BADEXC or arity:
            S.bad(label, f"{n}: {text}", loc or str(e.loc))
        else:
            S.ok(label)
        return None
    except Unsupported as e:
        S.undet(label, str(e))
        return None
    S.ok(label)
    return r


def combos(opts):
    """every combination of the values of the options; None in the list of values means that the option is not given"""
    keys = list(opts)
    for vals in itertools.product(*[opts[k] for k in keys]):
        yield {k: v for k, v in zip(keys, vals) if v != "absent"}


def sketches(S, which, fmt, d, kind, given):
    shape = S.dims(d)
    X, _ = mkd(S, fmt, "X", shape)
    sk = S.ns("sketch")
    ad = adm_ranks(S, shape)
    wide = grow(S, ad, "e")
    seeds = ("absent", None, 5)
    if which == "hmt":
        drm = mk_drm(S, kind, ad, shape, True, 3) if given else "absent"
        for kw in combos({"seed": seeds, "drm_type": ("absent", drm_cls(S, kind)), "drm": (drm,), "return_drm": ("absent", False, True)}):
            attempt(S, f"hmt {sorted(kw)} {kw.get('return_drm')}", lambda: S.call(sk["hmt_sketch"], X, ad, **kw), "sketch.hmt_sketch")
        return
    ty = ("absent", drm_cls(S, kind))
    L = mk_drm(S, kind, ad, shape, False, 3) if given in ("left", "both") else "absent"
    R = mk_drm(S, kind, wide, shape, True, 4) if given in ("right", "both") else "absent"
    for kw in combos({"seed": ("absent", 5), "left_drm_type": ty, "right_drm_type": ty, "left_drm": (L,), "right_drm": (R,), "return_drm": ("absent", False, True)}):
        r = attempt(S, f"{which} {sorted(kw)} {kw.get('return_drm')}", lambda: S.call(sk[f"{which}_sketch"], X, ad, wide, **kw), f"sketch.{which}_sketch")


def sketched(S, fmt, d, kind):
    """everything a sketched tensor offers"""
    shape = S.dims(d)
    X, _ = mkd(S, fmt, "X", shape)
    ad = adm_ranks(S, shape)
    wide = grow(S, ad, "e")
    sk = S.ns("sketch")
    for order in ((ad, wide), (wide, ad)):
        t = attempt(S, "stream", lambda: S.call(sk["stream_sketch"], X, order[0], order[1], seed=5, left_drm_type=drm_cls(S, kind), right_drm_type=drm_cls(S, kind)))
        if t is None:
            continue
        for a in ("left_rank", "right_rank", "Psi_cores", "Omega_mats", "size", "T", "shape", "ndim"):
            attempt(S, f"sketched.{a}", lambda: S.get(t, a))
        for m in ("to_tt", "to_numpy", "__repr__", "norm", "dense"):
            attempt(S, f"sketched.{m}", lambda: S.m(t, m))
        for direction in ("absent", "auto", "left", "right"):
            kw = {} if direction == "absent" else {"direction": direction}
            attempt(S, f"sketched.C_cores {direction}", lambda: S.m(t, "C_cores", **kw))
        attempt(S, "sketched mul", lambda: S.m(t, "__mul__", 2))
        attempt(S, "sketched add", lambda: S.m(t, "__add__", X))
        attempt(S, "sketched dot", lambda: S.m(t, "dot", X))
        attempt(S, "sketched dot reverse", lambda: S.m(t, "dot", X, reverse=True))
        for rel, fast in itertools.product((False, True), (False, True)):
            attempt(S, f"sketched error {rel}", lambda: S.m(t, "error", X, relative=rel))
        g1, g2 = grow(S, order[0], "g"), grow(S, order[1], "h")
        attempt(S, "increase_rank", lambda: S.m(t, "increase_rank", X, g1, g2))


def tensors(S, fmt, d, part, other=None, option=None):
    """everything a tensor of a format offers, alone and with a second one of every format"""
    shape = S.dims(d)
    X, _ = mkd(S, fmt, "X", shape)
    if part == "unary":
        for a in ("shape", "ndim", "size", "T"):
            attempt(S, f"{fmt}.{a}", lambda: S.get(X, a))
        for m in ("to_numpy", "dense", "norm", "__repr__", "__neg__"):
            attempt(S, f"{fmt}.{m}", lambda: S.m(X, m))
        for op in ("__mul__", "__rmul__", "__truediv__"):
            attempt(S, f"{fmt}.{op}", lambda: S.m(X, op, 2))
        k = S.cls("tensor", "SparseTensor")
        own = {"dense": ("to_sparse",), "sparse": ("dict",), "tt": ("svdvals", "orthogonalize"), "cp": (), "tucker": (), "sum": ()}[fmt]
        for m in own:
            attempt(S, f"{fmt}.{m}", lambda: S.m(X, m) if m != "dict" else S.get(X, m))
        if fmt == "sparse":
            attempt(S, "nnz", lambda: S.get(X, "nnz"))
            for n in (1, 2, 3):
                attempt(S, f"split {n}", lambda: S.m(X, "split", n))
        if fmt == "tt":
            for dr in ("absent", "lr", "rl"):
                attempt(S, f"partial_dense {dr}", lambda: S.m(X, "partial_dense", **({} if dr == "absent" else {"dir": dr})))
            for kw in combos({"max_rank": ("absent", None, 3), "eps": ("absent", None, Fraction(1, 10))}):
                attempt(S, f"round {sorted(kw)}", lambda: S.m(X, "round", **kw))
        if fmt in ("dense", "tt"):
            for r in (None, 2, "absent"):
                attempt(S, f"tt_svd {r}", lambda: S.call(S.ns("tt_svd")["tt_svd"], X, **({} if r == "absent" else {"rank": r})))
    elif part == "binary":
        Y = mkd(S, other, "Y", shape)[0]
        for op in ("__add__", "__sub__", "__matmul__", "dot"):
            attempt(S, f"{fmt}.{op} {other}", lambda: S.m(X, op, Y))
        attempt(S, f"{fmt}.dot reverse {other}", lambda: S.m(X, "dot", Y, reverse=True))
    else:
        Y = mkd(S, other, "Y", shape)[0]
        attempt(S, f"{fmt}.error {other} {sorted(option)}", lambda: S.m(X, "error", Y, **option))


def randoms(S, d):
    shape = S.dims(d)
    ad = adm_ranks(S, shape)
    tt = S.cls("tensor", "TensorTrain")
    for kw in combos({"seed": ("absent", None, 4), "orthog": ("absent", False, True), "trim": ("absent", False, True), "norm_goal": ("absent", "norm-1", "norm-preserve")}):
        attempt(S, f"tt {sorted(kw)} {kw.get('norm_goal')}", lambda: S.m(tt, "random", shape, ad, **kw))
    attempt(S, "zero", lambda: S.m(tt, "zero", shape, ad))
    for c, a in (("CPTensor", (shape, 3)), ("TuckerTensor", (shape, 2)), ("DenseTensor", (shape,)), ("SparseTensor", ((4,) * d, 3))):
        for seed in ("absent", None, 3):
            kw = {} if seed == "absent" or c == "DenseTensor" else {"seed": seed}
            attempt(S, f"{c} {seed}", lambda: S.m(S.cls("tensor", c), "random", *a, **kw))
    for kind in DRMS:
        for tr in (False, True):
            for seed in (None, 3):
                D = attempt(S, f"{kind}", lambda: mk_drm(S, kind, ad, shape, tr, seed))
                if D is None:
                    continue
                attempt(S, f"{kind} T", lambda: S.get(D, "T"))
                attempt(S, f"{kind} repr", lambda: S.m(D, "__repr__"))
                attempt(S, f"{kind} slice", lambda: S.m(D, "slice", (0,) * (d - 1), ad))
                if DRMS[kind][3]:
                    attempt(S, f"{kind} increase", lambda: S.m(D, "increase_rank", grow(S, ad, "q")))
    attempt(S, "capabilities", lambda: S.call(S.ns("sketch")["get_drm_capabilities"]))


def maps(S, d, sym):
    sh = S.dims(d)
    M = S.cls("tt_gmres", "MPO")
    A = attempt(S, "MPO.random", lambda: S.m(M, "random", 2, sh, sh))
    E = attempt(S, "MPO.eye", lambda: S.m(M, "eye", sh))
    for X in (A, E):
        if X is None:
            continue
        for a in ("T", "size", "shape", "rank", "in_shape", "out_shape"):
            attempt(S, f"MPO.{a}", lambda: S.get(X, a))
        for m in ("to_tt", "to_numpy", "__repr__", "norm"):
            attempt(S, f"MPO.{m}", lambda: S.m(X, m))
        attempt(S, "MPO mul", lambda: S.m(X, "__mul__", 2))
        attempt(S, "MPO call", lambda: S.m(X, "__call__", S.tt("x", sh, tuple(S.sym(f"p{k}") for k in range(d - 1)))))
    g = S.ns("tt_gmres")
    if A is not None and E is not None:
        T = attempt(S, "sum", lambda: S.call(g["TTLinearMapSum"], ListObj([A, E])))
        x = S.tt("x", sh, tuple(S.sym(f"p{k}") for k in range(d - 1)))
        attempt(S, "sum call", lambda: S.m(T, "__call__", x))
        ts = S.m(T, "__call__", x)
        for method in ("pairwise", "sketch", "orth_sketch", "exact", None) if d > 1 else ("pairwise", "exact", None):
            for kw in combos({"eps": ("absent", None, Fraction(1, 10)), "oversample_factor": ("absent", 2)}):
                attempt(S, f"round {method} {sorted(kw)}", lambda: S.call(g["round_tt_sum"], ts, 3, method=method, **kw))


for d_ in (1, 2, 3):
    CASES.append(Case("C32", f"random_{d_}", randoms, (d_,), raise_ok=True, timeout=400))
    CASES.append(Case("C32", f"maps_{d_}", maps, (d_, False), raise_ok=True))
    for f_ in FORMATS + ("sum",):
        t_ = "quick" if d_ < 3 else "thorough"
        CASES.append(Case("C32", f"unary_{f_}_{d_}", tensors, (f_, d_, "unary"), raise_ok=True, tier=t_))
        for o_ in FORMATS + ("sum",):
            CASES.append(Case("C32", f"binary_{f_}_{o_}_{d_}", tensors, (f_, d_, "binary", o_), raise_ok=True, tier=t_))
            for kw_ in combos({"relative": ("absent", True), "fast": ("absent", True), "rmse": ("absent", True)}):
                CASES.append(Case("C32", f"error_{f_}_{o_}_{d_}_{'_'.join(f'{k}{v}' for k, v in kw_.items())}", tensors, (f_, d_, "error", o_, kw_), raise_ok=True, tier=t_))
for f_ in FORMATS + ("sum",):
    for d_ in (2, 3):
        kinds_ = [k for k in DRMS if f_ in DRMS[k][1] or f_ == "sum" and "tt" in DRMS[k][1] and "sparse" in DRMS[k][1]]
        for kind_ in kinds_:
            t_ = "quick" if d_ == 2 else "thorough"
            CASES.append(Case("C32", f"sketched_{f_}_{kind_}_{d_}", sketched, (f_, d_, kind_), raise_ok=True, tier=t_, timeout=400))
            for w_ in ("hmt", "orthogonal", "stream"):
                for given_ in ((False, True) if w_ == "hmt" else ("none", "left", "right", "both")):
                    CASES.append(Case("C32", f"{w_}_{f_}_{kind_}_{given_}_{d_}", sketches, (w_, f_, d_, kind_, given_), raise_ok=True, tier=t_, timeout=400))
