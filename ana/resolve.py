"""Name, attribute and keyword resolution over the syntax tree of a package (used by C32)."""
import ast
import builtins
import os

MAXSTATES = 48
ABSTRACT_BASES = {"object", "ABC", "Generic", "Protocol", "Enum", "IntEnum", "Flag", "Exception", "ValueError", "TypeError"}
CLASS_ATTRS = {"__class__", "__dict__", "__doc__", "__module__", "__name__", "__qualname__", "__mro__", "__bases__", "__subclasses__",
               "__init__", "__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__new__", "__setattr__", "__getattribute__", "__reduce__",
               "__sizeof__", "__format__", "__annotations__", "__init_subclass__", "mro", "__dir__", "__delattr__", "__abstractmethods__"}
ENUM_ATTRS = {"name", "value", "_name_", "_value_", "__members__", "_missing_", "_generate_next_value_"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases, self.external, self.subs = [], False, []
        self.enum = False
        self.methods = {}        # name -> FunctionDef (last definition)
        self.props = set()
        self.statics = set()
        self.clsm = set()
        self.attrs = set()       # class level and self.* attributes
        self.fields = []         # annotated names with/without default, in order
        self.dataclass = None    # arguments of the decorator
        self.dynamic = False


class Program:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.mods = {}           # module -> dict(tree, names: name -> binding)
        self.classes = []
        self.setattrs = set()    # attributes assigned on something else than self
        for d, _, fs in sorted(os.walk(os.path.join(root, package))):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                name = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path) as fh:
                    src = fh.read()
                self.mods[name] = {"tree": ast.parse(src, path), "names": {}, "path": os.path.relpath(path, root), "star": False,
                                   "pkg": f == "__init__.py"}
        self.pyx = {}
        for d, _, fs in sorted(os.walk(os.path.join(root, package))):
            for f in fs:
                if f.endswith(".pyx"):
                    path = os.path.join(d, f)
                    name = os.path.relpath(path, root)[:-4].replace(os.sep, ".")
                    import re
                    with open(path) as fh:
                        self.pyx[name] = set(re.findall(r"^\s*c?p?def\s+(?:[\w\[\], :]+?\s+)?(\w+)\s*\(", fh.read(), re.M))
        for m, d in self.mods.items():
            self.toplevel(m, d["tree"].body)
        for c in self.classes:
            self.bases(c)
        for c in self.classes:
            for b in c.bases:
                b.subs.append(c)
        for m, d in self.mods.items():
            for n in ast.walk(d["tree"]):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.setattrs.add(n.attr)

    # ---------------------------------------------------------------- bindings
    def absolute(self, m, node):
        if not node.level:
            return node.module
        parts = m.split(".")
        if not self.mods[m]["pkg"]:
            parts = parts[:-1]
        parts = parts[:len(parts) - node.level + 1]
        return ".".join(parts + ([node.module] if node.module else []))

    def toplevel(self, m, body):
        names = self.mods[m]["names"]
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names[s.name] = ("func", m, s)
            elif isinstance(s, ast.ClassDef):
                c = self.collect(m, s)
                names[s.name] = ("class", c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    names[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                mod = self.absolute(m, s)
                for a in s.names:
                    if a.name == "*":
                        self.mods[m]["star"] = True
                    else:
                        names[a.asname or a.name] = ("from", mod, a.name, s)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self.toplevel(m, getattr(s, f, []) or [])
                for h in getattr(s, "handlers", []):
                    self.toplevel(m, h.body)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.setdefault(n.id, ("value", m, None))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names[n.id] = ("value", m, s)

    def collect(self, m, node):
        c = Cls(m, node)
        self.classes.append(c)
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if n == "dataclass":
                c.dataclass = d.keywords if isinstance(d, ast.Call) else []
            else:
                c.dynamic = True
        if node.keywords and any(k.arg != "metaclass" for k in node.keywords):
            c.dynamic = True
        for s in ast.walk(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and s is not node:
                c.attrs.add(s.name)
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("setattr", "vars"):
                c.dynamic = True
            if isinstance(s, ast.Attribute) and s.attr == "__dict__":
                c.dynamic = True
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                c.methods[s.name] = s
                for d in s.decorator_list:
                    n = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
                    if n in ("property", "cached_property", "setter", "abstractproperty"):
                        c.props.add(s.name)
                    elif n == "staticmethod":
                        c.statics.add(s.name)
                    elif n == "classmethod":
                        c.clsm.add(s.name)
                    elif n not in ("abstractmethod", "abstractclassmethod", "override"):
                        c.props.add(s.name)      # a decorator that is not known: say nothing about calls
                if s.name in ("__getattr__", "__getattribute__"):
                    c.dynamic = True
                first = s.args.posonlyargs + s.args.args
                if first:
                    me = first[0].arg
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                            c.attrs.add(n.attr)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attrs.add(s.target.id)
                c.fields.append((s.target.id, s.value is not None, s))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        c.attrs.add(n.id)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            c.attrs.add(a.asname or a.name)
        return c

    def bases(self, c):
        for b in c.node.bases:
            e = b.value if isinstance(b, ast.Subscript) else b
            k = self.resolve_expr(c.mod, e)
            if k is not None and k[0] == "class":
                c.bases.append(k[1])
                c.enum = c.enum or k[1].enum
                continue
            n = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?")
            if n in ("Enum", "IntEnum", "Flag", "IntFlag"):
                c.enum = True
            if n not in ABSTRACT_BASES and n not in ("IntFlag",):
                c.external = True

    def resolve_name(self, m, name, depth=0):
        """binding of a global name: ("func", mod, node) / ("class", Cls) / ("module", name) / ("value",…) / ("ext",) / None (missing)"""
        if depth > 20:
            return ("ext",)
        if m not in self.mods:
            return ("ext",)
        b = self.mods[m]["names"].get(name)
        if b is None:
            if self.mods[m]["star"]:
                return ("ext",)
            if m + "." + name in self.mods or m + "." + name in self.pyx:
                return ("module", m + "." + name)
            return None
        if b[0] == "from":
            _, mod, n, _ = b
            if mod in self.mods:
                return self.resolve_name(mod, n, depth + 1)
            if mod in self.pyx:
                return ("ext",) if n in self.pyx[mod] else None
            return ("ext",)
        return b

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b and b[0] == "module":
                if b[1] in self.mods:
                    return self.resolve_name(b[1], e.attr)
                return ("ext",)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    # ---------------------------------------------------------------- class queries
    def ancestors(self, c):
        out, todo = [], [c]
        while todo:
            k = todo.pop(0)
            if k not in out:
                out.append(k)
                todo.extend(k.bases)
        return out

    def descendants(self, c):
        out, todo = [], [c]
        while todo:
            k = todo.pop(0)
            if k not in out:
                out.append(k)
                todo.extend(k.subs)
        return out

    def has_attr(self, c, name, exact=False):
        """True / False / None (cannot say)"""
        if name in CLASS_ATTRS or name in self.setattrs and not exact:
            return True
        fam = self.ancestors(c)
        if not exact:
            for d in self.descendants(c):
                fam += [k for k in self.ancestors(d) if k not in fam]
        for k in fam:
            if name in k.attrs or name in k.methods:
                return True
            if k.enum and name in ENUM_ATTRS:
                return True
        if any(k.external or k.dynamic for k in fam):
            return None
        if name.startswith("__") and name.endswith("__"):
            return None
        return False

    def lookup(self, c, name):
        for k in self.ancestors(c):
            if name in k.methods:
                return k, k.methods[name]
        return None

    def signature(self, c):
        """("sig", FunctionDef, skip) / ("fields", [(name, has default)]) / None of the constructor of a class"""
        anc = self.ancestors(c)
        if any(k.external or k.dynamic or k.enum for k in anc):
            return None
        if any("__new__" in k.methods for k in anc):
            return None
        for k in anc:
            if "__init__" in k.methods:
                return ("sig", k.methods["__init__"], 1)
            if k.dataclass is not None:
                if any(kw.arg == "init" for kw in k.dataclass):
                    return None
                fs = {}
                for a in reversed(self.ancestors(k)):
                    if a.dataclass is not None:
                        for n, dflt, s in a.fields:
                            t = ast.unparse(s.annotation)
                            if "ClassVar" in t or "InitVar" in t or "KW_ONLY" in t or isinstance(s.value, ast.Call):
                                return None
                            fs[n] = dflt
                return ("fields", list(fs.items()))
        return ("fields", [])


def accepts(sig, call, skip=None):
    """None if the call fits the signature, otherwise what does not fit"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    if sig[0] == "fields":
        names, req, varpos, varkw, kwonly = [n for n, _ in sig[1]], [n for n, d in sig[1] if not d], False, False, set()
        posonly = set()
    else:
        a = sig[1].args
        pos = [x.arg for x in a.posonlyargs + a.args][sig[2]:]
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else list(pos)
        names, varpos, varkw = pos, a.vararg is not None, a.kwarg is not None
        kwonly = {x.arg for x in a.kwonlyargs}
        req = req + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        posonly = {x.arg for x in a.posonlyargs}
    given = set()
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(names) and not varpos:
        return f"{npos} positional arguments for {len(names)} parameters"
    if not any(isinstance(x, ast.Starred) for x in call.args):
        given |= set(names[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in posonly or k.arg not in names and k.arg not in kwonly:
            if not varkw:
                return f"no parameter named '{k.arg}'"
        if k.arg in given:
            return f"two values for '{k.arg}'"
        given.add(k.arg)
    if not star:
        miss = [r for r in req if r not in given]
        if miss:
            return f"no value for '{miss[0]}'"
    return None


# -------------------------------------------------------------------- definite assignment
def const_of(e):
    if isinstance(e, ast.Constant):
        return ("c", e.value)
    return None


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Facts:
    """what a path knows about conditions: text -> truth, and variable -> constant"""

    def __init__(self, conds=None, consts=None):
        self.conds, self.consts = conds or {}, consts or {}

    def kill(self, name):
        c = {k: v for k, v in self.conds.items() if name not in v[1]}
        k = {n: v for n, v in self.consts.items() if n != name}
        return Facts(c, k)

    def key(self):
        return (tuple(sorted((k, v[0]) for k, v in self.conds.items())), tuple(sorted((n, repr(v)) for n, v in self.consts.items())))


def norm_cond(e):
    """(text, polarity, names)"""
    pol = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, pol = e.operand, not pol
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        for a, b in inv.items():
            if isinstance(e.ops[0], a):
                e2 = ast.Compare(e.left, [b()], e.comparators)
                return ast.unparse(ast.fix_missing_locations(ast.copy_location(e2, e))), not pol, names_in(e)
    return ast.unparse(e), pol, names_in(e)


class Flow:
    """Path analysis of one function: which names may be read before anything was assigned to them.

    A loop is taken at least once, and the values of conditions are followed along a path.  Names that another scope can assign
    and names in functions that delete or use exec are left out."""

    def __init__(self, fn, report):
        self.fn, self.report = fn, report
        self.locals = set()
        self.skip = set()
        self.reads = 0
        self.lost = 0
        self.loops = []
        args = fn.args
        self.params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        for a in (args.vararg, args.kwarg):
            if a:
                self.params.add(a.arg)
        self.collect(fn.body)
        self.locals -= self.params
        self.seen = set()

    def collect(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                for x in ast.walk(n):
                    if isinstance(x, ast.Nonlocal):
                        self.skip |= set(x.names)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        self.locals.add(x.target.id)
                        self.skip.add(x.target.id)
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.skip |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.add((a.asname or a.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
                self.skip.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
                self.skip.add(n.name)
            stack.extend(ast.iter_child_nodes(n))

    def run(self):
        self.block(self.fn.body, [(frozenset(self.params), Facts())])
        return self.reads

    # states: list of (assigned, facts)
    def merge(self, states):
        out, seen = [], set()
        for a, f in states:
            k = (a, f.key())
            if k not in seen:
                seen.add(k)
                out.append((a, f))
        if len(out) > MAXSTATES:
            # forget the facts; a name counts as assigned when some path assigned it
            self.lost += 1
            a = frozenset().union(*[x for x, _ in out])
            out = [(a, Facts())]
        return out

    def read(self, e, states):
        """reads of an expression, in the order of evaluation as far as it matters (assignment expressions)"""
        for n in self.free(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id in self.locals and n.id not in self.skip:
                self.reads += 1
                for a, f in states:
                    if n.id not in a:
                        if self.loops and self.carried(n.id, f):
                            continue
                        k = (n.id, n.lineno, n.col_offset)
                        if k not in self.seen:
                            self.seen.add(k)
                            self.report(n, n.id, [f"{t} is {v[0]}" for t, v in f.conds.items()])
                        break

    def carried(self, name, f):
        """read in a loop that assigns the name, under a condition that changes from one iteration to the next"""
        for targets, assigned in self.loops:
            if name in assigned:
                for t, (v, ns) in f.conds.items():
                    if ns & (targets | assigned):
                        return True
        return False

    def free(self, e):
        """name nodes of an expression that are evaluated in this scope and certainly when the expression is"""
        out = []

        def go(n, bound):
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    go(d, bound)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                b = set(bound)
                for i, g in enumerate(n.generators):
                    go(g.iter, b)
                    b |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for c in g.ifs:
                        go(c, b)
                for f in ("elt", "key", "value"):
                    if getattr(n, f, None) is not None:
                        go(getattr(n, f), b)
                return
            if isinstance(n, (ast.BoolOp,)):
                go(n.values[0], bound)
                return
            if isinstance(n, ast.IfExp):
                go(n.test, bound)
                return
            if isinstance(n, ast.Name):
                if n.id not in bound:
                    out.append(n)
                return
            for c in ast.iter_child_nodes(n):
                go(c, bound)
        go(e, set())
        return out

    def expr(self, e, states):
        if e is None:
            return states
        self.read(e, states)
        # the parts that are evaluated under a condition
        for n in ast.walk(e):
            if isinstance(n, ast.IfExp):
                for br, pol in ((n.body, True), (n.orelse, False)):
                    s = self.assume(n.test, pol, states)
                    if s:
                        self.read(br, s)
            elif isinstance(n, ast.BoolOp):
                s = states
                for p, q in zip(n.values, n.values[1:]):
                    s = self.assume(p, isinstance(n.op, ast.And), s)
                    if s:
                        self.read(q, s)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                states = [(a | {n.target.id}, f.kill(n.target.id)) for a, f in states]
        return states

    def truth(self, e, f):
        """what a path knows about a condition"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, f)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v, f) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else True if all(t is True for t in ts) else None
            return True if True in ts else False if all(t is False for t in ts) else None
        if isinstance(e, ast.Name) and e.id in f.consts:
            return bool(f.consts[e.id])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in f.consts and isinstance(e.comparators[0], ast.Constant):
            a, b = f.consts[e.left.id], e.comparators[0].value
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return a is b if a is None or b is None or isinstance(a, bool) else a == b
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return not (a is b if a is None or b is None or isinstance(a, bool) else a == b)
        t, pol, ns = norm_cond(e)
        if t in f.conds:
            return f.conds[t][0] == pol
        # membership in a written list of constants, and two different constants for the same expression
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            pol = not isinstance(e.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn))
            want = self.values(e)
            if want is not None:
                left = ast.unparse(e.left)
                known, excluded = None, set()
                for k, (v, _) in f.conds.items():
                    if not k.startswith(left + " "):
                        continue
                    try:
                        o = ast.parse(k, mode="eval").body
                    except SyntaxError:
                        continue
                    if not (isinstance(o, ast.Compare) and len(o.ops) == 1 and ast.unparse(o.left) == left):
                        continue
                    vals = self.values(o)
                    if vals is None:
                        continue
                    if v:
                        known = vals if known is None else known & vals
                    else:
                        excluded |= vals
                if known is not None and known <= want:
                    return pol
                if known is not None and not (known & want) or want <= excluded:
                    return not pol
                if known is not None and (known - excluded) <= want:
                    return pol
        return None

    @staticmethod
    def values(e):
        """the constants (or members of an enumeration) a comparison compares with"""
        if not isinstance(e.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot, ast.In, ast.NotIn)):
            return None
        c = e.comparators[0]
        if isinstance(e.ops[0], (ast.In, ast.NotIn)):
            if not isinstance(c, (ast.Tuple, ast.List, ast.Set)):
                return None
            elts = c.elts
        else:
            elts = [c]
        out = set()
        for x in elts:
            if isinstance(x, ast.Constant):
                out.add(repr(x.value))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id[:1].isupper():
                out.add(ast.unparse(x))
            else:
                return None
        return out

    def assume(self, e, pol, states):
        out = []
        for a, f in states:
            t = self.truth(e, f)
            if t is not None and t != pol:
                continue
            out.append((a, self.learn(e, pol, f)))
        return out

    def learn(self, e, pol, f):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.learn(e.operand, not pol, f)
        if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.And) == pol):
            for v in e.values:
                f = self.learn(v, pol, f)
            return f
        if isinstance(e, ast.Constant):
            return f
        t, p, ns = norm_cond(e)
        c = dict(f.conds)
        c[t] = (p == pol, frozenset(ns))
        return Facts(c, f.consts)

    def assign(self, target, states, value=None):
        names = [n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        for n in ast.walk(target):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                states = self.expr(n.value, states)
                if isinstance(n, ast.Subscript):
                    states = self.expr(n.slice, states)
        out = []
        for a, f in states:
            for n in names:
                f = f.kill(n)
            if isinstance(target, ast.Name) and isinstance(value, ast.Constant):
                c = dict(f.consts)
                c[target.id] = value.value
                f = Facts(f.conds, c)
            out.append((a | frozenset(names), f))
        return out

    def block(self, body, states):
        """states after the block; jumps are kept in self.breaks / self.continues"""
        for s in body:
            if not states:
                return states
            states = self.merge(self.stmt(s, states))
        return states

    def chain_targets(self, s):
        """names that every branch of an if/elif chain of at least two branches assigns or leaves the block"""
        branches = []
        while True:
            branches.append(s.body)
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
                continue
            if s.orelse:
                return set()
            break
        if len(branches) < 2:
            return set()
        sets = []
        for b in branches:
            if isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                continue
            sets.append({n.id for st in b for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        return set.intersection(*sets) if sets else set()

    def stmt(self, s, states):
        if isinstance(s, ast.Expr):
            states = self.expr(s.value, states)
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                return states
            return states
        if isinstance(s, ast.Assign):
            states = self.expr(s.value, states)
            for t in s.targets:
                states = self.assign(t, states, s.value)
            return states
        if isinstance(s, ast.AugAssign):
            states = self.expr(s.value, states)
            if isinstance(s.target, ast.Name):
                n = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
                self.read(n, states)
            return self.assign(s.target, states)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            states = self.expr(s.value, states)
            return self.assign(s.target, states, s.value)
        if isinstance(s, ast.Return):
            self.expr(s.value, states)
            return []
        if isinstance(s, ast.Raise):
            self.expr(s.exc, states)
            return []
        if isinstance(s, ast.Assert):
            states = self.expr(s.test, states)
            return self.assume(s.test, True, states)
        if isinstance(s, ast.If):
            states = self.expr(s.test, states)
            yes = self.assume(s.test, True, states)
            no = self.assume(s.test, False, states)
            assumed = self.chain_targets(s) if s.orelse and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) else set()
            y = self.block(s.body, yes) if yes else []
            if assumed and no:
                n = self.block(s.orelse, no)
                # no branch of the chain was taken: the tests are taken to be exhaustive
                n = [(a | assumed, f) for a, f in n]
            else:
                n = self.block(s.orelse, no) if no else []
            return y + n
        if isinstance(s, (ast.For, ast.AsyncFor)):
            states = self.expr(s.iter, states)
            return self.loop(s, states, lambda st: self.assign(s.target, st), {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)})
        if isinstance(s, ast.While):
            states = self.expr(s.test, states)
            endless = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.loop(s, states, lambda st: self.assume(s.test, True, st), names_in(s.test), endless)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                states = self.expr(it.context_expr, states)
                if it.optional_vars is not None:
                    states = self.assign(it.optional_vars, states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            inside = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            hs = []
            for a, f in states:
                for n in inside:
                    f = f.kill(n)
                hs.append((a, f))
            end = self.block(s.body, states)
            end = self.block(s.orelse, end) if end else end
            out = list(end)
            for h in s.handlers:
                hst = hs
                if h.name:
                    hst = [(a | {h.name}, f.kill(h.name)) for a, f in hst]
                out += self.block(h.body, hst)
            if s.finalbody:
                done = self.block(s.finalbody, self.merge(out)) if out else []
                self.block(s.finalbody, hs)
                return done
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                states = self.expr(d, states)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    states = self.expr(d, states)
            return [(a | {s.name}, f.kill(s.name)) for a, f in states]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            ns = {(a.asname or a.name).split(".")[0] for a in s.names}
            return [(a | ns, f) for a, f in states]
        if isinstance(s, ast.Break):
            self.jumps[-1][0].extend(states)
            return []
        if isinstance(s, ast.Continue):
            self.jumps[-1][1].extend(states)
            return []
        if isinstance(s, ast.Delete):
            for t in s.targets:
                states = self.expr(t, states) if not isinstance(t, ast.Name) else states
                if isinstance(t, ast.Name):
                    self.read(t, states)
                    states = [(a - {t.id}, f.kill(t.id)) for a, f in states]
            return states
        if isinstance(s, ast.Match):
            states = self.expr(s.subject, states)
            out = []
            for c in s.cases:
                ns = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                out += self.block(c.body, [(a | ns, f) for a, f in states])
            return out or states
        return states

    jumps = []

    def loop(self, s, states, enter, varying, endless=False):
        assigned = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.loops.append((varying, assigned | varying))
        self.jumps = self.jumps + [([], [])]
        st = enter([(a, self.drop(f, assigned | varying)) for a, f in states])
        first = self.block(s.body, st)
        brk, cont = self.jumps[-1]
        after = self.merge(first + cont)
        # further iterations may take other branches: they start with what the first one left
        if after:
            again = enter([(a, self.drop(f, assigned | varying)) for a, f in after])
            if again:
                more = self.block(s.body, again)
                after = self.merge(after + more + self.jumps[-1][1])
        brk = self.jumps[-1][0]
        self.jumps = self.jumps[:-1]
        self.loops.pop()
        # what an iteration assigns only under a condition that changes between iterations may have been assigned by another one
        vary = assigned | varying

        def settle(states):
            return [(a | assigned if any(ns & vary for _, ns in f.conds.values()) else a, self.drop(f, vary)) for a, f in states]
        after, brk = settle(after), settle(brk)
        out = self.block(s.orelse, after) if s.orelse and after else ([] if endless else after)
        return self.merge(out + [(a, f) for a, f in brk])

    @staticmethod
    def drop(f, names):
        for n in names:
            f = f.kill(n)
        return f
