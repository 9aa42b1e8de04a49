"""Abstract interpretation of the Cython kernels.

The ``.pyx`` source is turned into a Python syntax tree with the C types as annotations.  Kernels are interpreted over symbolic
sizes: a loop with a symbolic range is executed once for a generic iteration and its array writes are generalised over the loop
variable (element-wise writes exactly, anything else to the set of sources the row depends on).  64-bit values are terms over
wrapping arithmetic, floating point values carry intervals with symbolic ends.
"""
from __future__ import annotations

import ast
import re

import poly as P
from poly import Poly


class Unsup(Exception):
    pass


class KRaise(Exception):
    """the kernel raises a Python exception"""


# ---------------------------------------------------------------- source -> ast
TYPES = {"int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "unsigned int": (0, 2**32 - 1), "short": (-2**15, 2**15 - 1),
         "Py_ssize_t": (-2**63, 2**63 - 1), "ssize_t": (-2**63, 2**63 - 1), "long": (-2**63, 2**63 - 1), "size_t": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1),
         "uint64": (0, 2**64 - 1), "unsigned long long": (0, 2**64 - 1), "unsigned long long int": (0, 2**64 - 1), "unsigned long": (0, 2**64 - 1),
         "char": (-128, 127), "bint": (0, 1), "unsigned short": (0, 2**16 - 1), "unsigned char": (0, 255), "double": None, "float": None}
TYPE_RE = r"(?:(?:unsigned|signed|const)\s+)*(?:long\s+long\s+int|long\s+long|long\s+int|[A-Za-z_][\w.]*)(?:\s*\[[:,\s\d]*\])?"


def _join_lines(src):
    """logical lines: continuation lines inside brackets are joined"""
    out, cur, depth = [], "", 0
    for line in src.split("\n"):
        code = re.sub(r"#.*$", "", line) if '"""' not in line else line
        cur = cur + (" " + code.strip() if cur else code)
        depth = cur.count("(") + cur.count("[") + cur.count("{") - cur.count(")") - cur.count("]") - cur.count("}")
        out.append((cur.rstrip(), depth))
        if depth <= 0:
            yield cur.rstrip(), cur.count("\n")
            cur = ""
    if cur:
        yield cur, 0


def _split_args(s):
    out, cur, depth = [], "", 0
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _expr(s):
    s = re.sub(r"<\s*((?:unsigned\s+|long\s+)*\w+(?:\s*\[[:,\s]*\])?)\s*>\s*(?=[\w(\-&])", lambda m: "__cast_" + re.sub(r"\W+", "_", m[1].strip()) + "__ ** ", s) if re.search(r"<\s*(?:unsigned\s+|long\s+)*[A-Za-z_]\w*(?:\s*\[[:,\s]*\])?\s*>", s) else s
    s = re.sub(r"(?<=[(,])\s*&\s*(\w+)", r' __addr__("\1")', s)
    return s


def _typename(t):
    t = re.sub(r"\s+", " ", t.strip())
    return re.sub(r"\bconst ", "", t)


def strip(src):
    """Cython source -> Python source with the C types as string annotations"""
    typedefs = {}
    # doc strings and comments out first (keeps line numbers)
    src = re.sub(r'("""|\'\'\')(.*?)\1', lambda m: '""' + "\n" * m[2].count("\n"), src, flags=re.S)
    lines = src.split("\n")
    out = []
    i = 0
    directives = {}
    for line in lines[:20]:
        m = re.match(r"#\s*cython:\s*(.*)", line)
        if m:
            for d in m[1].split(","):
                if "=" in d:
                    k, v = d.split("=", 1)
                    directives[k.strip()] = v.strip()
    while i < len(lines):
        line = re.sub(r"#.*$", "", lines[i]).rstrip()
        n = 1
        while line and (line.count("(") + line.count("[") + line.count("{") > line.count(")") + line.count("]") + line.count("}") or line.endswith("\\")) and i + n < len(lines):
            line = line.rstrip("\\") + " " + re.sub(r"#.*$", "", lines[i + n]).strip()
            n += 1
        ind = re.match(r"\s*", line)[0]
        body = line.strip()
        pad = [""] * (n - 1)
        i += n
        m = re.match(r"ctypedef\s+(.+?)\s+(\w+)$", body)
        if m:
            typedefs[m[2]] = _typename(m[1])
            out += [""] + pad
            continue
        if re.match(r"(cimport\b|from\s+[\w.]+\s+cimport\b|np\.import_array|include\b|import\b|from\b)", body):
            out += [ind + "pass" if ind else ""] + pad
            continue
        m = re.match(r"(?:cdef|cpdef|def)\s+(?:inline\s+)?(?:(" + TYPE_RE + r")\s+)?(?:inline\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except\s*[-+*?\w]*|\s)*(?:->\s*[\w\[\]:., ]+)?:\s*(.*)$", body)
        if m and not body.startswith("def ") or (m and body.startswith("def ")):
            ps = []
            for a in _split_args(m[3]):
                a = a.strip()
                default = ""
                mm = re.match(r"(.*?)\s*=\s*(.*)$", a)
                if mm:
                    a, default = mm[1].strip(), " = " + _expr(mm[2])
                if a.startswith("*"):
                    ps.append(a)
                    continue
                mm = re.match(r"(\w+)\s*:\s*(.+)$", a)
                if mm:
                    ps.append(mm[1] + default)
                    continue
                mm = re.match(r"(.+?)\s*\b(\w+)$", a)
                ps.append(f"{mm[2]}: {_typename(mm[1])!r}{default}" if mm and mm[1].strip() else a + default)
            out += [f"{ind}def {m[2]}({', '.join(ps)}){' -> ' + repr(_typename(m[1])) if m[1] else ''}: {_expr(m[4])}".rstrip()] + pad
            continue
        m = re.match(r"cdef\s+(" + TYPE_RE + r")\s+(.+)$", body)
        if m:
            parts = []
            for a in _split_args(m[2]):
                mm = re.match(r"\s*(\w+)\s*=\s*(.*)$", a)
                if mm:
                    parts.append(f"{mm[1]}: {_typename(m[1])!r} = {_expr(mm[2])}")
                else:
                    parts.append(f"{a.strip()}: {_typename(m[1])!r}")
            out += [ind + "; ".join(parts)] + pad
            continue
        m = re.match(r"with\s+(nogil|gil)\b.*:$", body)
        if m:
            out += [ind + "if True:"] + pad
            continue
        out += [ind + _expr(body)] + pad
    return "\n".join(out) + "\n", typedefs, directives


class Counting(ast.NodeTransformer):
    """while i < n: ...; i += 1   as a for loop, when nothing else moves i or n in the body"""

    def visit_While(self, st):
        self.generic_visit(st)
        t = st.test
        if st.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return st
        lo, op, hi = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            lo, hi, op = hi, lo, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        last = st.body[-1]
        if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(lo, ast.Name):
            return st
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and ast.unparse(last.target) == lo.id and ast.unparse(last.value) == "1" or \
            isinstance(last, ast.Assign) and ast.unparse(last) in (f"{lo.id} = {lo.id} + 1", f"{lo.id} = 1 + {lo.id}")
        body = st.body[:-1]
        moved = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if not step or not body or lo.id in moved or {n.id for n in ast.walk(hi) if isinstance(n, ast.Name)} & (moved | {lo.id}) \
                or any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) or isinstance(n, ast.Call) and ast.unparse(n.func) == "__addr__" for s in body for n in ast.walk(s)):
            return st
        if isinstance(op, ast.LtE):
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        new = ast.For(ast.Name(lo.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(lo.id, ast.Load()), hi], []), body, [])
        return ast.copy_location(new, st)


class Module:
    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        src = open(path).read()
        self.text, self.typedefs, self.directives = strip(src)
        try:
            self.tree = ast.parse(self.text)
        except SyntaxError as e:
            raise Unsup(f"{rel}:{e.lineno}: not understood: {e.text}")
        self.tree = ast.fix_missing_locations(Counting().visit(self.tree))
        self.funcs = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.globals = {}
        for n in self.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and n.value is not None:
                    self.globals[t.id] = n.value

    def ctype(self, t):
        t = _typename(t)
        m = re.match(r"(.*?)\s*(\[.*\])$", t)
        base, view = (m[1], m[2]) if m else (t, None)
        for _ in range(4):
            base = self.typedefs.get(base, base)
        base = {"long long int": "long long", "long int": "long", "unsigned long int": "unsigned long", "np.int64_t": "long", "np.uint64_t": "uint64",
                "np.float64_t": "double", "np.int32_t": "int", "np.int16_t": "short", "np.uint32_t": "unsigned int", "uint64_t": "uint64", "int64_t": "long", "int32_t": "int"}.get(base, base)
        if base in ("unsigned long long", "unsigned long long int", "unsigned long"):
            base = "uint64"
        return base, view

    def boundscheck(self, fn):
        v = self.directives.get("boundscheck", "True") != "False"
        for d in fn.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("boundscheck"):
                v = bool(ast.literal_eval(d.args[0]))
        return v

    def wraparound(self, fn):
        v = self.directives.get("wraparound", "True") != "False"
        for d in fn.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("wraparound"):
                v = bool(ast.literal_eval(d.args[0]))
        return v


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "args", "id")
    table = {}

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"


def mkT(op, *args):
    key = (op,) + tuple(("T", a.id) if isinstance(a, T) else ("P", a.key) if isinstance(a, Poly) else a for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(T.table)
        T.table[key] = t
    return t


SYMDEP = {}      # name of a data dependent integer -> (term it comes from, lower bounds, upper bounds)
MAXV = {}        # name -> largest value
ATTAINED = set()


def reset():
    P.reset_ctx()
    T.table.clear()
    SYMDEP.clear()
    MAXV.clear()
    ATTAINED.clear()


MAXDEFAULT = 2**40


def maxof(p):
    """largest value of a polynomial with nonnegative symbols"""
    if isinstance(p, int):
        return p
    r = 0
    for m, c in p.t.items():
        if c < 0:
            continue
        v = c
        for n, e in m:
            v *= MAXV.get(n, MAXDEFAULT) ** e
        r += v
    return r


def data_int(term, los, his, attained=True):
    """an integer computed from data"""
    name = f"@{term.id}"
    known = name in P.CTX.syms
    s = P.new_sym(name, lo=0 if any(isinstance(x, int) and x >= 0 for x in los) else None, base=False)
    for x in los:
        P.add_fact(P.psub(s, x))
    for x in his:
        P.add_fact(P.psub(x, s))
    if not known:
        SYMDEP[name] = (term, tuple(los), tuple(his))
        MAXV[name] = min([maxof(x) for x in his] or [2**31 - 1])
        if attained:
            ATTAINED.add(name)
    return s


def psubst(p, name, q):
    if isinstance(p, int):
        return p
    out = 0
    for m, c in p.t.items():
        cur = c
        for n, e in m:
            f = q if n == name else Poly({((n, 1),): 1})
            for _ in range(e):
                cur = P.pmul(cur, f)
        out = P.padd(out, cur)
    return out


def subst(x, name, q, memo=None):
    """substitute the loop symbol `name` by the polynomial q"""
    memo = {} if memo is None else memo
    if isinstance(x, Poly):
        x = psubst(x, name, q)
        if isinstance(x, Poly):
            for n in x.symbols():
                if n in SYMDEP:
                    t, lo, hi = SYMDEP[n]
                    t2 = subst(t, name, q, memo)
                    if t2 is not t:
                        s = data_int(t2, [psubst(a, name, q) for a in lo], [psubst(a, name, q) for a in hi], n in ATTAINED)
                        x = psubst(x, n, s)
        return x
    if isinstance(x, T):
        r = memo.get(x.id)
        if r is None:
            args = tuple(subst(a, name, q, memo) for a in x.args)
            r = x if all(a is b for a, b in zip(args, x.args)) else mkT(x.op, *args)
            memo[x.id] = r
        return r
    if isinstance(x, frozenset):
        return frozenset(subst(a, name, q, memo) for a in x)
    if isinstance(x, V):
        return x.map(lambda y: subst(y, name, q, memo))
    return x


class V:
    """abstract scalar; kind i (exact integer), u (term over wrapping arithmetic), d (floating point), b (truth value), o (Python object)"""
    __slots__ = ("kind", "x", "ctype", "lo", "hi", "strict", "nz")

    def __init__(self, kind, x, ctype="object", lo=None, hi=None, strict=False, nz=False):
        self.kind, self.x, self.ctype, self.lo, self.hi, self.strict, self.nz = kind, x, ctype, lo, hi, strict, nz

    def map(self, f):
        return V(self.kind, f(self.x), self.ctype, f(self.lo), f(self.hi), self.strict, self.nz)

    def term(self):
        if self.kind == "i":
            return mkT("p", self.x)
        if isinstance(self.x, T):
            return self.x
        raise Unsup("value is not a term")

    def __repr__(self):
        return f"<{self.kind} {self.x}>"


class Store:
    """the memory of an array: row-major factors and the content as a function of the factor positions"""

    def __init__(self, name, factors, ctype):
        self.name, self.factors, self.ctype = name, list(factors), ctype
        self.params = [f"${name}.{k}" for k in range(len(factors))]
        self.value = None       # V over the symbols in params
        self.cells = {}         # exact cells (all factor positions concrete)
        self.dead = None

    def at(self, pos):
        if self.dead:
            raise Unsup(self.dead)
        key = tuple(pos)
        if all(isinstance(p, int) for p in key) and key in self.cells:
            return self.cells[key]
        if self.cells and not all(isinstance(p, int) for p in key):
            raise Unsup(f"symbolic access to the cells of {self.name}")
        if self.value is None:
            raise Unsup(f"content of {self.name}")
        v = self.value
        # simultaneous substitution through fresh names
        for k, n in enumerate(self.params):
            v = subst(v, n, P.new_sym(f"~{k}", lo=None, base=False))
        for k, p in enumerate(pos):
            v = subst(v, f"~{k}", p)
        return v


class Arr:
    """a view: every dimension is a group of factors of the store; fixed factors are positions"""

    def __init__(self, store, dims, fixed=None, offset=None):
        self.store, self.dims = store, dims          # dims: list of tuples of factor numbers
        self.fixed = dict(fixed or {})
        self.offset = dict(offset or {})             # factor -> (start, length)

    def extent(self, k):
        r = 1
        for f in self.dims[k]:
            r = P.pmul(r, self.offset[f][1] if f in self.offset else self.store.factors[f])
        return r

    @property
    def shape(self):
        return [self.extent(k) for k in range(len(self.dims))]


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.vars, self.types = {}, {}


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Loop:
    def __init__(self, names, lo, hi):
        self.names, self.lo, self.hi = names, lo, hi
        self.writes, self.reads = [], []     # (store, pos, value, line) / (store, pos, value, line)


class Kernel:
    def __init__(self, mod, rec, values=False, rows=()):
        self.mod, self.rec, self.values, self.rows = mod, rec, values, rows
        self.frames, self.loops = [], []
        self.n = 0
        self.line = 0
        self.visited = set()
        self.memo = {}
        self.noted = set()

    # ---------------------------------------------------------- reporting
    def loc(self, line=None):
        f = self.frames[-1].fn.name if self.frames else ""
        return f"{self.mod.rel}:{line or self.line} in {f}"

    def note(self, status, label, detail=""):
        key = (status, label, self.loc(), detail)
        if key in self.noted:
            return
        self.noted.add(key)
        self.rec(status, label, detail, self.loc())

    # ---------------------------------------------------------- calls
    def call(self, name, args):
        fn = self.mod.funcs[name]
        self.visited.add(f"{self.mod.rel}:{name}")
        if len(self.frames) > 20:
            raise Unsup("recursion")
        fr = Frame(fn)
        params = [a.arg for a in fn.args.args]
        defaults = fn.args.defaults
        if len(args) > len(params) or len(args) < len(params) - len(defaults):
            raise Unsup(f"{name} takes {len(params)} arguments")
        self.frames.append(fr)
        try:
            for k, a in enumerate(fn.args.args):
                v = args[k] if k < len(args) else self.ev(defaults[k - len(params) + len(defaults)])
                if a.annotation is not None:
                    t = ast.literal_eval(a.annotation)
                    fr.types[a.arg] = t
                    v = self.coerce(t, v, a.arg)
                fr.vars[a.arg] = v
            try:
                self.block(fn.body)
            except Ret as r:
                v = r.v
                if fn.returns is not None:
                    v = self.coerce(ast.literal_eval(fn.returns), v, f"result of {name}")
                return v
            return None
        finally:
            self.frames.pop()

    # ---------------------------------------------------------- types
    @staticmethod
    def maxof(p):
        return maxof(p)

    def upper(self, los, his):
        xs = [self.maxof(x) for x in his]
        return min(xs) if xs else 2**31 - 1

    def fits(self, t, v, what):
        """an exact integer stored in C type t"""
        rng = TYPES.get(t)
        if rng is None or v.kind != "i":
            return
        if v.ctype == "object":
            return            # the conversion of a Python integer is checked by Cython
        if v.ctype == t:
            return
        if self.maxof(v.x) > rng[1]:
            self.note("violation" if what.split()[-1] in self.index_names() else "data", f"width {what}", f"{what}: {v.x!r} does not fit into {t}")
            return False
        self.note("ok", f"width {what}")

    def coerce(self, t, v, what):
        base, view = self.mod.ctype(t)
        if view is not None or base.startswith("np.ndarray"):
            if v is None:
                return v
            if not isinstance(v, Arr):
                raise Unsup(f"{what} is not an array")
            return v
        if not isinstance(v, V):
            if base in TYPES:
                raise Unsup(f"{what} is not a number")
            return v
        if base in ("double", "float"):
            if v.kind == "d":
                return v
            if v.kind == "i":
                return V("d", mkT("float", v.term()), base, v.x, v.x)
            return V("d", mkT("float", v.term()), base)
        rng = TYPES.get(base)
        if rng is None:
            return v
        if v.kind == "d":
            raise Unsup("implicit conversion of a float")
        if v.kind == "u":
            if base in ("uint64", "size_t"):
                return V("u", v.x, base)
            if rng[1] < 2**62:
                bits = (rng[1] - rng[0] + 1).bit_length() - 1
                return V("u", mkT("trunc", bits, v.x), base)
            return V("u", v.x, base)
        if v.kind == "b":
            raise Unsup("truth value as a number")
        if self.fits(base, v, what) is False and self.values and what not in self.index_names():
            return V("u", mkT("trunc", (rng[1] - rng[0] + 1).bit_length() - 1, v.term()), base)
        return V("i", v.x, base)

    def index_names(self):
        """names that size or index memory in the current function"""
        fn = self.frames[-1].fn
        r = self.memo.get(fn.name)
        if r is None:
            r = set()

            def add(e):
                r.update(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
            for n in ast.walk(fn):
                if isinstance(n, ast.Subscript):
                    add(n.slice)
                if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("range", "prange", "empty", "zeros", "ones", "arange", "reshape"):
                    for a in n.args:
                        if not (isinstance(a, ast.Name) and ast.unparse(n.func).split(".")[-1] == "reshape" and a is n.args[0]):
                            add(a)
            for _ in range(4):
                for n in ast.walk(fn):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        if any(isinstance(t, ast.Name) and t.id in r for t in ts):
                            add(n.value)
            self.memo[fn.name] = r
        return r

    # ---------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        self.line = getattr(st, "lineno", self.line)
        fr = self.frames[-1]
        if isinstance(st, ast.Expr):
            if not isinstance(st.value, ast.Constant):
                self.ev(st.value)
        elif isinstance(st, ast.Pass):
            pass
        elif isinstance(st, ast.AnnAssign):
            t = ast.literal_eval(st.annotation)
            fr.types[st.target.id] = t
            if st.value is not None:
                fr.vars[st.target.id] = self.coerce(t, self.ev(st.value), st.target.id)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v)
        elif isinstance(st, ast.AugAssign):
            cur = self.ev(ast.copy_location(_load(st.target), st))
            self.assign(st.target, self.bin(type(st.op).__name__, cur, self.ev(st.value)))
        elif isinstance(st, ast.Return):
            raise Ret(self.ev(st.value) if st.value else None)
        elif isinstance(st, ast.For):
            self.loop(st)
        elif isinstance(st, ast.If):
            self.branch(st)
        elif isinstance(st, ast.Raise):
            raise KRaise(ast.unparse(st.exc) if st.exc else "raise")
        elif isinstance(st, ast.Assert):
            raise Unsup("assert")
        else:
            raise Unsup(f"statement {type(st).__name__}")

    def assign(self, t, v):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if t.id in fr.types:
                v = self.coerce(fr.types[t.id], v, t.id)
            fr.vars[t.id] = v
        elif isinstance(t, ast.Subscript):
            self.store(self.ev(t.value), t.slice, v)
        elif isinstance(t, ast.Tuple):
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts):
                raise Unsup("unpacking")
            for a, b in zip(t.elts, v):
                self.assign(a, b)
        else:
            raise Unsup("assignment target")

    def cond(self, test):
        """(True/False/None, fact polys if true, fact polys if false, term)"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a, b = self.ev(test.left), self.ev(test.comparators[0])
            op = type(test.ops[0]).__name__
            if isinstance(a, V) and isinstance(b, V) and a.kind == b.kind == "i":
                x, y = a.x, b.x
                if op in ("Lt", "LtE"):
                    return self._ge(y, P.padd(x, 1) if op == "Lt" else x)
                if op in ("Gt", "GtE"):
                    return self._ge(x, P.padd(y, 1) if op == "Gt" else y)
                e = P.cmp_eq(x, y)
                t = mkT("eq", a.term(), b.term())
                if op == "Eq":
                    return e, [P.psub(x, y), P.psub(y, x)], [], t
                if op == "NotEq":
                    return (None if e is None else not e), [], [P.psub(x, y), P.psub(y, x)], t
            if isinstance(a, V) and isinstance(b, V):
                return None, [], [], mkT("cmp", op, a.term(), b.term())
            if op in ("Is", "IsNot"):
                r = (a is None) == (b is None) and (a is None or a is b)
                return (r if op == "Is" else not r), [], [], mkT("c", 0)
        if isinstance(test, ast.Constant):
            return bool(test.value), [], [], mkT("c", 0)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r, f, g, t = self.cond(test.operand)
            return (None if r is None else not r), g, f, t
        if isinstance(test, ast.BoolOp):
            rs = [self.cond(v) for v in test.values]
            t = mkT("bool", *[r[3] for r in rs])
            if isinstance(test.op, ast.And):
                if any(r[0] is False for r in rs):
                    return False, [], [], t
                if all(r[0] is True for r in rs):
                    return True, [], [], t
                return None, [f for r in rs for f in r[1]], [], t
            if any(r[0] is True for r in rs):
                return True, [], [], t
            if all(r[0] is False for r in rs):
                return False, [], [], t
            return None, [], [f for r in rs for f in r[2]], t
        v = self.ev(test)
        if isinstance(v, V) and v.kind == "i":
            e = P.cmp_eq(v.x, 0)
            return (None if e is None else not e), [], [v.x, P.pneg(v.x)], mkT("nz", v.term())
        if isinstance(v, V):
            return None, [], [], mkT("nz", v.term())
        raise Unsup("condition")

    def _ge(self, x, y):
        d = P.psub(x, y)
        return P.cmp_ge(x, y), [d], [P.psub(-1, d)], mkT("ge", mkT("p", x), mkT("p", y))

    def branch(self, st):
        r, ft, ff, term = self.cond(st.test)
        if r is True:
            return self.block(st.body)
        if r is False:
            return self.block(st.orelse)
        base = [(f, dict(f.vars)) for f in self.frames]
        facts = list(P.CTX.facts)
        nw = [(len(l.writes), len(l.reads)) for l in self.loops]
        outs = []
        for body, fs, truth in ((st.body, ft, True), (st.orelse, ff, False)):
            P.CTX.facts = list(facts)
            for f in fs:
                if isinstance(f, int):
                    continue
                P.add_fact(f)
            for f, vs in base:
                f.vars = dict(vs)
            self.refine(st.test, truth)
            ret = None
            marks = [len(l.writes) for l in self.loops]
            try:
                self.block(body)
            except Ret as e:
                ret = e
            except KRaise as e:
                ret = e
            w = [l.writes[m:] for l, m in zip(self.loops, marks)]
            for l, m in zip(self.loops, marks):
                del l.writes[m:]
            outs.append((ret, dict(self.frames[-1].vars), list(P.CTX.facts), w))
        (r1, v1, f1, w1), (r2, v2, f2, w2) = outs
        if isinstance(r1, KRaise) and isinstance(r2, KRaise):
            raise r1
        if isinstance(r1, KRaise) or isinstance(r2, KRaise):
            # the other branch goes on, under its facts
            k = 1 if isinstance(r1, KRaise) else 0
            ret, vs, fs, w = outs[k]
            P.CTX.facts = fs
            self.frames[-1].vars = vs
            for l, x in zip(self.loops, w):
                l.writes += x
            if ret is not None:
                raise ret
            return
        if r1 is not None or r2 is not None:
            raise Unsup("return under a data dependent condition")
        P.CTX.facts = list(facts)
        vs = {}
        for n in set(v1) | set(v2):
            if n not in v1 or n not in v2:
                continue
            vs[n] = self.join(term, v1[n], v2[n], f1, f2)
        self.frames[-1].vars = vs
        for l, a, b in zip(self.loops, w1, w2):
            # conditional writes: the old value stays otherwise
            done = set()
            for side, ws, other in ((0, a, b), (1, b, a)):
                for s, pos, v, line in ws:
                    k = (id(s), tuple(map(P.pkey, pos)))
                    if k in done:
                        continue
                    done.add(k)
                    mine = [x for x in ws if x[0] is s and self.same(x[1], pos)][-1][2]
                    o = [x for x in other if x[0] is s and self.same(x[1], pos)]
                    old = o[-1][2] if o else self.read(s, pos)
                    x, y = (mine, old) if side == 0 else (old, mine)
                    l.writes.append((s, pos, self.join(term, x, y, f1, f2), line))
        if not self.loops and any(w1 + w2):
            raise Unsup("conditional array write")

    def join(self, term, a, b, f1, f2):
        if a is b:
            return a
        if not isinstance(a, V) or not isinstance(b, V):
            if isinstance(a, Arr) and isinstance(b, Arr) and a.store is b.store:
                return a
            raise Unsup("values of different branches")
        if a.kind == b.kind and P.pkey(a.x) == P.pkey(b.x) and a.ctype == b.ctype:
            return a
        t = mkT("phi", term, a.term(), b.term())
        if a.kind == "i" and b.kind == "i":
            cands = [0, a.x, b.x, P.psub(a.x, 1), P.psub(b.x, 1)]
            for fr in self.frames[-1:]:
                for v in fr.vars.values():
                    if isinstance(v, V) and v.kind == "i":
                        cands += [v.x, P.psub(v.x, 1)]
            los, his = [], []
            keep = P.CTX.facts
            for c in cands:
                if isinstance(c, Poly) and any(n in SYMDEP for n in c.symbols()):
                    continue
                ok = []
                for v, f in ((a.x, f1), (b.x, f2)):
                    P.CTX.facts = f
                    ok.append((P.nonneg(P.psub(v, c)), P.nonneg(P.psub(c, v))))
                if all(o[0] for o in ok) and c not in los:
                    los.append(c)
                if all(o[1] for o in ok) and c not in his:
                    his.append(c)
            P.CTX.facts = keep
            return V("i", data_int(t, los, his, attained=False), a.ctype)
        if a.kind == "d" or b.kind == "d":
            lo = hi = None
            if a.lo is not None and b.lo is not None:
                lo = a.lo if P.cmp_ge(b.lo, a.lo) else b.lo if P.cmp_ge(a.lo, b.lo) else None
            if a.hi is not None and b.hi is not None:
                hi = a.hi if P.cmp_ge(a.hi, b.hi) else b.hi if P.cmp_ge(b.hi, a.hi) else None
            return V("d", t, "double", lo, hi, a.strict and (b.strict or isinstance(b.hi, int) and isinstance(a.hi, int) and b.hi < a.hi), self.nonzero(a) and self.nonzero(b))
        return V("u", t, a.ctype)

    @staticmethod
    def nonzero(v):
        return v.nz or (v.kind == "i" and P.cmp_eq(v.x, 0) is False) or (v.lo is not None and P.nonneg(P.psub(v.lo, 1)))

    def refine(self, test, truth):
        """facts about floating point variables in a branch: x == 0, x <= 0, x != 0, x > 0"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not truth)
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return
        a, b, op = test.left, test.comparators[0], type(test.ops[0]).__name__
        if isinstance(b, ast.Name) and isinstance(a, ast.Constant):
            a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if not (isinstance(a, ast.Name) and isinstance(b, ast.Constant) and isinstance(b.value, (int, float)) and not isinstance(b.value, bool)):
            return
        vs = self.frames[-1].vars
        v = vs.get(a.id)
        if isinstance(v, V) and v.kind == "d":
            c = b.value
            away = (c == 0 and (op, truth) in (("Eq", False), ("NotEq", True), ("Gt", True), ("LtE", False), ("Lt", True), ("GtE", False))) or \
                (c > 0 and (op, truth) in (("Gt", True), ("GtE", True), ("Lt", False), ("LtE", False)))
            if away:
                vs[a.id] = V("d", v.x, v.ctype, v.lo, v.hi, v.strict, True)

    # ---------------------------------------------------------- loops
    def loop(self, st):
        it = st.iter
        if st.orelse or not isinstance(it, ast.Call) or ast.unparse(it.func).split(".")[-1] not in ("range", "prange") or not isinstance(st.target, ast.Name):
            raise Unsup("loop form")
        args = [self.ev(a) for a in it.args]
        if any(not isinstance(a, V) or a.kind != "i" for a in args):
            raise Unsup("loop bounds")
        lo, hi, step = (0, args[0].x, 1) if len(args) == 1 else (args[0].x, args[1].x, args[2].x if len(args) == 3 else 1)
        if step not in (1, -1):
            raise Unsup("loop step")
        fr = self.frames[-1]
        name = st.target.id
        if isinstance(lo, int) and isinstance(hi, int):
            if abs(hi - lo) > 64:
                raise Unsup("long loop")
            for k in range(lo, hi, step):
                fr.vars[name] = V("i", k, self.vtype(name))
                self.block(st.body)
            return
        if step == -1:
            lo, hi = P.padd(hi, 1), P.padd(lo, 1)
        bound = args[0] if len(args) == 1 else args[1]
        if name in fr.types:
            self.fits(self.mod.ctype(fr.types[name])[0], V("i", bound.x, bound.ctype if bound.ctype != self.mod.ctype(fr.types[name])[0] else "object"), f"loop variable {name}")
        # generic iteration
        facts = list(P.CTX.facts)
        syms, val = self.generic(lo, hi)
        L = Loop(syms, lo, hi)
        self.loops.append(L)
        before = dict(fr.vars)
        assigned = {n.id for n in ast.walk(ast.Module(st.body, [])) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {name}
        for n in ast.walk(ast.Module(st.body, [])):
            if isinstance(n, ast.Call) and ast.unparse(n.func) == "__addr__":
                assigned.add(n.args[0].value)
        # scalars carried from one iteration to the next
        first = _first_use(st.body)
        carried = [n for n in assigned if n in fr.vars and n != name and first.get(n) == "read"]
        for n in carried:
            v = fr.vars[n]
            if isinstance(v, Arr):
                continue
            deps = mkT("carried", n, self.line)
            if isinstance(v, V) and v.kind == "i":
                fr.vars[n] = V("i", data_int(deps, [], [], attained=False), v.ctype)
            elif isinstance(v, V):
                fr.vars[n] = V(v.kind, deps, v.ctype)
        fr.vars[name] = V("i", val, self.vtype(name))
        try:
            self.block(st.body)
        finally:
            self.loops.pop()
            P.CTX.facts = facts
        self.close(L)
        for n in assigned:
            if n in fr.vars:
                v = fr.vars[n]
                if isinstance(v, V):
                    # the value of some iteration, or the one before
                    t = mkT("after", n, self.line, mkT("set", *[v.term()] + ([before[n].term()] if isinstance(before.get(n), V) else [])))
                    fr.vars[n] = V("i", data_int(t, [], [], attained=False), v.ctype) if v.kind == "i" else V(v.kind, t, v.ctype)
                elif n not in before:
                    del fr.vars[n]

    def vtype(self, name):
        t = self.frames[-1].types.get(name)
        return self.mod.ctype(t)[0] if t else "object"

    def generic(self, lo, hi):
        """(loop symbols with ranges, value of the loop variable)"""
        ext = P.psub(hi, lo)
        if isinstance(ext, Poly) and len(ext.t) == 1 and lo == 0:
            (m, c), = ext.t.items()
            if c == 1 and sum(e for _, e in m) > 1:
                # a flat loop over an array with several factors
                for st in self.stores():
                    p = 1
                    for f in st.factors:
                        p = P.pmul(p, f)
                    if len(st.factors) > 1 and P.peq(p, ext):
                        syms, val = [], 0
                        for k, f in enumerate(st.factors):
                            s = self.fresh(0, f)
                            rest = 1
                            for g in st.factors[k + 1:]:
                                rest = P.pmul(rest, g)
                            val = P.padd(val, P.pmul(s, rest))
                            syms.append((next(iter(s.symbols())), s, 0, f))
                        return syms, val
        s = self.fresh(lo, hi)
        return [(next(iter(s.symbols())), s, lo, hi)], s

    def stores(self):
        out = []
        for f in self.frames:
            for v in f.vars.values():
                if isinstance(v, Arr) and v.store not in out:
                    out.append(v.store)
        return out

    def fresh(self, lo, hi):
        self.n += 1
        name = f"i{self.n}"
        s = P.new_sym(name, lo=lo if isinstance(lo, int) else 0, base=False)
        MAXV[name] = max(0, self.maxof(hi) - 1)
        if not isinstance(lo, int):
            P.add_fact(P.psub(s, lo))
        P.add_fact(P.psub(P.psub(hi, 1), s))
        return s

    @staticmethod
    def same(p, q):
        return len(p) == len(q) and all((not isinstance(a, tuple) and not isinstance(b, tuple) and P.peq(a, b)) or
                                        (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ("all", "any")) for a, b in zip(p, q))

    def close(self, L):
        """generalise the writes of a finished loop"""
        names = {s[0] for s in L.names}
        by = {}
        for w in L.writes:
            by.setdefault(id(w[0]), []).append(w)
        for sid, ws in by.items():
            st = ws[0][0]
            reads = [r for r in L.reads if r[0] is st]
            pos = ws[0][1]
            v = ws[-1][2]
            single = all(self.same(w[1], pos) for w in ws) and all(self.same(r[1], pos) for r in reads)
            newpos, free = list(pos), set()
            if single:
                for k, p in enumerate(pos):
                    if isinstance(p, tuple):
                        continue
                    if isinstance(p, Poly) and p.symbols() & names:
                        hit = [s for s in L.names if P.peq(p, s[1])]
                        if hit and P.peq(hit[0][2], 0) and P.peq(hit[0][3], st.factors[k]) and hit[0][0] not in free:
                            free.add(hit[0][0])
                            newpos[k] = ("all", hit[0][0])
                        else:
                            single = False
                # all loop symbols must appear, else the same cell is written repeatedly
                if single and free != names:
                    if free or not all(not isinstance(x, Poly) or not (x.symbols() & names) for x in newpos if not isinstance(x, tuple)):
                        single = False
                    else:
                        single = False
            if single:
                self.write_out(st, newpos, v, ws[-1][3], exact=True)
                continue
            # fallback: the positions not depending on the loop variable stay, the others become a row with sources
            common = []
            for k in range(len(st.factors)):
                ps = [w[1][k] for w in ws] + [r[1][k] for r in reads]
                p0 = ps[0]
                if not isinstance(p0, tuple) and all(not isinstance(q, tuple) and P.peq(q, p0) for q in ps) and not (isinstance(p0, Poly) and p0.symbols() & names):
                    common.append(p0)
                elif not isinstance(p0, tuple) and all(not isinstance(q, tuple) and P.peq(q, p0) for q in ps) and isinstance(p0, Poly) and \
                        any(P.peq(p0, s[1]) and P.peq(s[2], 0) and P.peq(s[3], st.factors[k]) for s in L.names):
                    common.append(("all", [s[0] for s in L.names if P.peq(p0, s[1])][0]))
                else:
                    common.append(("any",))
            srcs = []
            for w in ws:
                srcs.append(w[2].term())
                for p, c in zip(w[1], common):
                    if isinstance(p, Poly) and isinstance(c, tuple):
                        srcs.append(mkT("p", p) if c[0] == "any" else mkT("c", 0))
            srcs += [r[2].term() for r in reads]
            old = self.old_row(st, common)
            if old is not None:
                srcs.append(old)
            v = V(ws[-1][2].kind if ws[-1][2].kind != "i" else "u", mkT("row", *sorted(set(srcs), key=lambda t: t.id)), ws[-1][2].ctype)
            self.write_out(st, common, v, ws[-1][3], exact=False)
        if self.loops:
            out = self.loops[-1]
            for st, pos, v, line in L.reads:
                q = []
                for k, p in enumerate(pos):
                    if isinstance(p, Poly) and p.symbols() & names:
                        hit = [s for s in L.names if P.peq(p, s[1])]
                        q.append(("all", hit[0][0]) if hit and P.peq(hit[0][2], 0) and P.peq(hit[0][3], st.factors[k]) else ("any",))
                    else:
                        q.append(p)
                out.reads.append((st, tuple(q), v, line))

    def old_row(self, st, pos):
        q = []
        for k, p in enumerate(pos):
            q.append(P.new_sym(st.params[k], lo=0, base=False) if isinstance(p, tuple) and p[0] == "any" else
                     P.new_sym(p[1], lo=0, base=False) if isinstance(p, tuple) else p)
        try:
            return self.raw(st, q).term()
        except Unsup:
            return None

    def write_out(self, st, pos, v, line, exact):
        if self.loops:
            self.loops[-1].writes.append((st, tuple(pos), v, line))
        else:
            self.commit(st, pos, v)

    def commit(self, st, pos, v):
        """a write that happens once: pos entries are concrete positions, ("all", sym) or ("any",)"""
        if all(isinstance(p, tuple) for p in pos):
            for k, p in enumerate(pos):
                if p[0] == "all":
                    v = subst(v, p[1], P.new_sym(st.params[k], lo=0, base=False))
            st.value = v
            st.cells = {}
            return
        if all(isinstance(p, int) for p in pos):
            st.cells[tuple(pos)] = v
            return
        # partial writes
        if all(isinstance(f, int) for f in st.factors) or any(isinstance(p, Poly) for p in pos):
            raise Unsup("partial array write")
        if st.value is None and not st.cells:
            raise Unsup("partial write of an empty array")
        t = mkT("row", *sorted({v.term()} | ({st.value.term()} if st.value is not None else set()), key=lambda t: t.id))
        st.value = V("u" if v.kind == "i" else v.kind, t, v.ctype)

    # ---------------------------------------------------------- array access
    def position(self, arr, idx):
        """indices (one per dimension) -> positions per factor"""
        st = arr.store
        pos = [None] * len(st.factors)
        for f, p in arr.fixed.items():
            pos[f] = p
        fn = self.frames[-1].fn
        checked = self.mod.boundscheck(fn)
        for k, p in enumerate(idx):
            ext = arr.extent(k)
            self.bounds(arr, k, p, ext, checked)
            if isinstance(p, int) and p < 0 and self.mod.wraparound(fn):
                p = P.padd(ext, p)
            fs = arr.dims[k]
            rest = p
            for n, f in enumerate(fs):
                size = 1
                for g in fs[n + 1:]:
                    size = P.pmul(size, st.factors[g])
                if n == len(fs) - 1:
                    q = rest
                else:
                    q, rest = self.divide(rest, size)
                if f in arr.offset:
                    q = P.padd(q, arr.offset[f][0])
                pos[f] = q
        return pos

    def divide(self, p, size):
        """p = q*size + r with 0 <= r < size"""
        if isinstance(p, int) and isinstance(size, int):
            return p // size, p % size
        if not isinstance(p, int) and isinstance(size, Poly) and len(size.t) == 1:
            (m, c), = size.t.items()
            q, r = {}, {}
            for mm, k in p.t.items():
                d = dict(mm)
                if c == 1 and all(d.get(n, 0) >= e for n, e in m):
                    for n, e in m:
                        d[n] -= e
                        if not d[n]:
                            del d[n]
                    q[tuple(sorted(d.items()))] = k
                else:
                    r[mm] = k
            q, r = P.mk(q), P.mk(r)
            if P.nonneg(r) and P.nonneg(P.psub(P.psub(size, 1), r), 5):
                return q, r
            return ("div", q, r), ("mod", r)
        if P.nonneg(p) and P.nonneg(P.psub(P.psub(size, 1), p)):
            return 0, p
        return ("div", p, 0), ("mod", p)

    def bounds(self, arr, k, p, ext, checked):
        label = "access"
        if checked:
            return
        wrap = self.mod.wraparound(self.frames[-1].fn)
        lo = P.psub(p, 0) if not wrap else P.padd(p, ext)
        up = P.psub(P.psub(ext, 1), p)
        if P.nonneg(up, 5) and (P.nonneg(p) or (wrap and P.nonneg(lo))) or self.inside(arr, k, p):
            self.note("ok", label)
            return
        w = self.witness(p, ext, wrap)
        if w:
            self.note("violation", label, f"index {p!r} of {arr.store.name} with extent {ext!r} can be out of bounds: {w}")
        else:
            self.note("undet", label, f"index {p!r} of {arr.store.name} with extent {ext!r}")

    def inside(self, arr, k, p):
        """row-major position of a flat dimension: every part is inside its factor"""
        fs = arr.dims[k]
        if len(fs) < 2 or any(f in arr.offset for f in fs):
            return False
        rest = p
        for n, f in enumerate(fs):
            size = 1
            for g in fs[n + 1:]:
                size = P.pmul(size, arr.store.factors[g])
            if n == len(fs) - 1:
                q = rest
            else:
                q, rest = self.divide(rest, size)
                if isinstance(q, tuple):
                    return False
            if not (P.nonneg(q) and P.nonneg(P.psub(P.psub(arr.store.factors[f], 1), q), 5)):
                return False
        return True

    def witness(self, p, ext, wrap):
        """small values of the sizes that satisfy all facts and put the index outside"""
        import itertools
        syms = set()
        todo = [p, ext]
        rel = list(P.CTX.facts)
        while todo:
            x = todo.pop()
            if isinstance(x, Poly):
                for n in x.symbols() - syms:
                    syms.add(n)
                    for f in rel:
                        if n in f.symbols():
                            todo.append(f)
        if any(n in SYMDEP and n not in ATTAINED for n in syms):
            return None
        syms = sorted(syms)
        if len(syms) > 7:
            return None
        top = 5 if len(syms) <= 5 else 3

        def val(x, env):
            if isinstance(x, int):
                return x
            r = 0
            for m, c in x.t.items():
                for n, e in m:
                    c *= env[n] ** e
                r += c
            return r
        facts = [f for f in rel if f.symbols() <= set(syms)]
        rng = [range(max(-2, P.CTX.syms[n].lo if P.CTX.syms[n].lo is not None else -2), top) for n in syms]
        for t in itertools.product(*rng):
            env = dict(zip(syms, t))
            if any(val(f, env) < 0 for f in facts):
                continue
            a, b = val(p, env), val(ext, env)
            if b < 0:
                continue
            if a >= b or a < (-b if wrap else 0):
                return ", ".join(f"{n}={v}" for n, v in env.items())
        return None

    def pending(self, st, pos):
        """value written earlier in this iteration"""
        for l in reversed(self.loops):
            for s, q, v, line in reversed(l.writes):
                if s is not st:
                    continue
                if self.same(q, tuple(pos)):
                    return v
                hit = True
                sub = []
                for a, b in zip(q, pos):
                    if isinstance(a, tuple):
                        if a[0] == "all" and not isinstance(b, tuple):
                            sub.append((a[1], b))
                        elif a[0] == "any":
                            pass
                        else:
                            hit = False
                    elif isinstance(b, tuple) or not P.peq(a, b):
                        hit = False
                if hit:
                    for n, b in sub:
                        v = subst(v, n, b)
                    return v
                # a different cell, or maybe the same one
                if not any(not isinstance(a, tuple) and not isinstance(b, tuple) and P.cmp_eq(a, b) is False for a, b in zip(q, pos)):
                    return V(v.kind if v.kind != "i" else "u", mkT("row", v.term(), *([self.raw(st, pos).term()] if not any(isinstance(x, tuple) for x in pos) else [])), v.ctype)
        return None

    def raw(self, st, pos):
        if any(isinstance(p, tuple) for p in pos):
            q = [P.new_sym(f"?{k}", lo=0, base=False) if isinstance(p, tuple) else p for k, p in enumerate(pos)]
            if any(isinstance(p, tuple) and p[0] == "div" for p in pos):
                t = self.raw(st, q).term()
                return V(st.value.kind if st.value is not None else "u", mkT("otherrow", t), st.ctype)
            pos = q
        return st.at(pos)

    def read(self, st, pos):
        v = self.pending(st, pos)
        if v is None:
            v = self.raw(st, pos)
        if self.loops:
            self.loops[-1].reads.append((st, tuple(pos), v, self.line))
        return v

    def index(self, arr, sl):
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if len(elts) > len(arr.dims):
            raise Unsup("too many indices")
        out, slices = [], False
        for e in elts:
            if isinstance(e, ast.Slice):
                slices = True
                out.append(e)
            else:
                v = self.ev(e)
                if not isinstance(v, V) or v.kind != "i":
                    if isinstance(v, V) and v.kind == "u":
                        v = V("i", data_int(v.x, [], [], attained=False), v.ctype)
                    else:
                        raise Unsup("index")
                out.append(v.x)
        return out, slices

    def load(self, arr, sl):
        idx, slices = self.index(arr, sl)
        if not slices and len(idx) == len(arr.dims):
            return self.read(arr.store, self.position(arr, idx))
        # a sub-view
        dims, fixed, offset = [], dict(arr.fixed), dict(arr.offset)
        for k, d in enumerate(arr.dims):
            if k >= len(idx):
                dims.append(d)
                continue
            p = idx[k]
            if isinstance(p, ast.Slice):
                if p.step is not None or p.lower is None and p.upper is None:
                    if p.step is not None:
                        raise Unsup("slice step")
                    dims.append(d)
                    continue
                lo = self.ev(p.lower) if p.lower is not None else V("i", 0)
                hi = self.ev(p.upper) if p.upper is not None else V("i", arr.extent(k))
                if len(d) != 1 or lo.kind != "i" or hi.kind != "i":
                    raise Unsup("slice")
                f = d[0]
                base = offset[f][0] if f in offset else 0
                offset[f] = (P.padd(base, lo.x), P.psub(hi.x, lo.x))
                dims.append(d)
            else:
                if len(d) != 1:
                    raise Unsup("row of a flat array")
                self.bounds(arr, k, p, arr.extent(k), self.mod.boundscheck(self.frames[-1].fn))
                fixed[d[0]] = P.padd(offset[d[0]][0], p) if d[0] in offset else p
        return Arr(arr.store, dims, fixed, offset)

    def store(self, arr, sl, v):
        if not isinstance(arr, Arr):
            raise Unsup("item assignment")
        idx, slices = self.index(arr, sl)
        if slices or len(idx) != len(arr.dims):
            raise Unsup("slice assignment")
        pos = self.position(arr, idx)
        if isinstance(v, V):
            if arr.store.ctype in ("uint64",) and v.kind == "d":
                raise Unsup("float stored as integer")
            t = arr.store.ctype
            if v.kind == "u" and t in TYPES and TYPES[t] and TYPES[t][1] < 2**62:
                v = V("u", mkT("trunc", (TYPES[t][1] - TYPES[t][0] + 1).bit_length() - 1, v.x), t)
        if self.loops:
            self.loops[-1].writes.append((arr.store, tuple(pos), v, self.line))
        else:
            if any(isinstance(p, tuple) for p in pos):
                raise Unsup("position")
            self.commit(arr.store, pos, v)

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None or isinstance(e.value, str):
                return e.value
            if isinstance(e.value, int):
                return V("i", e.value, "object")
            if isinstance(e.value, float):
                return fconst(e.value)
        if isinstance(e, ast.Name):
            for fr in self.frames[-1:]:
                if e.id in fr.vars:
                    return fr.vars[e.id]
            if e.id in self.mod.globals:
                return self.ev(self.mod.globals[e.id])
            raise Unsup(f"name {e.id}")
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Pow) and isinstance(e.left, ast.Name) and e.left.id.startswith("__cast_"):
                return self.cast(e.left.id[7:-2].replace("_", " ") if e.left.id[7:-2] not in ("Py_ssize_t", "size_t", "ssize_t") else e.left.id[7:-2], self.ev(e.right))
            return self.bin(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.USub):
                return self.bin("Sub", V("i", 0, getattr(v, "ctype", "object")), v)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and isinstance(v, V):
                return V("u", mkT("~", v.term()), v.ctype)
            raise Unsup("unary operator")
        if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
            return [self.ev(x) for x in e.elts]
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            if isinstance(v, Arr):
                return self.load(v, e.slice)
            if isinstance(v, list):
                if isinstance(e.slice, ast.Slice):
                    raise Unsup("slice of a list")
                k = self.ev(e.slice)
                if k.kind == "i" and isinstance(k.x, int):
                    return v[k.x]
            raise Unsup("subscript")
        if isinstance(e, ast.Call):
            return self.callx(e)
        if isinstance(e, ast.IfExp):
            r, ft, ff, t = self.cond(e.test)
            if r is not None:
                return self.ev(e.body if r else e.orelse)
            keep = list(P.CTX.facts)
            vs, fs = [], []
            for b, f in ((e.body, ft), (e.orelse, ff)):
                P.CTX.facts = list(keep)
                for x in f:
                    P.add_fact(x)
                vs.append(self.ev(b))
                fs.append(P.CTX.facts)
            P.CTX.facts = keep
            return self.join(t, vs[0], vs[1], fs[0], fs[1])
        if isinstance(e, ast.Compare):
            r, _, _, t = self.cond(e)
            return V("i", int(r)) if r is not None else V("i", data_int(t, [0], [1], attained=False))
        raise Unsup(f"expression {type(e).__name__}")

    def attr(self, e):
        if re.fullmatch(r"(np|numpy)(\.\w+)+", ast.unparse(e)):
            return ("np", ast.unparse(e)[3:])
        v = self.ev(e.value)
        if isinstance(v, Arr):
            if e.attr == "shape":
                return [V("i", x, "Py_ssize_t") for x in v.shape]
            if e.attr == "ndim":
                return V("i", len(v.dims))
            if e.attr == "size":
                r = 1
                for x in v.shape:
                    r = P.pmul(r, x)
                return V("i", r, "object")
            if e.attr == "T":
                return Arr(v.store, v.dims[::-1], v.fixed, v.offset)
        raise Unsup(f"attribute {e.attr}")

    def cast(self, t, v):
        base, view = self.mod.ctype(t)
        if view:
            return v
        if not isinstance(v, V):
            raise Unsup("cast")
        rng = TYPES.get(base)
        if v.kind == "d" and rng is not None:
            if v.lo is None or v.hi is None:
                return V("i", data_int(mkT("int", v.x), [], [], attained=False), base)
            hi = P.psub(v.hi, 1) if v.strict else v.hi
            if P.nonneg(v.lo):
                return V("i", data_int(mkT("int", v.x), [v.lo], [hi]), base)
            return V("i", data_int(mkT("int", v.x), [], [], attained=False), base)
        return self.coerce(t, V(v.kind, v.x, "Py_ssize_t" if v.kind == "i" else v.ctype, v.lo, v.hi, v.strict), "cast")

    RANK = ["object", "bint", "char", "short", "int", "uint", "unsigned int", "long", "Py_ssize_t", "long long", "size_t", "uint64"]

    def rtype(self, a, b):
        if a.ctype == "object":
            return b.ctype if isinstance(a.x, int) else "object"
        if b.ctype == "object":
            return a.ctype if isinstance(b.x, int) else "object"
        ra = self.RANK.index(a.ctype) if a.ctype in self.RANK else 7
        rb = self.RANK.index(b.ctype) if b.ctype in self.RANK else 7
        t = self.RANK[max(ra, rb)]
        return "int" if t in ("bint", "char", "short") else t

    def bin(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.vecbin(op, a, b)
        if isinstance(a, bool):
            a = V("i", int(a))
        if isinstance(b, bool):
            b = V("i", int(b))
        if not isinstance(a, V) or not isinstance(b, V):
            raise Unsup(f"operator {op}")
        if a.kind == "d" or b.kind == "d":
            return self.fbin(op, a, b)
        t = self.rtype(a, b)
        wrap = t in ("uint64", "size_t") and not (a.kind == b.kind == "i" and op in ("FloorDiv", "Mod"))
        if a.kind == "i" and b.kind == "i" and op in ("Add", "Sub", "Mult") and not (t == "uint64" and self.data(a, b)):
            x = {"Add": P.padd, "Sub": P.psub, "Mult": P.pmul}[op](a.x, b.x)
            if t in TYPES and TYPES[t] is not None and t != "object":
                top = self.maxof(x)
                if top > TYPES[t][1]:
                    if t in ("uint64", "size_t"):
                        return V("u", mkT({"Add": "+", "Sub": "-", "Mult": "*"}[op], a.term(), b.term()), t)
                    if TYPES[t][1] < 2**62:
                        self.note("violation", "width (expression)", f"{x!r} is computed in {t} and can exceed it")
                elif t == "int":
                    self.note("ok", "width (expression)")
            return V("i", x, t)
        if a.kind == "i" and b.kind == "i":
            if isinstance(a.x, int) and isinstance(b.x, int):
                x, y = a.x, b.x
                r = {"FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x ** y, "LShift": lambda: x << y, "RShift": lambda: x >> y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
                if r:
                    return V("i", r(), t)
            if op == "Mod":
                m = b.x
                if isinstance(m, int) and m > 0:
                    return V("i", data_int(mkT("mod", a.term(), b.term()), [0], [m - 1], attained=False), t)
                return V("i", P.pmod(a.x, b.x), t) if not self.data(a, b) else V("i", data_int(mkT("mod", a.term(), b.term()), [0], [P.psub(m, 1)], attained=False), t)
            if op == "FloorDiv":
                return V("i", data_int(mkT("//", a.term(), b.term()), [0] if P.nonneg(a.x) else [], [a.x] if P.nonneg(a.x) else [], attained=False), t)
            if op in ("Div",):
                return V("d", mkT("/", a.term(), b.term()), "double")
            if op in ("LShift",) and isinstance(b.x, int):
                return self.bin("Mult", a, V("i", 2 ** b.x, a.ctype))
        name = {"Add": "+", "Sub": "-", "Mult": "*", "BitXor": "^", "BitOr": "|", "BitAnd": "&", "LShift": "<<", "RShift": ">>", "Mod": "%", "FloorDiv": "//"}.get(op)
        if name is None:
            raise Unsup(f"operator {op}")
        if t in ("int", "uint", "unsigned int", "short"):
            return V("u", mkT("trunc", 32, mkT(name, a.term(), b.term())), t)
        return V("u", mkT(name, a.term(), b.term()), t)

    @staticmethod
    def data(*vs):
        return any(isinstance(v.x, Poly) and any(n in SYMDEP for n in v.x.symbols()) for v in vs)

    def fbin(self, op, a, b):
        name = {"Add": "+.", "Sub": "-.", "Mult": "*.", "Div": "/.", "Pow": "**."}.get(op)
        if name is None:
            raise Unsup(f"float operator {op}")

        def cst(v):
            return v.x if v.kind == "i" and isinstance(v.x, int) else v.x.args[0] if v.kind == "d" and v.x.op == "const" else None
        if cst(a) is not None and cst(b) is not None:
            x, y = cst(a), cst(b)
            try:
                return fconst(float({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "Pow": lambda: x ** y}[op]()))
            except (ZeroDivisionError, OverflowError):
                raise Unsup("constant")

        def iv(v):
            return (v.x, v.x, False) if v.kind == "i" else (v.lo, v.hi, v.strict) if v.kind == "d" else (None, None, False)
        al, ah, sa = iv(a)
        bl, bh, sb = iv(b)
        lo = hi = None
        strict = nz = False
        if None not in (al, ah, bl, bh):
            if op == "Add":
                lo, hi = P.padd(al, bl), P.padd(ah, bh)
                # 0 added exactly keeps a strict end
                strict = (sa and bl == bh == 0) or (sb and al == ah == 0)
            elif op == "Sub":
                lo, hi = P.psub(al, bh), P.psub(ah, bl)
                # 2*m - 1 with m in [1/2, 1) is exact
                strict = sa and bl == bh and isinstance(bl, int)
            elif op == "Mult":
                if P.nonneg(al) and P.nonneg(bl):
                    lo, hi = P.pmul(al, bl), P.pmul(ah, bh)
                    strict = (sa and not isinstance(b.x, T)) or (sb and not isinstance(a.x, T))
                nz = a.nz and b.nz
        if op == "Sub" and a.kind == "d" and b.kind in "id" and bl == 1 == bh:
            t = a.term()
            if t.op == "*." and {x.op for x in t.args} == {"mantissa", "p"} and any(x.op == "p" and x.args[0] == 2 for x in t.args) or \
                    t.op == "*." and {x.op for x in t.args} == {"mantissa", "const"} and any(x.op == "const" and x.args[0] == 2 for x in t.args) or \
                    t.op == "+." and all(x.op == "mantissa" for x in t.args) and t.args[0] is t.args[1]:
                lo, hi, strict = 0, 1, True
        return V("d", mkT(name, a.term(), b.term()), "double", lo, hi, strict, nz)

    def vecbin(self, op, a, b):
        """element-wise operation of whole arrays"""
        arr = a if isinstance(a, Arr) else b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.dims) != len(b.dims) or not all(P.peq(x, y) for x, y in zip(a.shape, b.shape)):
                raise Unsup("broadcasting")
        st = self.new_store("tmp", [x for x in arr.shape], arr.store.ctype)
        syms = [P.new_sym(n, lo=0, base=False) for n in st.params]

        def el(x):
            if not isinstance(x, Arr):
                return x
            keep, self.loops = self.loops, []
            try:
                return self.read(x.store, self.qpos(x, syms))
            finally:
                self.loops = keep
        st.value = self.bin(op, el(a), el(b))
        return Arr(st, [(k,) for k in range(len(st.factors))])

    def qpos(self, arr, syms):
        pos = [None] * len(arr.store.factors)
        for f, p in arr.fixed.items():
            pos[f] = p
        for k, s in enumerate(syms):
            if len(arr.dims[k]) != 1:
                raise Unsup("flat array as an operand")
            f = arr.dims[k][0]
            pos[f] = P.padd(s, arr.offset[f][0]) if f in arr.offset else s
        return pos

    def new_store(self, name, factors, ctype):
        self.n += 1
        return Store(f"{name}{self.n}", factors, ctype)

    def copy(self, arr, ctype=None, conv=None):
        if any(len(d) != 1 for d in arr.dims):
            # all factors kept
            if arr.fixed or arr.offset:
                raise Unsup("copy of a partial flat view")
            st = self.new_store(arr.store.name + "'", arr.store.factors, ctype or arr.store.ctype)
            syms = [P.new_sym(n, lo=0, base=False) for n in st.params]
            st.value = (conv or (lambda v: v))(self.read(arr.store, syms))
            return Arr(st, list(arr.dims))
        st = self.new_store(arr.store.name + "'", arr.shape, ctype or arr.store.ctype)
        if all(isinstance(x, int) for x in arr.shape):
            import itertools
            for t in itertools.product(*[range(x) for x in arr.shape]):
                st.cells[t] = (conv or (lambda v: v))(self.read(arr.store, self.qpos(arr, list(t))))
            return Arr(st, [(k,) for k in range(len(arr.dims))])
        if arr.shape and isinstance(arr.shape[0], int) and arr.store.value is None:
            raise Unsup("copy of cells")
        syms = [P.new_sym(n, lo=0, base=False) for n in st.params]
        st.value = (conv or (lambda v: v))(self.read(arr.store, self.qpos(arr, syms)))
        return Arr(st, [(k,) for k in range(len(arr.dims))])

    # ---------------------------------------------------------- builtin functions
    DT = {"np.uint64": "uint64", "np.int64": "long", "np.float64": "double", "np.int16": "short", "np.int32": "int", "np.uint32": "unsigned int",
          "np.uint8": "unsigned char", "np.int8": "char", "int": "long", "float": "double", "np.int_": "long", "'uint64'": "uint64", "np.intp": "long", "np.ulonglong": "uint64"}

    def dtype(self, e, default=None):
        if e is None:
            return default
        s = ast.unparse(e)
        if s in self.DT:
            return self.DT[s]
        raise Unsup(f"dtype {s}")

    def shape_arg(self, v):
        vs = v if isinstance(v, list) else [v]
        out = []
        for x in vs:
            if not isinstance(x, V) or x.kind != "i":
                raise Unsup("shape")
            out.append(x.x)
        return out

    def split(self, ext):
        """factors of a product extent (N*rank): the order used by later index expressions is found by trying both"""
        if isinstance(ext, Poly) and len(ext.t) == 1:
            (m, c), = ext.t.items()
            if c == 1 and sum(e for _, e in m) == 2 and len(m) == 2:
                names = [n for n, _ in m]
                rows = [n for n in names if n in self.rows]
                if len(rows) == 1:
                    other = [n for n in names if n != rows[0]][0]
                    return [Poly({((rows[0], 1),): 1}), Poly({((other, 1),): 1})]
        return [ext]

    def alloc(self, name, shape, ctype, value):
        facs, dims = [], []
        for x in shape:
            fs = self.split(x)
            dims.append(tuple(range(len(facs), len(facs) + len(fs))))
            facs += fs
        st = self.new_store(name, facs, ctype)
        st.value = value
        return Arr(st, dims)

    def callx(self, e):
        f = ast.unparse(e.func)
        kw = {k.arg: k.value for k in e.keywords}
        if f == "__addr__":
            return ("addr", e.args[0].value)
        if isinstance(e.func, ast.Name) and f in self.mod.funcs:
            if kw:
                fn = self.mod.funcs[f]
                names = [a.arg for a in fn.args.args]
                vals = [self.ev(a) for a in e.args]
                for n in names[len(vals):]:
                    if n not in kw:
                        raise Unsup("keyword arguments")
                    vals.append(self.ev(kw[n]))
                return self.call(f, vals)
            return self.call(f, [self.ev(a) for a in e.args])
        last = f.split(".")[-1]
        isnp = re.fullmatch(r"(np|numpy)(\.\w+)+", f) is not None
        if isinstance(e.func, ast.Attribute) and not isnp and not re.fullmatch(r"(scipy|libc|math|cython)(\.\w+)+", f):
            v = self.ev(e.func.value)
            if isinstance(v, Arr):
                return self.method(v, last, e.args, kw)
        if f == "len":
            v = self.ev(e.args[0])
            if isinstance(v, Arr):
                return V("i", v.extent(0), "Py_ssize_t")
            if isinstance(v, list):
                return V("i", len(v), "Py_ssize_t")
            raise Unsup("len")
        if f in ("min", "max") and len(e.args) == 2:
            a, b = self.ev(e.args[0]), self.ev(e.args[1])
            if a.kind == b.kind == "i":
                r = P.pmin(a.x, b.x) if f == "min" else P.pmax(a.x, b.x)
                if self.data(a, b):
                    c = P.CTX.facts
                    lows = [x for x in (0,) if P.nonneg(a.x) and P.nonneg(b.x)]
                    ups = [v.x for v in (a, b) if not self.data(v)] if f == "min" else []
                    lows += [v.x for v in (a, b) if not self.data(v)] if f == "max" else []
                    return V("i", data_int(mkT(f, a.term(), b.term()), lows, ups, attained=False), self.rtype(a, b))
                return V("i", r, self.rtype(a, b))
            return V("u" if "d" not in (a.kind, b.kind) else "d", mkT(f, a.term(), b.term()), a.ctype)
        if f == "int":
            v = self.ev(e.args[0])
            if isinstance(v, V) and v.kind in "iu":
                return V(v.kind, v.x, "object")
            raise Unsup("int()")
        if f == "abs":
            v = self.ev(e.args[0])
            if v.kind == "i" and P.nonneg(v.x):
                return v
            return V("u", mkT("abs", v.term()), v.ctype)
        if last == "frexp":
            v = self.ev(e.args[0])
            a = self.ev(e.args[1])
            if not (isinstance(a, tuple) and a[0] == "addr"):
                raise Unsup("frexp")
            self.frames[-1].vars[a[1]] = V("i", data_int(mkT("exponent", v.term()), [], [], attained=False), "int")
            # |mantissa| in [1/2, 1) for the positive finite numbers built here
            return V("d", mkT("mantissa", v.term()), "double", 0, 1, True)
        if last == "floor" and not isnp:
            v = self.ev(e.args[0])
            return V("d", mkT("floor", v.term()), "double", v.lo, P.psub(v.hi, 1) if v.strict and v.hi is not None else v.hi)
        if last == "ndtri":
            v = self.ev(e.args[0])
            if v.kind == "d" and v.lo is not None and v.hi is not None and P.nonneg(v.lo) and P.peq(v.hi, 1):
                if self.nonzero(v) and v.strict:
                    self.note("ok", "finite")
                elif not self.nonzero(v):
                    self.note("violation", "finite", "ndtri is applied to a number that can be 0 and gives -inf")
                else:
                    self.note("undet", "finite", "ndtri of a number that may round to 1")
            else:
                self.note("undet", "finite", "argument of ndtri")
        if last in ("ndtri", "log", "sqrt", "exp", "cos", "sin", "log1p", "fabs") and not isnp:
            v = self.ev(e.args[0])
            return V("d", mkT(last, v.term()), "double")
        if isnp:
            return self.npcall(f.split(".", 1)[1], e, kw)
        raise Unsup(f"call of {f}")

    def method(self, v, name, args, kw):
        if name in ("astype",):
            t = self.dtype(args[0] if args else kw.get("dtype"))
            return self.copy(v, t, self.conv(v.store.ctype, t))
        if name == "copy":
            return self.copy(v)
        if name == "reshape":
            a = [self.ev(x) for x in args]
            return self.reshape(v, a[0] if len(a) == 1 and isinstance(a[0], list) else a)
        if name in ("ravel", "flatten"):
            return self.reshape(v, [V("i", -1)])
        if name == "view":
            return self.bits(v, self.dtype(args[0]))
        raise Unsup(f"method {name}")

    def conv(self, a, b):
        ra, rb = TYPES.get(a), TYPES.get(b)

        def f(x):
            if x.kind == "d" and rb is not None:
                raise Unsup("float to integer")
            if rb is not None and rb[1] < 2**62 and not (ra is not None and ra[1] <= rb[1] and ra[0] >= rb[0]):
                bits = (rb[1] - rb[0] + 1).bit_length() - 1
                return V("u", mkT("trunc", bits, x.term()), b)
            if rb is None and x.kind != "d":
                return V("d", mkT("float", x.term()), b)
            return V(x.kind, x.x, b, x.lo, x.hi, x.strict)
        return f

    def reshape(self, v, new):
        new = [x.x for x in (new if isinstance(new, list) else [new])]
        if v.fixed or v.offset:
            v = self.copy(v)
        order = [f for d in v.dims for f in d]
        if order != sorted(order):
            v = self.copy(v)
            order = [f for d in v.dims for f in d]
        st = v.store
        if len(new) == 1:
            return Arr(st, [tuple(order)])
        dims, k = [], 0
        for x in new:
            cur, fs = 1, []
            if x == -1:
                raise Unsup("reshape")
            while k < len(order) and not (P.peq(cur, x) and fs):
                cur = P.pmul(cur, st.factors[order[k]])
                fs.append(order[k])
                k += 1
            if not P.peq(cur, x):
                raise Unsup("reshape")
            dims.append(tuple(fs))
        if k != len(order):
            raise Unsup("reshape")
        return Arr(st, dims)

    def bits(self, v, t):
        src = v.store.ctype
        if TYPES.get(t, 0) is None and src == "uint64" or t == "uint64" and TYPES.get(src, 0) is None:
            old = v.store
            w = self.copy(v, t, lambda x: V("d" if TYPES[t] is None else "u", mkT("bits", x.term()), t))
            old.dead = "memory reinterpreted"
            return w
        raise Unsup("reinterpretation")

    def npcall(self, name, e, kw):
        args = e.args
        dt = kw.get("dtype")
        if name in ("copy", "ascontiguousarray", "asarray", "array"):
            v = self.ev(args[0])
            t = self.dtype(dt if dt is not None else (args[1] if len(args) > 1 else None))
            if isinstance(v, Arr):
                if name in ("asarray", "ascontiguousarray") and (t is None or t == v.store.ctype):
                    return v
                return self.copy(v, t, self.conv(v.store.ctype, t) if t else None)
            if isinstance(v, list):
                st = self.new_store("array", [len(v)], t or "long")
                c = self.conv("object", t) if t else (lambda x: x)
                for k, x in enumerate(v):
                    if not isinstance(x, V):
                        raise Unsup("array of arrays")
                    st.cells[(k,)] = c(x)
                return Arr(st, [(0,)])
            if isinstance(v, V):
                raise Unsup("zero-dimensional array")
            raise Unsup("np.array")
        if name in ("empty", "zeros", "ones"):
            shape = self.shape_arg(self.ev(args[0] if args else kw["shape"]))
            t = self.dtype(dt if dt is not None else (args[1] if len(args) > 1 else None), "double")
            val = V("u", mkT("uninitialised"), t) if name == "empty" else \
                V("i", 0 if name == "zeros" else 1, t) if TYPES[t] else V("d", mkT("const", 0.0 if name == "zeros" else 1.0), t, int(name == "ones"), int(name == "ones"))
            return self.alloc(name, shape, t, val)
        if name in ("empty_like", "zeros_like", "ones_like"):
            v = self.ev(args[0])
            t = self.dtype(dt, v.store.ctype)
            return self.alloc(name, v.shape, t, V("u", mkT("uninitialised"), t) if name == "empty_like" else V("i", int(name == "ones_like"), t))
        if name == "arange":
            vs = [self.ev(a) for a in args[:3] if True]
            if len(args) > 3 or any(not isinstance(v, V) or v.kind != "i" for v in vs):
                raise Unsup("arange")
            lo, hi = (0, vs[0].x) if len(vs) == 1 else (vs[0].x, vs[1].x)
            if len(vs) == 3 and vs[2].x != 1:
                raise Unsup("arange step")
            t = self.dtype(dt, "long")
            ext = P.psub(hi, lo)
            st = self.new_store("arange", [ext], t)
            k = P.new_sym(st.params[0], lo=0, base=False)
            st.value = self.conv("long", t)(V("i", P.padd(k, lo), t))
            if isinstance(ext, int):
                st.cells = {(j,): self.conv("long", t)(V("i", P.padd(j, lo), t)) for j in range(ext)}
            return Arr(st, [(0,)])
        if name == "reshape":
            return self.reshape(self.ev(args[0]), self.ev(args[1]))
        if name in ("ravel",):
            return self.reshape(self.ev(args[0]), [V("i", -1)])
        if name == "frombuffer":
            return self.bits(self.ev(args[0]), self.dtype(dt if dt is not None else args[1]))
        if name in ("mod", "remainder"):
            v, m = self.ev(args[0]), self.ev(args[1])
            if isinstance(v, V) and v.kind in "iu" and m.kind == "i" and isinstance(m.x, int):
                return V("u", mkT("%", v.term(), m.term()), "object")
            raise Unsup("np.mod")
        if name in ("uint64", "int64", "intp"):
            v = self.ev(args[0])
            if isinstance(v, V):
                return V(v.kind, v.x, "object")
        if name in ("add.outer", "multiply.outer", "subtract.outer") and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims) == 1 and a.store.ctype == b.store.ctype:
                st = self.new_store("outer", [a.shape[0], b.shape[0]], a.store.ctype)
                i, j = (P.new_sym(n, lo=0, base=False) for n in st.params)
                keep, self.loops = self.loops, []
                try:
                    st.value = self.bin({"a": "Add", "m": "Mult", "s": "Sub"}[name[0]], self.read(a.store, self.qpos(a, [i])), self.read(b.store, self.qpos(b, [j])))
                finally:
                    self.loops = keep
                return Arr(st, [(0,), (1,)])
        raise Unsup(f"np.{name}")


def fconst(x):
    if x == int(x):
        return V("d", mkT("const", x), "double", int(x), int(x), False, x != 0)
    return V("d", mkT("const", x), "double", int(x // 1), int(x // 1) + 1, True, True)


def _load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t):
        n.lineno = getattr(n, "lineno", 1)
    return t


def _first_use(body):
    """name -> read / write, whichever comes first in straight-line order (a write under a condition does not count)"""
    first = {}

    def rd(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                first.setdefault(n.id, "read")
            if isinstance(n, ast.Call) and ast.unparse(n.func) == "__addr__":
                first.setdefault(n.args[0].value, "write")

    def wr(t, sure):
        if isinstance(t, ast.Name):
            first.setdefault(t.id, "write" if sure else "read")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                wr(x, sure)
        elif isinstance(t, ast.Subscript):
            rd(t.value)
            rd(t.slice)

    def go(b, sure):
        for s in b:
            if isinstance(s, ast.Assign):
                rd(s.value)
                for t in s.targets:
                    wr(t, sure)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    rd(s.value)
                    wr(s.target, sure)
            elif isinstance(s, ast.AugAssign):
                rd(_load(s.target))
                rd(s.value)
            elif isinstance(s, ast.For):
                rd(s.iter)
                wr(s.target, True)
                go(s.body, False)
            elif isinstance(s, ast.If):
                rd(s.test)
                go(s.body, False)
                go(s.orelse, False)
            else:
                for n in ast.iter_child_nodes(s):
                    if isinstance(n, ast.expr):
                        rd(n)
    go(body, True)
    return first
