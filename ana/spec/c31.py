"""C31 Experiment records survive interruption and are never duplicated.

Rule: the driver is interpreted over an abstract table library (frames are lists of abstract rows, files are texts of such frames,
numbers are opaque values known only by identity and by whether they are written as integers or as reals).  For every history of
experiments, failures of an experiment, interrupted savings, restarts and savings up to a bound: whenever an experiment is started the file holds every
experiment finished before; one that is in the table is not started; a finished one adds one row with its settings and results; a save interrupted at any point loses no row of the file;
nothing else changes the rows or columns of the table or of the file."""
from spec.common import *
import itertools
import os

PANDAS = r'''
FILES = {}
LOG = []
NAN = float("nan")


class Val:
    def __init__(self, ident, form):
        self.ident = ident
        self.form = form
        self.text = "#" + ident + ("." if form == "float" else "")

    def __model_type__(self):
        return self.form

    def __float__(self):
        return Val(self.ident, "float")

    def __eq__(self, other):
        return isinstance(other, Val) and self.ident == other.ident

    def __ne__(self, other):
        return not (self == other)

    def __str__(self):
        return self.text

    def __repr__(self):
        return self.text


def isnum(x):
    return isinstance(x, Val)


def isna(x):
    return x is None or (not isinstance(x, (Val, str, bool, tuple)) and x is NAN)


notna = isna_not = lambda x: not isna(x)


def number(text):
    """the number written as text, or None"""
    if text.startswith("#"):
        if text.endswith("."):
            return Val(text[1:-1], "float")
        return Val(text[1:], "int")
    return None


def parse(texts, na):
    vals = []
    miss = False
    for t in texts:
        if t in na:
            miss = True
    have = [t for t in texts if t not in na]
    if not have:
        return [NAN for t in texts]
    if all([number(t) is not None for t in have]):
        real = miss or any([number(t).form == "float" for t in have])
        return [NAN if t in na else (number(t).__float__() if real else number(t)) for t in texts]
    if all([t in ("True", "False") for t in have]) and not miss:
        return [t == "True" for t in texts]
    return [NAN if t in na else t for t in texts]


DEFAULT_NA = ["", "None", "nan", "NaN", "NA", "N/A", "null", "NULL", "n/a", "#N/A", "<NA>", "-nan", "-NaN"]


def read_csv(filename, keep_default_na=True, na_values=None, index_col=None, **kw):
    if kw:
        unsupported("read_csv " + str(list(kw.keys())))
    if filename not in FILES:
        raise FileNotFoundError(filename)
    cols, rows = FILES[filename]
    for r in rows:
        if len(r) > len(cols):
            raise ValueError("Error tokenizing data")
    rows = [r + [""] * (len(cols) - len(r)) for r in rows]
    na = []
    if keep_default_na:
        na = list(DEFAULT_NA)
    if na_values is not None:
        if isinstance(na_values, str):
            na = na + [na_values]
        else:
            na = na + list(na_values)
    df = DataFrame(columns=["Unnamed: " + str(i) if c == "" else c for i, c in enumerate(cols)])
    for i, c in enumerate(df.cols):
        column = parse([r[i] for r in rows], na)
        if i == 0:
            df.rows = [[] for r in rows]
        for r, v in zip(df.rows, column):
            r.append(v)
    df.index = list(range(len(df.rows)))
    if index_col is not None:
        if index_col != 0:
            unsupported("index_col")
        df.cols = df.cols[1:]
        df.index = [r[0] for r in df.rows]
        df.rows = [r[1:] for r in df.rows]
    return df


def concat(frames, ignore_index=False, **kw):
    if kw:
        for k in kw:
            if k not in ("axis", "sort", "copy") or kw[k]:
                unsupported("concat " + k)
    frames = list(frames)
    cols = []
    for f in frames:
        for c in f.cols:
            if c not in cols:
                cols.append(c)
    out = DataFrame(columns=cols)
    for f in frames:
        for i, r in zip(f.index, f.rows):
            out.rows.append([r[f.cols.index(c)] if c in f.cols else NAN for c in cols])
            out.index.append(i)
    if ignore_index:
        out.index = list(range(len(out.rows)))
    for j in range(len(cols)):
        column = [r[j] for r in out.rows]
        have = [v for v in column if not isna(v)]
        if have and all([isnum(v) for v in have]) and (len(have) < len(column) or any([v.form == "float" for v in have])):
            for r in out.rows:
                if not isna(r[j]):
                    r[j] = r[j].__float__()
    return out


class Series:
    def __init__(self, values):
        self.values = list(values)

    def __getattr__(self, name):
        unsupported("Series." + name)

    def map(self, f, **kw):
        if kw:
            unsupported("map options")
        return Series([f(v) for v in self.values])

    def apply(self, f, **kw):
        if kw:
            unsupported("apply options")
        return Series([f(v) for v in self.values])

    def astype(self, t):
        if t is str or t == "str":
            return Series([str(v) for v in self.values])
        if t is bool or t == "bool":
            return Series([bool(v) for v in self.values])
        unsupported("astype")

    def __and__(self, o):
        return Series([bool(a) and bool(b) for a, b in zip(self.values, o.values)])

    def __or__(self, o):
        return Series([bool(a) or bool(b) for a, b in zip(self.values, o.values)])

    def __invert__(self):
        return Series([not a for a in self.values])

    def __eq__(self, o):
        if isinstance(o, Series):
            return Series([(not isna(a)) and a == b for a, b in zip(self.values, o.values)])
        return Series([(not isna(a)) and a == o for a in self.values])

    def __ne__(self, o):
        return ~(self == o)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, i):
        return self.values[i]

    def sum(self):
        n = 0
        for v in self.values:
            if isinstance(v, Val):
                unsupported("sum of numbers")
            if v:
                n += 1
        return n

    def any(self):
        return any([bool(v) for v in self.values])

    def all(self):
        return all([bool(v) for v in self.values])

    def tolist(self):
        return list(self.values)

    to_list = tolist

    def isna(self):
        return Series([isna(v) for v in self.values])

    def isin(self, other):
        return Series([any([v == o for o in other]) for v in self.values])


def _replace(a, b):
    if a not in FILES:
        raise FileNotFoundError(a)
    FILES[b] = FILES.pop(a)


def _remove(a):
    if a not in FILES:
        raise FileNotFoundError(a)
    FILES.pop(a)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, **kw):
        if kw or index is not None:
            unsupported("DataFrame options")
        if isinstance(data, DataFrame):
            if columns is not None:
                unsupported("DataFrame of a frame")
            self.cols, self.rows, self.index = list(data.cols), [list(r) for r in data.rows], list(data.index)
            return
        if data is None:
            data = []
        if isinstance(data, dict):
            keys = list(data.keys())
            if columns is not None:
                unsupported("columns of a dict")
            data = [list(r) for r in zip(*[list(data[k]) for k in keys])]
            columns = keys
        data = list(data)
        if data and all([isinstance(r, dict) for r in data]):
            cols = list(columns) if columns is not None else []
            if columns is None:
                for r in data:
                    for k in r:
                        if k not in cols:
                            cols.append(k)
            data = [[r[c] if c in r else NAN for c in cols] for r in data]
            columns = cols
        if columns is None:
            unsupported("frame without columns")
        self.cols = list(columns)
        self.rows = [[NAN if v is None else v for v in r] for r in data]
        for r in self.rows:
            if len(r) != len(self.cols):
                raise ValueError("columns passed do not match the data")
        self.index = list(range(len(self.rows)))

    def __getattr__(self, name):
        if name == "columns":
            return list(self.cols)
        if name == "empty":
            return not self.rows or not self.cols
        if name == "shape":
            return (len(self.rows), len(self.cols))
        unsupported("DataFrame." + name)

    def __len__(self):
        return len(self.rows)

    def __contains__(self, c):
        return c in self.cols

    def __iter__(self):
        return iter(self.cols)

    def __getitem__(self, c):
        if isinstance(c, Series):
            out = DataFrame(columns=self.cols)
            for b, i, r in zip(c.values, self.index, self.rows):
                if b:
                    out.rows.append(list(r))
                    out.index.append(i)
            return out
        if isinstance(c, list):
            for k in c:
                if k not in self.cols:
                    raise KeyError(k)
            out = DataFrame(columns=c)
            out.rows = [[r[self.cols.index(k)] for k in c] for r in self.rows]
            out.index = list(self.index)
            return out
        if not isinstance(c, str):
            unsupported("frame index")
        if c not in self.cols:
            raise KeyError(c)
        j = self.cols.index(c)
        return Series([r[j] for r in self.rows])

    def get(self, c, default=None):
        return self[c] if c in self.cols else default

    def copy(self, deep=True):
        return DataFrame(self)

    def reset_index(self, drop=False, **kw):
        if not drop or kw:
            unsupported("reset_index")
        out = DataFrame(self)
        out.index = list(range(len(out.rows)))
        return out

    def drop_duplicates(self, **kw):
        if kw:
            unsupported("drop_duplicates options")
        out = DataFrame(columns=self.cols)
        for i, r in zip(self.index, self.rows):
            if not any([all([a == b or (isna(a) and isna(b)) for a, b in zip(r, q)]) for q in out.rows]):
                out.rows.append(list(r))
                out.index.append(i)
        return out

    def to_csv(self, filename=None, index=True, mode="w", header=True, **kw):
        if kw or mode not in ("w", "a"):
            unsupported("to_csv " + str(list(kw.keys())))
        fault("save")
        if mode == "w":
            FILES[filename] = ([], [])      # opening a file for writing empties it
        fault("write")
        texts = [["" if isna(v) else str(v) for v in r] for r in self.rows]
        cols = list(self.cols)
        if index:
            cols = [""] + cols
            texts = [[str(i)] + r for i, r in zip(self.index, texts)]
        if mode == "a" and filename in FILES:
            old, lines = FILES[filename]
            FILES[filename] = (old, lines + ([cols] if header else []) + texts)
        elif header:
            FILES[filename] = (cols, texts)
        else:
            unsupported("table without header")
        LOG.append("save")
'''

CLIENT = r'''
import pandas as P


class SomeClass:
    pass


def some_function(x):
    return x


class Crash(Exception):
    pass


def make(log, results, crash):
    def experiment(input, **kwargs):
        log.append((input, kwargs, dict(P.FILES)))
        if crash:
            raise Crash("interrupted")
        return dict(results)
    return experiment
'''


class World:
    def __init__(self, S):
        self.S = S
        self.failsave = None
        self.atfault = None
        self.pd = S.I.load_source("pandas", PANDAS)
        def uns(a, k):
            raise Unsupported("table library: " + str(a[0]))
        self.pd["unsupported"] = NativeFn("unsupported", uns)
        def fault(a, k):
            if self.failsave == a[0]:
                self.atfault = (self.file(),)
                if a[0] == "write":
                    S.lib.throw(KeyboardInterrupt, "interrupted")
                S.lib.throw(OSError, "No space left on device")
        self.pd["fault"] = NativeFn("fault", fault)
        S.lib.numtext = lambda t: S.call(self.pd["number"], t)
        isf = NativeFn("isfile", lambda a, k: S.I.truth(S.lib.contains(self.pd["FILES"], a[0])))
        for n in ("isfile", "exists"):
            S.lib.mods["os.path"].ns[n] = isf
        for n, f in (("replace", "_replace"), ("rename", "_replace"), ("remove", "_remove"), ("unlink", "_remove")):
            S.lib.mods["os"].ns[n] = self.pd[f]
        for n in ("split", "join", "basename", "dirname", "splitext"):
            S.lib.mods["os.path"].ns[n] = S.lib.simple(n, getattr(os.path, n))
        S.lib.mods["os"].ns["fspath"] = S.lib.simple("fspath", lambda p: p)
        self.client = S.client(CLIENT)
        self.Exp = S.ns("scripts.experiment_base")
        if "Experiment" not in self.Exp:
            raise MissingAnchor("scripts.experiment_base.Experiment")
        self.Exp = self.Exp["Experiment"]

    def val(self, ident, form="int"):
        return self.S.call(self.pd["Val"], ident, form)

    def tab(self):
        return self.table(self.obj)

    def table(self, obj):
        """(columns, rows as texts) of the table in memory"""
        S = self.S
        df = S.get(obj, "data")
        return self.norm(S.list(S.get(df, "cols")), [[self.S.lib.to_str(v) if not self.na(v) else "" for v in S.list(r)] for r in S.list(S.get(df, "rows"))])

    def na(self, v):
        return self.S.I.truth(self.S.call(self.pd["isna"], v))

    def file(self):
        S = self.S
        f = self.pd["FILES"].d.get(("s", "results.csv"))
        if f is None:
            return None
        cols, rows = f[1]
        return self.norm(S.list(cols), [S.list(r) for r in S.list(rows)])

    @staticmethod
    def norm(cols, rows):
        """columns and the sorted rows as sets of (column, text without the form of a number)"""
        return tuple(cols), tuple(tuple(sorted((c, t.rstrip(".") if t.startswith("#") else t) for c, t in zip(cols, r) if t != "")) for r in rows)


def kinds(W):
    """name -> (two different values of this kind, how they are recorded)"""
    v = W.val
    c, f = W.client["SomeClass"], W.client["some_function"]
    return {
        "int": (v("a"), v("b")),
        "real": (v("a", "float"), v("b", "float")),
        "mixed": (v("a"), "alpha"),
        "text": ("alpha", "beta"),
        "None": (None, v("b")),
        "Nonetext": (None, "alpha"),
        "NA": ("NA", "null"),
        "bool": (True, False),
        "boolnum": (True, v("b")),
        "class": (c, f),
        "func": (f, v("b")),
        "tuple": ((3, 4), (4, 3)),
        "tuplenum": ((3, 4), v("b")),
    }


def text(W, v):
    if isinstance(v, (ClassObj, FuncObj)):
        return v.name
    t = W.S.lib.to_str(v)
    return t.rstrip(".") if t.startswith("#") else t


def history(S, W, kind, ops, extra):
    """A and B differ in one setting; C has a setting the others do not have; N has another name"""
    W.pd["FILES"].d.clear()
    W.failsave = None
    a, b = kinds(W)[kind]
    cfg = {
        "A": ("first", {"rank": a, "seed": W.val("s")}),
        "B": ("first", {"rank": b, "seed": W.val("s")}),
        "C": ("first", {"rank": a, "seed": W.val("s"), "more": b}),
        "N": ("second", {"rank": a, "seed": W.val("s")}),
    }
    done = []          # (label, row) of the finished experiments of this table
    ondisk = []
    new = lambda *args, **kw: S.call(W.Exp, "results.csv", *args, **kw)
    obj = new()
    count = 0
    for i, op in enumerate(ops):
        tag = f"step {i + 1} of {' '.join(ops)}"
        before, fbefore = W.table(obj), W.file()
        if op in ("restart", "load", "fresh"):
            if op == "load" and fbefore is None:
                return
            obj = S.m(W.Exp, "load", "results.csv") if op == "load" else new(force_overwrite=True) if op == "fresh" else new()
            if op == "fresh":
                done = []
            else:
                done = list(ondisk)
            t = W.table(obj)
            want = (("name", "error", "time_taken"), ()) if op == "fresh" or fbefore is None else fbefore
            S.true(f"{tag}: table read", set(t[0]) == set(want[0]) and len(t[0]) == len(want[0]) and t[1] == want[1],
                   f"the table after {op} is {t}, expected {want}", "experiment_base.Experiment")
            S.true(f"{tag}: file untouched", W.file() == fbefore, "reading a table changes the file", "experiment_base.Experiment")
            continue
        if op == "save":
            S.m(obj, "save")
            ondisk = list(done)
            f = W.file()
            S.true(f"{tag}: file is the table", f is not None and f == before, f"the file is {f}, the table {before}", "experiment_base.Experiment.save")
            S.true(f"{tag}: table untouched", W.table(obj) == before, "saving changes the table", "experiment_base.Experiment.save")
            continue
        what, how = op[0], op[1:]
        name, kw = cfg[what]
        count += 1
        results = {"error": W.val(f"e{count}", "float"), "time_taken": W.val(f"t{count}", "float")}
        if extra:
            results["aux"] = W.val(f"x{count}")
        log = ListObj()
        func = S.call(W.client["make"], log, DictObj({hkey(k): (k, v) for k, v in results.items()}), how == "!")
        inp = InstObj(S.lib.objcls)
        W.failsave = "save" if how == "?" else "write" if how == "%" else None
        W.atfault = None
        exc = None
        try:
            S.I.call(S.I.getattr(obj, "do_experiment"), [inp, name, func], dict(kw))
        except PyRaise as e:
            exc = e
        W.failsave = None
        fin = [x for x, _ in done]
        loc = "experiment_base.Experiment.do_experiment"
        # a row with the same settings and further ones counts as the configuration (settings that are not given match anything)
        if what in fin or what == "A" and "C" in fin and not log.items:
            S.true(f"{tag}: not run again", not log.items, f"{what} is in the table and is run again", loc)
            S.true(f"{tag}: no exception", exc is None or how in ("?", "%"), "looking up a finished experiment fails", loc)
            S.true(f"{tag}: table unchanged", W.table(obj) == before, f"table {before} became {W.table(obj)}", loc)
            f = W.file()
            S.true(f"{tag}: file unchanged", f == fbefore or fbefore is None and f == before, f"file {fbefore} became {f}", loc)
            continue
        S.true(f"{tag}: run once", len(log.items) == 1, f"the experiment is run {len(log.items)} times", loc)
        if len(log.items) != 1:
            return
        x, given, files = log.items[0]
        S.true(f"{tag}: arguments", x is inp and sorted(given.d) == sorted(hkey(k) for k in kw) and
               all(S.lib.is_(given.d[hkey(k)][1], v) is True for k, v in kw.items()), "the experiment gets other arguments than given", loc)
        snap = files.d.get(("s", "results.csv"))
        rows = W.norm(S.list(snap[1][0]), [S.list(r) for r in S.list(snap[1][1])])[1] if snap else ()
        # what was finished (in this process or read from the file) is on disk when the next one starts
        need = [r for _, r in done] if not any(o == "fresh" for o in ops[:i]) or ondisk == done else None
        if need is not None:
            S.true(f"{tag}: finished ones are on disk", sorted(rows) == sorted(need) or not snap and not need,
                   f"when the experiment starts the file holds {rows}, finished are {need}", loc)
        if how == "!":
            S.true(f"{tag}: failure surfaces", exc is not None and S.excname(exc) == "Crash", "a failing experiment does not raise", loc)
            S.true(f"{tag}: failure records nothing", W.table(obj) == before and W.file() == fbefore, "a failed experiment changes the table or the file", loc)
            continue
        row = dict((k, text(W, v)) for k, v in kw.items())
        row["name"] = name
        row.update((k, text(W, v)) for k, v in results.items())
        row = tuple(sorted(row.items()))
        if how == "?":
            S.true(f"{tag}: failure to write surfaces", exc is not None, "an experiment that could not be written is reported as recorded", loc)
            S.true(f"{tag}: file kept", W.file() == fbefore, "a failed write changes the file", loc)
            return
        if how == "%":
            S.true(f"{tag}: interruption surfaces", exc is not None, "an interrupted save is reported as recorded", loc)
            for when, f in (("at the interruption", W.atfault and W.atfault[0]), ("afterwards", W.file())):
                S.true(f"{tag}: {when} the recorded experiments are kept",
                       fbefore is None or f is not None and set(fbefore[1]) <= set(f[1]) and set(fbefore[0]) <= set(f[0]),
                       f"{when} the file is {f}, recorded were {fbefore}", "experiment_base.Experiment.save")
            return
        if exc is not None:
            raise exc
        done.append((what, row))
        ondisk = list(done)
        cols = set(before[0]) | {k for k, _ in row}
        for where, t in (("table", W.table(obj)), ("file", W.file())):
            if t is None:
                S.bad(f"{tag}: {where}", "nothing was written", loc)
                continue
            S.true(f"{tag}: {where} rows", sorted(t[1]) == sorted(r for _, r in done), f"the {where} holds {t[1]}, finished are {[r for _, r in done]}", loc)
            S.true(f"{tag}: {where} columns", set(t[0]) == cols and len(t[0]) == len(cols), f"the {where} has columns {t[0]}, expected {sorted(cols)}", loc)


def histories(S, kind, first, n):
    """all histories of n steps starting with the given ones"""
    W = World(S)
    for rest in itertools.product(OPS, repeat=n - len(first)):
        h = first + rest
        if "B?" in h[:-1] or "B%" in h[:-1]:
            continue
        S.I.call(NativeFn("history", lambda a, k: history(S, W, kind, h, n == 2)), [], {})


OPS = ("A", "B", "C", "N", "A!", "B!", "restart", "load", "save", "fresh", "B?", "B%")
KINDS = ("int", "real", "mixed", "text", "None", "Nonetext", "NA", "bool", "boolnum", "class", "func", "tuple", "tuplenum")
CASES = []
for kind_ in KINDS:
    for n_ in (1, 2, 3, 4):
        for h_ in itertools.product(("A", "B", "C", "N", "A!", "save"), OPS) if n_ >= 3 else [(x,) for x in ("A", "B", "C", "N", "A!", "save")]:
            if "B?" in h_ or "B%" in h_ or n_ == 4 and h_[0] not in ("A", "C", "A!"):
                continue
            CASES.append(Case("C31", f"{kind_}_{n_}_{'_'.join(h_)}", histories, (kind_, h_, n_), tier="quick" if n_ < 4 and (n_ < 3 or h_[0] in ("A", "C")) else "thorough"))
