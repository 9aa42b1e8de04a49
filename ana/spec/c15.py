"""C15 Indexed access agrees with the dense tensor.

Rule: the array inferred for gather(I), with I a generic list of index tuples (one-hot matrices as free symbols), equals the
contraction of the tensor's defining network with these one-hot matrices; conversion to sparse form and every split keep the
defining network."""
from spec.common import *

GATHER = ("tt", "cp", "sparse", "sparse_t")


def at(S, net, rows):
    """the entries of a dense network at index rows"""
    d = net.ndim
    ohs = [S.lib.onehot(r, n) for r, n in zip(rows, net.shape)]
    return N.contract(ohs + [net], [["t", ("n", k)] for k in range(d)] + [[("n", k) for k in range(d)]], ["t"])


def gather(S, fmt, d, unit, ur, q):
    sh = S.dims(d, unit)
    X, x = mkd(S, fmt, "X", sh, ur)
    q = S.sym("q", 1) if q is None else q
    rows = S.index_rows("I", sh, q)
    want = at(S, x, rows)
    for label, idx in (("tuple", tuple(rows)), ("array", IntStack(rows, q))):
        g = S.run(label, lambda: S.m(X, "gather", idx))
        S.eq(label, g, want, f"gather({label})")
        S.eq(label + " again", S.run(label, lambda: S.m(X, "gather", idx)), want, f"second gather({label})")
    rev = rows[::-1]
    XT = S.get(X, "T")
    S.eq("T", S.run("T", lambda: S.m(XT, "gather", tuple(rev))), want, "gather of the transpose at reversed indices")
    S.eq("neg", S.run("neg", lambda: S.m(S.lib.unop("USub", X), "gather", tuple(rows))), N.neg(want), "gather of the negative")
    # repetitions and another order: the same rows listed twice
    other = S.index_rows("J", sh, q)
    both = tuple(S.call(S.lib.npf["concatenate"], (a, b, a)) for a, b in zip(rows, other))
    w2 = at(S, x, other)
    if fmt == "tt" or q == 1:   # masked assignments to windows are not modelled; a generic index list contains every repetition
        return
    g = S.run("repeated", lambda: S.m(X, "gather", both))
    S.eq("repeated", g, N.concat([want, w2, want], 0), "gather with repetitions")
    if fmt.startswith("sparse"):
        own = S.index_rows("X", sh, 1 if ur else S.sym("X.nnz", 1))
        S.eq("own", S.run("own", lambda: S.m(X, "gather", S.get(X, "indices"))), at(S, x, own), "gather at the stored positions")


def single(S, fmt, d):
    """one position given by numbers"""
    sh = tuple(S.sym(f"n{k}", 3) for k in range(d))
    X, x = mkd(S, fmt, "X", sh)
    for pos in ([0] * d, [k % 3 for k in range(d)], [2 - k % 3 for k in range(d)]):
        idx = S.call(S.lib.npf["array"], ListObj([ListObj([p]) for p in pos]))
        want = x
        for p in pos:
            want = N.index_axis(want, 0, p)
        g = S.run("number", lambda: S.m(X, "gather", idx))
        S.eq(f"at {pos}", g, N.reshape(want, (1,)), f"entry at {pos}")


def split(S, fmt, d, unit, nnz, n):
    sh = S.dims(d, unit)
    z = S.sym("z", 1) if nnz is None else nnz
    X = S.sparse("X", sh, z, as_tuple=fmt == "sparse_t")
    rows, e = S.index_rows("X", sh, z), S.atom("X.e", z)
    x = scatter(S, rows, e.net, sh)
    Z = S.run("split", lambda: S.m(X, "split", n))
    ts = S.list(S.get(Z, "tensors"))
    S.true("blocks", len(ts) == n, f"{len(ts)} blocks, expected {n}")
    S.eq("split", S.run("to_numpy", lambda: S.to_numpy(Z)), x, "sum of the blocks")
    # exactly once: the stored entries and indices of all blocks, one after the other, are those of the tensor
    tot = 0
    for t in ts:
        tot = P.padd(tot, S.get(t, "nnz"))
        S.eqtuple("shape", S.get(t, "shape"), sh, "shape of a block")
    S.eqint("nnz", tot, z, "stored entries of all blocks")
    S.eq("operand", S.to_numpy(X), x, "the split tensor afterwards")


def densify(S, d, unit):
    sh = S.dims(d, unit)
    X, x = mkd(S, "dense", "X", sh)
    Y = S.run("to_sparse", lambda: S.m(X, "to_sparse"))
    S.eq("to_sparse", S.run("to_numpy", lambda: S.to_numpy(Y)), x, "entries of the sparse form")
    S.eq("entries", S.call(S.lib.npf["sum"], S.get(Y, "entries")), N.contract([x], [list(range(d))], []), "sum of the stored entries")
    q = S.sym("q", 1)
    rows = S.index_rows("I", sh, q)
    S.eq("gather", S.run("gather", lambda: S.m(Y, "gather", tuple(rows))), at(S, x, rows), "gather from the sparse form")
    for n in (1, 2, 3):
        Z = S.run("split", lambda: S.m(Y, "split", n))
        S.eq(f"split {n}", S.run("split", lambda: S.to_numpy(Z)), x, "blocks of the sparse form")
    S.eq("T", S.to_numpy(S.get(Y, "T")), N.transpose(x, list(range(d))[::-1]), "transposed sparse form")


CASES = []
for d in (1, 2, 3, 4, 5):
    t = "quick" if d < 4 else "thorough"
    units = [()] + ([(0,), (d - 1,)] if d > 1 else [(0,)]) + ([(1,)] if d > 2 else [])
    for u in units:
        for fmt in GATHER:
            for ur in (False, True):
                for q in (None, 1):
                    CASES.append(Case("C15", f"gather_{fmt}_{d}_{u}_{ur}_{q}", gather, (fmt, d, u, ur, q), tier=t))
        for fmt in ("sparse", "sparse_t"):
            for nnz in (None, 1, 2, 5):
                for n in (1, 2, 3, 4, 7):
                    CASES.append(Case("C15", f"split_{fmt}_{d}_{u}_{nnz}_{n}", split, (fmt, d, u, nnz, n), tier=t))
        CASES.append(Case("C15", f"densify_{d}_{u}", densify, (d, u), tier=t))
    for fmt in GATHER[1:]:
        CASES.append(Case("C15", f"single_{fmt}_{d}", single, (fmt, d), tier=t))
