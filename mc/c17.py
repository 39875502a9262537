"""C17: entangling and splitter transformations are correct symplectic maps."""
import scipy.sparse as sp

from mc.core import need
from mc.lib import *
from mc.c12 import SPLIT

PROPERTY = "C17"
BOUNDS = {
    "quick": "all graphs with bond weights -1, 0, 1 on up to 4 modes and all unweighted ones on 5, weights 1/2 and large on structured graphs up to 10 modes, adjacency "
    "matrices dense (4 number types, 2 memory orders) and sparse (14 kinds); every unit vector and matrix unit and generic vectors and matrices of 4 number "
    "types, both evaluation modes; all permutations up to size 7 and a family at every size to 520 and around 2^15, 2^16; splitter networks up to 64 modes; SCZ of noise layers on 12 codes",
    "thorough": "all weighted graphs on 5 modes and unweighted ones on 6, permutations up to size 8, networks up to 256 modes",
}
ASSUMPTIONS = ["adjacency matrices are symmetric", "results within 1e-9 of the exact linear maps (splitter: single precision, 1e-6)",
               "numbers stay within the range of the types used", "quadratures are NumPy arrays"]

DENSE = {
    "float": lambda a: a.astype(float), "int8": lambda a: a.astype(np.int8), "int64": lambda a: a.astype(np.int64),
    "float32": lambda a: a.astype(np.float32), "F": lambda a: np.asfortranarray(a.astype(float)),
}
SPARSE = {}
for k in ("csr", "csc", "coo", "lil", "dok", "bsr", "dia"):
    for kind in ("matrix", "array"):
        if hasattr(sp, f"{k}_{kind}"):
            SPARSE[f"{k}_{kind}"] = (lambda c: lambda a: c(a))(getattr(sp, f"{k}_{kind}"))
KINDS = {**DENSE, **SPARSE}


def dense(x):
    return x.toarray() if sp.issparse(x) or hasattr(x, "toarray") else np.asarray(x)


def frozen(A):
    return dense(A).copy(), getattr(A, "dtype", None), type(A)


def S_of(a):
    n = len(a)
    S = np.eye(2 * n)
    for i in range(n):
        for j in range(n):
            S[n + i, j] = a[i, j]
    return S


def generic(n, dim, dtype, salt=0):
    x = np.array([((i * 37 + 11 * salt + 5) % 23) - 9 + ((i * i) % 7) for i in range((2 * n) ** dim)])
    x = x.reshape((2 * n,) * dim)
    if np.issubdtype(dtype, np.floating):
        return (x + 0.37 * np.sin(1 + np.arange(x.size)).reshape(x.shape)).astype(dtype)
    return x.astype(dtype)


def mat_ok(a, kind, integer=True):
    """SCZ_mat for one adjacency matrix in one container."""
    from flamingpy.cv.ops import SCZ_mat

    n = len(a)
    A = KINDS[kind](a)
    before = frozen(A)
    S0 = S_of(a)
    for args, kw in (((), {}), ((True,), {}), ((False,), {}), ((), {"sparse": False}), ((), {"sparse": True})):
        S = SCZ_mat(A, *args, **kw)
        want_sparse = kind in SPARSE and not (args == (False,) or kw.get("sparse") is False)
        is_sp = not isinstance(S, np.ndarray)
        need(is_sp == want_sparse, lambda: f"result is {type(S).__name__} for {kind}, options {args, kw}")
        D = dense(S)
        need(D.shape == (2 * n, 2 * n), lambda: f"shape {D.shape}")
        need(np.array_equal(D, S0), lambda: f"wrong matrix for {kind} {args} {kw}: {D.tolist()}, adjacency {a.tolist()}")
    now = frozen(A)
    need(np.array_equal(now[0], before[0]) and now[1:] == before[1:], "the adjacency matrix was changed")
    om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
    need(np.allclose(S0 @ om @ S0.T, om), "not symplectic")


def apply_ok(a, kind, quads, what):
    from flamingpy.cv.ops import SCZ_apply

    A = KINDS[kind](a)
    before = frozen(A)
    S = S_of(a)
    q0 = quads.copy()
    x = quads.astype(float)
    want = S @ x if x.ndim == 1 else S @ x @ S.T
    tol = 1e-9 * (1 + np.abs(want).max()) if quads.dtype != np.float32 else 1e-4 * (1 + np.abs(want).max())
    if kind == "float32":
        tol = max(tol, 1e-5 * (1 + np.abs(want).max()))
    for kw in ({}, {"one_shot": True}, {"one_shot": False}):
        got = SCZ_apply(A, quads, **kw)
        need(isinstance(got, np.ndarray) and got.shape == quads.shape, lambda: f"result {type(got)} of shape {np.shape(got)}")
        need(np.abs(got - want).max() <= tol, lambda: f"{kind} {kw}: {what} mapped to {got.tolist()}, should be {want.tolist()} (adjacency {a.tolist()})")
        got[...] = 0  # must not be a view of the input
        need(np.array_equal(quads, q0), "the quadratures were changed")
    now = frozen(A)
    need(np.array_equal(now[0], before[0]) and now[1:] == before[1:], "the adjacency matrix was changed")


def graphs(n, weights):
    pairs = list(it.combinations(range(n), 2))
    for w in it.product(weights, repeat=len(pairs)):
        a = np.zeros((n, n))
        for (i, j), x in zip(pairs, w):
            a[i, j] = a[j, i] = x
        yield a


def units(n):
    for i in range(2 * n):
        v = np.zeros(2 * n)
        v[i] = 1
        yield v, ["unit vector", i]
    for i in range(2 * n):
        for j in range(2 * n):
            m = np.zeros((2 * n, 2 * n))
            m[i, j] = 1
            yield m, ["matrix unit", i, j]


def small(rep, n, weights, part, parts, unit_kinds, all_kinds=True):
    for g, a in enumerate(graphs(n, weights)):
        if g % parts != part:
            continue
        with rep.case([n, a.tolist()], transitions=20):
            kinds = KINDS if all_kinds else ("float", "csr_array", "csc_matrix")
            for kind in kinds:
                mat_ok(a, kind)
            for kind in unit_kinds:
                for x, what in units(n):
                    rep.transitions += 3
                    apply_ok(a, kind, x, what)
            for kind in kinds:
                for dt in (float, np.int64, np.float32, int) if n < 4 else (float, np.int64):
                    for dim in (1, 2):
                        rep.transitions += 3
                        apply_ok(a, kind, generic(n, dim, dt, g), ["generic", dim, str(np.dtype(dt))])
        rep.seen((n, int(np.abs(a).sum())))
    rep.sample([n, a.tolist()])


def structured(rep, n):
    """Larger graphs, and weights that are not integers."""
    shapes = {
        "path": [(i, i + 1) for i in range(n - 1)], "ring": [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)],
        "star": [(0, i) for i in range(1, n)], "complete": list(it.combinations(range(n), 2)), "none": [], "one": [(0, n - 1)],
    }
    for name, edges in shapes.items():
        for wname, w in (("half", lambda k: 0.5), ("mixed", lambda k: (-1) ** k * (k % 3 + 0.25)), ("large", lambda k: 100 + k), ("loop", lambda k: 1)):
            a = np.zeros((n, n))
            for k, (i, j) in enumerate(edges):
                a[i, j] = a[j, i] = w(k)
            if wname == "loop":
                a[0, 0] = 1
            with rep.case([name, wname, n], transitions=50):
                for kind in KINDS:
                    if wname in ("half", "mixed") and "int" in kind or kind == "int8":
                        continue
                    mat_ok(a, kind)
                    for dt in (float, np.int64, np.float32):
                        for dim in (1, 2):
                            rep.transitions += 3
                            apply_ok(a, kind, generic(n, dim, dt), ["generic", dim, str(np.dtype(dt))])
                # bonds applied twice add up, and are undone by their opposites
                from flamingpy.cv.ops import SCZ_apply
                for dim in (1, 2):
                    x = generic(n, dim, float)
                    for shot in (True, False):
                        y = SCZ_apply(-a, SCZ_apply(a, x, one_shot=shot), one_shot=not shot)
                        need(np.allclose(y, x), "opposite bonds do not undo the map")
            rep.seen((name, wname))


def perms(rep, n, part, parts):
    from flamingpy.cv.ops import invert_permutation

    for k, p in enumerate(it.permutations(range(n))):
        if k % parts != part:
            continue
        with rep.case(["permutation", p]):
            for dt in (np.int64, np.int32, np.int8, np.uint8):
                P = np.array(p, dtype=dt)
                inv = invert_permutation(P)
                need(P.tolist() == list(p), "the permutation was changed")
                need(isinstance(inv, np.ndarray) and inv.shape == P.shape and np.issubdtype(inv.dtype, np.integer), lambda: f"result {inv!r}")
                need([p[i] for i in inv] == list(range(n)) and [int(inv[i]) for i in p] == list(range(n)), lambda: f"inverse of {p} is {inv}")
                x = np.arange(n) * 10
                need((x[P][inv] == x).all(), "not undone")
        rep.seen(n)


def long_perms(rep, sizes):
    """Rotations, reversals, multiplications and exchanges of every size, in every number type that holds it."""
    from flamingpy.cv.ops import invert_permutation

    for n in sizes:
        base = np.arange(n)
        family = {"identity": base, "reversal": base[::-1], "rotation": np.roll(base, 1), "rotation back": np.roll(base, -1), "half rotation": np.roll(base, n // 2)}
        family.update({f"times {k}": base * k % n for k in (3, 5, 7, 11) if math.gcd(k, n) == 1})
        ex = base.copy()
        ex[[0, n - 1]] = ex[[n - 1, 0]]
        family["exchange"] = ex
        for name, p in family.items():
            with rep.case(["permutation of", n, name]):
                for dt in (np.int64, np.int32, np.uint16, np.uint8, np.int8):
                    if n - 1 > np.iinfo(dt).max:
                        continue
                    P = p.astype(dt)
                    inv = invert_permutation(P)
                    need((P == p).all(), "the permutation was changed")
                    need(inv.shape == p.shape and np.issubdtype(inv.dtype, np.integer), "not an array of integers")
                    need((p[inv] == base).all() and (np.asarray(inv)[p] == base).all(), "not the inverse")
        rep.seen(n)


def splitter(rep, top):
    from flamingpy.cv.ops import splitter_symp

    ref = np.kron(np.eye(2), SPLIT)
    with rep.case("four modes"):
        for S in (splitter_symp(), splitter_symp(4), splitter_symp(n=4)):
            need(S.shape == (8, 8) and np.allclose(S, ref, atol=1e-6), lambda: f"four-splitter is {S.tolist()}")
            S[...] = 0  # later calls must not see this
    perm = [0, 4, 1, 5, 2, 6, 3, 7]
    block = ref[np.ix_(perm, perm)]
    for n in range(8, top + 1, 4):
        with rep.case(["modes", n]):
            S = splitter_symp(n)
            need(S.shape == (2 * n, 2 * n), lambda: f"shape {S.shape} for {n} modes")
            om = np.kron(np.eye(n), [[0, 1], [-1, 0]])
            need(np.allclose(S @ S.T, np.eye(2 * n), atol=1e-5) and np.allclose(S @ om @ S.T, om, atol=1e-5), "not orthogonal symplectic")
            need(np.allclose(S, np.kron(np.eye(n // 4), block), atol=1e-6), lambda: f"{n} modes are not repeated four-splitters")
        rep.seen(n)
    for n in (3, 2, 1, 0):
        with rep.case(["modes", n]):
            try:
                S = splitter_symp(n)
            except Exception:  # refused, as stated
                continue
            need(False, f"a network of {n} modes was returned")


def layers(rep, dims, ec, b, polarity):
    """The symplectic matrix of noise layers, with and without macronodes."""
    from flamingpy.noise import CVLayer, CVMacroLayer
    from flamingpy.codes import alternating_polarity

    kw = {"polarity": alternating_polarity} if polarity else {}
    for macro in (False, True):
        with rep.case([dims, ec, b, polarity, "macronodes" if macro else "lattice"], limit=300):
            code = make_code(dims, ec, b, **kw)
            layer = (CVMacroLayer if macro else CVLayer)(code, delta=0.1)
            G = layer.egraph
            order = {p: i for i, p in G.to_points.items()}
            n = len(order)
            need(sorted(order.values()) == list(range(n)), "indices of the modes")
            want = {(n + order[u], order[v]) for u, v in G.edges} | {(n + order[v], order[u]) for u, v in G.edges}
            val = {}
            for u, v, d in G.edges(data=True):
                val[n + order[u], order[v]] = val[n + order[v], order[u]] = d.get("weight", 1)
            for sparse in (True, False):
                S = layer.SCZ(sparse=sparse)
                need(isinstance(S, np.ndarray) != sparse, "form of the result")
                D = sp.coo_matrix(S)
                got = {(int(i), int(j)): float(x) for i, j, x in zip(D.row, D.col, D.data) if i != j and x}
                need(set(got) == want and all(got[k] == val[k] for k in got), "entries of the symplectic matrix are not the bonds")
                need((D.diagonal() == 1).all() and D.shape == (2 * n, 2 * n), "diagonal or shape")
        rep.seen((dims, ec, b, macro, n))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    uk = ("float", "csr_array", "coo_matrix", "int8")
    for n in (1, 2, 3):
        for part in range(1 if n < 3 else 4):
            J.append(("small", dict(n=n, weights=[-1, 0, 1], part=part, parts=1 if n < 3 else 4, unit_kinds=list(KINDS))))
    for part in range(16):
        J.append(("small", dict(n=4, weights=[-1, 0, 1], part=part, parts=16, unit_kinds=["float"] if not deep else list(uk))))
    for part in range(8):
        J.append(("small", dict(n=5, weights=[0, 1] if not deep else [-1, 0, 1], part=part, parts=8, unit_kinds=["float"] if not deep else [], all_kinds=False)))
    if deep:
        for part in range(16):
            J.append(("small", dict(n=6, weights=[0, 1], part=part, parts=16, unit_kinds=[], all_kinds=False)))
    for n in range(2, 11):
        J.append(("structured", dict(n=n)))
    for n in range(1, 8 + deep):
        for part in range(1 if n < 7 else 4):
            J.append(("perms", dict(n=n, part=part, parts=1 if n < 7 else 4)))
    for part in range(4):
        J.append(("long_perms", dict(sizes=list(range(1 + part, 521, 4)) + [[32767, 32768], [32769, 65535], [65536, 65537], [70001]][part])))
    J.append(("splitter", dict(top=256 if deep else 64)))
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for pol in (0, 1):
                J.append(("layers", dict(dims=[2, 3, 2] if b != "periodic" else [3, 3, 3], ec=ec, b=b, polarity=pol)))
    return J
