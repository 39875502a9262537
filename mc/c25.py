"""C25: the binary linear algebra behind local-Clifford equivalence is exact."""
import itertools as it

from mc.core import need
from mc.lib import *

PROPERTY = "C25"
BOUNDS = {
    "quick": "every binary matrix of up to 12 entries in any shape (also without rows or columns) and every 4x4 and 3x5 matrix, reduced up to every column (from none), with the kernels of all of them (and of two families of "
    "sparse and dense matrices up to 24x40); the constraint system of every ordered pair of graphs on up to 3 qubits (4 qubits: every 5th pair) at every vector with the determinant condition, and its kernel; "
    "search_nullspace on every basis of up to 4 vectors for one qubit, up to 2 for two, and all kernels met; both output forms of every operation on up to 3 qubits",
    "thorough": "as quick with every 4x5 matrix and every pair of graphs on 4 qubits",
}
ASSUMPTIONS = ["entries 0 and 1 of any integer type", "for more than 4 basis vectors search_nullspace answers for kernels of connected graphs"]

DTYPES = (int, np.int64, np.int8, np.uint8, np.int32)


def masks(M):
    """Rows as bit masks; bit j is column j."""
    return [sum(1 << j for j, x in enumerate(r) if x) for r in np.asarray(M).tolist()]


def from_bits(r, c, bits, typ):
    return np.array([[bits >> (i * c + j) & 1 for j in range(c)] for i in range(r)], dtype=typ).reshape(r, c)


def binary(M):
    return bool(np.isin(np.asarray(M), (0, 1)).all())


def rank(rows, cols):
    return Span([r & ((1 << cols) - 1) for r in rows]).rank


def check_reduction(M, cols):
    from flamingpy.utils.linalg import reduce_RREform_mod2

    before = M.copy()
    R, p = reduce_RREform_mod2(M, cols) if cols is not None else reduce_RREform_mod2(M)
    need(np.array_equal(M, before) and R is not M, "the matrix given was changed")
    need(R.shape == M.shape and binary(R), lambda: f"reduced form {np.asarray(R).tolist()}")
    n = M.shape[1] if cols is None else cols
    a, b = masks(M), masks(R)
    need(p == rank(a, n), lambda: f"{p} pivots, rank of the first {n} columns is {rank(a, n)}")
    A, B = Span(a), Span(b)
    need(A.rank == B.rank and all(A.contains(v) for v in b), lambda: f"the reduced form {R.tolist()} spans another space")
    last = -1
    for i, v in enumerate(b):
        left = v & ((1 << n) - 1)
        if i < p:
            lead = (left & -left).bit_length() - 1
            need(left and lead > last, lambda: f"row {i} of {R.tolist()} leads in column {lead}, the one above in {last}")
            need(sum(w >> lead & 1 for w in b) == 1, lambda: f"column {lead} of {R.tolist()} is not cleared")
            last = lead
        else:
            need(not left, lambda: f"row {i} of {R.tolist()} is not zero in the first {n} columns")


def check_kernel(M):
    from flamingpy.utils.linalg import nullspace_basis

    before = M.copy()
    N = np.asarray(nullspace_basis(M))
    need(np.array_equal(M, before), "the matrix given was changed")
    need((N.ndim == 2 and N.shape[1] == M.shape[1] or not M.shape[1] and not N.size) and binary(N), lambda: f"basis {N.tolist()}")
    rows = masks(M)
    for v in masks(N):
        need(all(bin(r & v).count("1") % 2 == 0 for r in rows), lambda: f"{v:b} is not in the kernel")
    k = M.shape[1] - rank(rows, M.shape[1])
    need(len(N) == k == Span(masks(N)).rank, lambda: f"{len(N)} basis vectors (rank {Span(masks(N)).rank}), the kernel has dimension {k}")
    return N


def matrices(rep, r, c, part, parts):
    for bits in range(part, 1 << (r * c), parts):
        with rep.case([r, c, bin(bits)], transitions=c + 2):
            M = from_bits(r, c, bits, DTYPES[bits % len(DTYPES)])
            for cols in [None, *range(c + 1)] if bits % 3 == 0 else [None, bits % (c + 1)]:
                check_reduction(M, cols)
            N = check_kernel(M)
            rep.seen((r, c, len(N)))
    rep.sample(M.tolist())


def large(rep, r, c, step):
    """Banded, sparse, dense, repeated-row and permutation matrices."""
    fams = {
        "band": lambda i, j, k: 0 <= j - i < 2 + k % 3, "mod": lambda i, j, k: (i * j + k) % 3 == 0, "square": lambda i, j, k: (i * i + j * j * (k + 1)) % 7 < 3,
        "twice": lambda i, j, k: ((i // 2) * 5 + j * 3 + k) % 4 == 0, "shift": lambda i, j, k: (i + k) % c == j, "dense": lambda i, j, k: (i * 7 + j * 11 + k) % 13 != 0,
        "anti": lambda i, j, k: i + j == c - 1 - k % 3, "zero": lambda i, j, k: j < k % 3 and i == r - 1,
    }
    for name, f in fams.items():
        for k in range(0, 9, step):
            with rep.case([r, c, name, k], transitions=3):
                M = np.array([[int(f(i, j, k)) for j in range(c)] for i in range(r)], dtype=DTYPES[k % 5])
                for cols in (None, c // 2, c):
                    check_reduction(M, cols or None)
                check_kernel(M)
                rep.seen((name, r, c))


# ---------------------------------------------------------------- constraints
ONE = [(a, b, c, d) for a, b, c, d in it.product((0, 1), repeat=4) if a * d ^ b * c]


def graph_rows(n, mask):
    A = np.zeros((n, n), dtype=int)
    for i, (a, b) in enumerate(it.combinations(range(n), 2)):
        A[a, b] = A[b, a] = mask >> i & 1
    return A


def stab_span(A):
    """Stabilizer group of a graph state: (Z part, X part) of each generator, as bit masks."""
    n = len(A)
    return [(sum(1 << j for j in range(n) if A[i][j]), 1 << i) for i in range(n)]


def maps(ops, A, B):
    """Whether the local Clifford maps the stabilizer group of graph A to the one of B."""
    n = len(A)
    for z, x in stab_span(A):
        Z = X = 0
        for q, (a, b, c, d) in enumerate(ops):
            zq, xq = z >> q & 1, x >> q & 1
            Z |= ((a & zq) ^ (b & xq)) << q
            X |= ((c & zq) ^ (d & xq)) << q
        want = 0
        for i in range(n):
            if X >> i & 1:
                want ^= stab_span(B)[i][0]
        if want != Z:
            return False
    return True


def constraints(rep, n, part, parts):
    """A vector with the determinant condition solves the system exactly when it maps the one state to the other."""
    from flamingpy.utils.linalg import lc_constraint_system, search_nullspace, clifford_vec_to_global, clifford_vec_to_tensors

    E = n * (n - 1) // 2
    allops = list(it.product(ONE, repeat=n))
    vec = np.array([[o[q][k] for k in range(4) for q in range(n)] for o in allops])
    for pair in range(part, 1 << (2 * E), parts):
        g, h = pair & ((1 << E) - 1), pair >> E
        G, H = graph_rows(n, g), graph_rows(n, h)
        with rep.case([n, "graphs", g, h], transitions=len(allops)):
            S = np.asarray(lc_constraint_system(G.astype(DTYPES[g % 3]), H.astype(DTYPES[g % 3])))
            need(S.shape == (n * n, 4 * n) and binary(S), lambda: f"constraint system of shape {S.shape}")
            ok = (S @ vec.T % 2 == 0).all(axis=0)
            for i, o in enumerate(allops):
                good = maps(o, G, H)
                need(bool(ok[i]) == good, lambda: f"operation {o} {'maps' if good else 'does not map'} the first state to the second, constraints say {bool(ok[i])}")
            N = check_kernel(S)
            res = search_nullspace(N)
            connected = all(is_connected(A) for A in (G, H))
            if res is None:
                need(not (ok.any() and (len(N) <= 4 or connected)), lambda: f"no solution found in a kernel of dimension {len(N)}")
            else:
                solution_ok(np.asarray(res), N, n)
            rep.seen((n, len(N), res is not None))
    rep.sample([n, G.tolist(), H.tolist()])


def is_connected(A):
    seen, todo = {0}, [0]
    while todo:
        u = todo.pop()
        for v in range(len(A)):
            if A[u][v] and v not in seen:
                seen.add(v)
                todo.append(v)
    return len(seen) == len(A)


def solution_ok(res, N, n):
    need(res.shape == (4 * n,) and binary(res), lambda: f"solution {res.tolist()}")
    v = masks([res])[0]
    need(Span(masks(N)).contains(v), lambda: f"solution {res.tolist()} is not in the span of {N.tolist()}")
    a, b, c, d = res.reshape(4, n)
    need(((a * d + b * c) % 2 == 1).all(), lambda: f"solution {res.tolist()} breaks the determinant condition")


def bases(rep, n, dmax, part, parts):
    """Every list of independent vectors: a solution is found exactly when the span has one."""
    from flamingpy.utils.linalg import search_nullspace

    w = 4 * n
    good = set()
    for o in it.product(ONE, repeat=n):
        good.add(sum(1 << (k * n + q) for q in range(n) for k in range(4) if o[q][k]))
    k = -1
    for d in range(1, dmax + 1):
        for vs in it.combinations(range(1, 1 << w), d) if d > 1 or n > 1 else [(x,) for x in range(1 << w)]:
            k += 1
            if k % parts != part:
                continue
            span = {0}
            for v in vs:
                span |= {x ^ v for x in span}
            with rep.case([n, "basis", vs]):
                N = np.array([[v >> j & 1 for j in range(w)] for v in vs], dtype=DTYPES[k % 3])
                before = N.copy()
                res = search_nullspace(N)
                need(np.array_equal(N, before), "the basis given was changed")
                has = bool(span & good)
                need((res is not None) == has, lambda: f"{'no ' if res is None else ''}solution found, the span {'has one' if has else 'has none'}")
                if res is not None:
                    solution_ok(np.asarray(res), N, n)
                rep.seen((n, d, has))
    with rep.case([n, "no basis vector"]):
        need(search_nullspace(np.zeros((0, w), dtype=int)) is None, "a solution in the zero space")


def forms(rep, n):
    """The two output forms hold the entries of the vector in their places."""
    from flamingpy.utils.linalg import clifford_vec_to_global, clifford_vec_to_tensors

    for k in range(1 << (4 * n) if n < 4 else 0):
        vec = np.array([k >> j & 1 for j in range(4 * n)])
        with rep.case([n, vec.tolist()]):
            forms_ok(vec, clifford_vec_to_tensors(vec), clifford_vec_to_global(vec))
    for m in (4, 5, 7, 12):
        with rep.case([m, "labelled entries"]):
            vec = np.arange(1, 4 * m + 1)
            forms_ok(vec, clifford_vec_to_tensors(vec), clifford_vec_to_global(vec))
    rep.seen(n)


def forms_ok(vec, T, G):
    n = len(vec) // 4
    need(len(T) == n and all(np.shape(t) == (2, 2) for t in T), lambda: f"{len(T)} factors for {n} qubits")
    for q, t in enumerate(T):
        need(np.array_equal(t, [[vec[q], vec[q + n]], [vec[q + 2 * n], vec[q + 3 * n]]]), lambda: f"factor {q} is {np.asarray(t).tolist()} for {vec.tolist()}")
    G = np.asarray(G)
    want = np.zeros((2 * n, 2 * n), dtype=int)
    for q in range(n):
        for i in (0, 1):
            for j in (0, 1):
                want[q + i * n, q + j * n] = vec[(2 * i + j) * n + q]
    need(np.array_equal(G, want), lambda: f"global form {G.tolist()} for {vec.tolist()}")


def jobs(tier):
    deep = tier == "thorough"
    J = []
    shapes = [(r, c) for r in range(1, 13) for c in range(1, 13) if r * c <= 12] + [(4, 4), (3, 5), (5, 3)] + ([(4, 5), (5, 4)] if deep else [])
    shapes += [(0, 1), (0, 2), (0, 7), (1, 0), (3, 0), (0, 0)]
    for r, c in shapes:
        parts = max(1, (1 << (r * c)) >> 12)
        for part in range(parts):
            J.append(("matrices", dict(r=r, c=c, part=part, parts=parts)))
    for r, c in ((6, 9), (9, 6), (8, 8), (16, 16), (25, 20), (36, 24), (16, 40), (24, 40)):
        J.append(("large", dict(r=r, c=c, step=1)))
    for n in (1, 2, 3):
        J.append(("constraints", dict(n=n, part=0, parts=1)))
    for part in range(16) if deep else range(0, 80, 5):
        J.append(("constraints", dict(n=4, part=part, parts=16 if deep else 400)))
    for part in range(2):
        J.append(("bases", dict(n=1, dmax=4, part=part, parts=2)))
    for part in range(8):
        J.append(("bases", dict(n=2, dmax=2, part=part, parts=8)))
    for n in (1, 2, 3):
        J.append(("forms", dict(n=n)))
    return J
