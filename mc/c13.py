"""C13: graph-state edits keep indices and adjacency consistent."""
import copy

from mc.core import need
from mc.lib import *

PROPERTY = "C13"
BOUNDS = {
    "quick": "every sequence of up to 4 operations from an alphabet of 12-17: indexing, adjacency requests in both forms, insertions (named or "
    "default position, neighbours by point, by index, none, empty, to existing/new macronodes), removals (by point, by index, from the middle), refused edits of every kind; "
    "long alternations of 150 operations; removal of everything in several orders; 12 starting graphs incl. empty, single-qubit, weighted, code lattices and macronized ones, and (every sequence of 2) a line of 300 qubits and a 4x4x5 code; every assignment of 19 kinds of bond weights (fractions, large and small integers, defaults) to two bonds",
    "thorough": "as quick with one more operation on three small graphs and the lattices",
}
ASSUMPTIONS = ["index gaps left by removals are allowed", "a refused edit may compute the index maps if there were none"]
OUT = (9, 9, 9)


def starts(name):
    """A starting graph with the model of it: points, bonds, macronodes."""
    from flamingpy.codes.graphs import EGraph
    from flamingpy.codes.surface_code import RHG_graph, alternating_polarity

    def line(n, w=False):
        G = EGraph()
        pts = [(2 - k, k % 2, 0) for k in range(n)]
        G.add_nodes_from(pts)
        for k in range(n - 1):
            if w:
                G.add_edge(pts[k], pts[k + 1], weight=-1 if k % 2 else 2)
            else:
                G.add_edge(pts[k], pts[k + 1])
        return G

    if name == "empty":
        return EGraph()
    if name == "one":
        G = EGraph()
        G.add_node((0, 0, 0))
        return G
    if name == "line":
        return line(3)
    if name == "weighted":
        return line(3, True)
    if name == "lattice":
        return RHG_graph((2, 2, 2), np.array(["primal", "dual", "dual"]), polarity=alternating_polarity)
    if name == "code":
        return make_code(2, "dual", "open").graph
    if name == "long line":
        return line(300)
    if name == "large code":
        return make_code((4, 4, 5), "primal", "open").graph
    if name == "macro pair":
        return line(2).macronize()
    if name == "macro line":
        return line(3, True).macronize()
    if name == "macro padded":
        return line(2).macronize(pad_boundary=True)
    if name == "macro lattice":
        return RHG_graph((2, 2, 2), np.array(["periodic"] * 3)).macronize()
    if name == "marked macro":
        return EGraph([((0, 0, 0), (1, 0, 0))], macronodes=False)


class Model:
    def __init__(self, G):
        self.nodes = set(G.nodes)
        self.edges = {frozenset(e[:2]): e[2].get("weight", 1) for e in G.edges(data=True)}
        self.macro = None if G.macro_to_micro is None else {k: list(v) for k, v in G.macro_to_micro.items()}
        self.home = None if self.macro is None else {m: k for k, v in self.macro.items() for m in v}


class Refused(Exception):
    pass


def alphabet(name):
    ops = [
        ("index",), ("adj", True), ("adj", False),
        ("add", "fresh", "first-two"), ("add", "default", "index0"), ("add", "fresh", "empty"), ("add", "default", "none"),
        ("add", "low", "index-last"),
        ("remove", "point", 0), ("remove", "point", -1), ("remove", "index", 0), ("remove", "index", -1),
        ("remove", "point", "middle"),
        ("bad",),
    ]
    if name.startswith("macro"):
        ops = [o for o in ops if o not in (("add", "fresh", "empty"), ("remove", "index", -1), ("remove", "point", "middle"))]
        ops += [("add", "into", "first-two"), ("add", "new macro", "none"), ("add", "into", "index0"), ("remove", "same macro", 0)]
    return ops


def point_for(kind, G, M, k):
    if kind == "fresh":
        return (5, k, -1)
    if kind == "low":
        return (-7 - k, 0, 3)
    if kind == "into":
        v = sorted(M.macro)[0] if M.macro else (0, 0, 0)
        return (v[0] + 0.01 * (k + 1), v[1], v[2] - 0.02)
    if kind == "new macro":
        return (4.2, float(k) - 0.1, -3.3)


def apply(G, M, op, k):
    """Perform op on the graph and on the model; refused edits raise Refused from the model's view."""
    if op[0] == "index":
        G.index_generator()
    elif op[0] == "adj":
        if not M.nodes and op[1]:
            return  # no sparse matrix without rows
        A = G.adj_generator(sparse=op[1])
        check_adj(G, M, A, op[1])
    elif op[0] == "add":
        _, pk, nk = op
        macro = pk in ("into", "new macro")
        if pk == "default":
            arg = None
            if not M.nodes:
                raise Refused(lambda: G.add_qubit())
            pt = (max(p[0] for p in M.nodes) + 1, 0, 0)
        else:
            arg = pt = point_for(pk, G, M, k)
        nb, nbpts = None, []
        if nk == "first-two":
            nbpts = sorted(M.nodes)[:2]
            nb = list(nbpts)
        elif nk == "empty":
            nb = []
        elif nk in ("index0", "index-last"):
            if not M.nodes:
                raise Refused(lambda: G.add_qubit(arg, neighbors=[0]))
            ind = dict(G.index_generator())
            i = (min if nk == "index0" else max)(ind.values())
            nb, nbpts = [i], [p for p, j in ind.items() if j == i]
        kw = {} if not macro else {"add_to_macronode": True}
        if nb is not None:
            kw["neighbors"] = nb
        G.add_qubit(arg, **kw) if arg is not None or k % 2 else G.add_qubit(**kw)
        M.nodes.add(pt)
        for x in nbpts:
            M.edges[frozenset((x, pt))] = 1
        if macro:
            v = tuple(round(c) for c in pt)
            M.macro.setdefault(v, []).append(pt)
            M.home[pt] = v
    elif op[0] == "remove":
        _, how, which = op
        if not M.nodes:
            raise Refused(lambda: G.remove_qubit((0, 0, 0)))
        if how == "index":
            if G.to_indices is None:
                raise Refused(lambda: G.remove_qubit(0))
            ind = dict(G.to_indices)
            i = min(ind.values()) if which == 0 else max(ind.values())
            (pt,) = [p for p, j in ind.items() if j == i]
            G.remove_qubit(i)
        else:
            pt = sorted(M.nodes)[len(M.nodes) // 2 if which == "middle" else which]
            if how == "same macro" and M.home:
                v = sorted(M.macro)[0]
                pt = M.macro[v][-1]
            G.remove_qubit(pt)
        M.nodes.discard(pt)
        M.edges = {e: w for e, w in M.edges.items() if pt not in e}
        if M.home and pt in M.home:
            v = M.home.pop(pt)
            M.macro[v].remove(pt)
            if not M.macro[v]:
                del M.macro[v]


def bad_edits(G, M):
    """Edits that must be refused."""
    some = sorted(M.nodes)[0] if M.nodes else None
    res = [
        ("two coordinates", lambda: G.add_qubit((1, 2))),
        ("four coordinates", lambda: G.add_qubit((1, 2, 3, 4))),
        ("not a tuple", lambda: G.add_qubit([1, 2, 3])),
        ("unknown neighbour", lambda: G.add_qubit((8, 8, 8), neighbors=[OUT])),
        ("known then unknown neighbour", lambda: G.add_qubit((8, 8, 8), neighbors=[some, OUT] if some else [OUT])),
        ("unknown index", lambda: G.add_qubit((8, 8, 8), neighbors=[10**6])),
        ("known then unknown index", lambda: G.add_qubit((8, 8, 8), neighbors=[0, 10**6])),
        ("neighbour of another type", lambda: G.add_qubit((8, 8, 8), neighbors=["a"])),
        ("removal of an unknown qubit", lambda: G.remove_qubit(OUT)),
        ("removal of another type", lambda: G.remove_qubit("x")),
        ("removal of an unknown index", lambda: G.remove_qubit(10**6)),
    ]
    if some:
        res.append(("existing qubit", lambda: G.add_qubit(some)))
        res.append(("existing qubit with neighbours", lambda: G.add_qubit(some, neighbors=[some])))
    if M.macro is None:
        res.append(("macronode in a graph without", lambda: G.add_qubit((8, 8, 8), add_to_macronode=True)))
    else:
        res.append(("unknown neighbour, into a macronode", lambda: G.add_qubit((8.1, 8, 8), neighbors=[OUT], add_to_macronode=True)))
    return res


def state(G):
    A = G.adj_mat
    return (
        sorted(map(str, G.nodes(data=True))), sorted(str((sorted(map(str, e[:2])), e[2])) for e in G.edges(data=True)),
        None if G.to_indices is None else dict(G.to_indices), None if G.to_points is None else dict(G.to_points),
        None if G.macro_to_micro is None else {k: list(v) for k, v in G.macro_to_micro.items()},
        None if A is None else np.array(A if isinstance(A, np.ndarray) else A.toarray()).tolist(),
    )


def must_refuse(G, M, what, f):
    s = state(G)
    try:
        f()
    except Exception:
        pass
    else:
        need(False, f"{what}: accepted")
    t = state(G)
    names = ("qubits", "bonds", "to_indices", "to_points", "macronodes", "adjacency matrix")
    for i, n in enumerate(names):
        if s[i] is None and i in (2, 3) or t[i] is None and i == 5:
            continue  # computed or dropped caches are checked below
        need(s[i] == t[i], lambda: f"{what}: refused, yet the {n} changed")


def check_adj(G, M, A, sparse):
    need(isinstance(A, np.ndarray) != sparse, lambda: f"adjacency matrix of type {type(A).__name__}, sparse={sparse}")
    D = A if isinstance(A, np.ndarray) else A.toarray()
    ind = G.to_indices
    pts = sorted(ind, key=ind.get)
    need(D.shape == (len(pts),) * 2, lambda: f"adjacency matrix of shape {D.shape} for {len(pts)} qubits")
    W = np.zeros((len(pts),) * 2)
    pos = {p: i for i, p in enumerate(pts)}
    for e, w in M.edges.items():
        a, b = e
        W[pos[a], pos[b]] = W[pos[b], pos[a]] = w
    need((D == W).all(), lambda: f"adjacency matrix differs from the graph at {[(pts[i], pts[j], int(D[i, j]), W[i, j]) for i, j in zip(*np.nonzero(D != W))][:3]}")


def check_maps(G, M):
    need(set(G.nodes) == M.nodes, lambda: f"qubits {sorted(set(G.nodes) ^ M.nodes)} should (not) be there")
    E = {frozenset(e[:2]): e[2].get("weight", 1) for e in G.edges(data=True)}
    need(E == M.edges, lambda: f"bonds differ: {[tuple(map(tuple, k)) for k in set(E) ^ set(M.edges)][:3]}")
    need((G.to_indices is None) == (G.to_points is None), "only one of the index maps exists")
    if G.to_indices is not None:
        need(set(G.to_indices) == M.nodes, lambda: f"to_indices covers other qubits: {sorted(set(G.to_indices) ^ M.nodes)}")
        need(G.to_points == {i: p for p, i in G.to_indices.items()} and len(G.to_points) == len(G.to_indices), "index maps are not inverse bijections")
        need(all(isinstance(i, (int, np.integer)) and i >= 0 for i in G.to_points), "indices are not natural numbers")
    if M.macro is None:
        need(G.macro_to_micro is None, "macronodes appeared")
    else:
        have = {k: sorted(v) for k, v in G.macro_to_micro.items()}
        want = {k: sorted(v) for k, v in M.macro.items()}
        need(have == want, lambda: f"macronodes {have}, expected {want}")


def probe(G, M):
    check_maps(G, M)
    H = copy.deepcopy(G)
    H.index_generator()
    check_maps(H, M)
    for sparse in (True, False) if M.nodes else ():
        K = copy.deepcopy(G)
        check_adj(K, M, K.adj_generator(sparse=sparse), sparse)
        check_maps(K, M)
        check_adj(K, M, K.adj_generator(sparse=not sparse), not sparse)
        need(K.to_indices == H.to_indices or set(K.to_indices) == set(H.to_indices), "indices depend on the request")


def run(name, seq):
    G = starts(name)
    M = Model(G)
    for k, op in enumerate(seq):
        if op[0] == "bad":
            for what, f in bad_edits(G, M):
                must_refuse(G, M, what, f)
        else:
            try:
                apply(G, M, op, k)
            except Refused as r:
                must_refuse(G, M, str(op), r.args[0])
        check_maps(G, M)
    return G, M


def sequences(rep, name, depth, first):
    """All sequences of the given length starting with the given operation."""
    ops = alphabet(name)
    import itertools

    for n in range(depth):
        for tail in itertools.product(ops, repeat=n):
            seq = (ops[first],) + tail
            with rep.case([name, seq], transitions=len(seq)):
                G, M = run(name, seq)
                probe(G, M)
                if n < 2:
                    rep.seen((name, len(M.nodes), len(M.edges), G.to_indices is None))
    rep.sample([name, seq])


def erase_all(rep, name):
    """Remove every qubit in several orders, then add again."""
    for order in range(4):
        for how in ("point", "index"):
            for first in ((), (("adj", True),), (("index",), ("adj", False))):
                with rep.case([name, "erase", order, how, first], limit=300):
                    G, M = run(name, first)
                    if how == "index":
                        G.index_generator()
                    k = 0
                    while M.nodes:
                        ops = [("remove", how, [0, -1, -(k % 2), 0][order])]
                        apply(G, M, ops[0], k)
                        check_maps(G, M)
                        if order == 3 and M.nodes:
                            check_adj(G, M, G.adj_generator(sparse=bool(k % 2)), bool(k % 2))
                        k += 1
                    need(len(G) == 0, "qubits are left")
                    for j, op in enumerate([("add", "fresh", "none"), ("add", "low", "index0"), ("index",), ("add", "default", "first-two")]):
                        apply(G, M, op, k + j)
                        check_maps(G, M)
                    probe(G, M)


def grow(rep, name, n):
    """Long alternation of insertions, removals and requests."""
    ops = alphabet(name)
    ops = [o for o in ops if o[0] != "bad"] + [o for o in ops if o[0] == "add"]
    for stride in (1, 2, 3, 5, 7, 11, 13, 17):
        with rep.case([name, "long", stride, n], transitions=n, limit=300):
            G = starts(name)
            M = Model(G)
            for k in range(n):
                op = ops[(k * stride + k * k // 7) % len(ops)]
                try:
                    apply(G, M, op, k)
                except Refused as r:
                    must_refuse(G, M, str(op), r.args[0])
                check_maps(G, M)
            probe(G, M)


WEIGHTS = (None, 1, -1, 2, 0.5, -0.3, 127, 128, -128, -129, 300, 1e6, -2.0, 0, 70000, np.float64(0.25), np.int64(1000), 2 ** 40, True)


def weights(rep, shape):
    """Every assignment of bond weights from an alphabet, before and after edits, in both forms."""
    from flamingpy.codes.graphs import EGraph

    pts = [(1, 0, 0), (0, 2, 0), (0, 0, 3)]
    for ws in it.product(WEIGHTS, repeat=len(shape)):
        with rep.case([shape, [repr(w) for w in ws]], states=6):
            for first in (True, False):
                for edit in ("", "add", "remove"):
                    G = EGraph()
                    G.add_nodes_from(pts)
                    for (a, b), w in zip(shape, ws):
                        G.add_edge(pts[a], pts[b], **({} if w is None else {"weight": w}))
                    M = Model(G)
                    check_adj(G, M, G.adj_generator(sparse=first), first)
                    check_adj(G, M, G.adj_generator(sparse=not first), not first)
                    if edit == "add":
                        G.add_qubit((5, 5, 5), [pts[0]])
                    elif edit == "remove":
                        G.remove_qubit(pts[0])
                    if edit:
                        M = Model(G)
                        check_adj(G, M, G.adj_generator(sparse=first), first)
        rep.seen(tuple(sorted({type(w).__name__ for w in ws})))


def jobs(tier):
    deep = tier == "thorough"
    J = [("weights", dict(shape=s)) for s in ([[0, 1]], [[0, 1], [1, 2]], [[0, 2], [0, 1]]) + (([[0, 1], [1, 2], [0, 2]],) if deep else ())]
    for name in ("empty", "one", "line", "weighted", "macro pair", "macro line", "macro padded"):
        d = 5 if deep and name in ("line", "macro line", "one") else 4
        for first in range(len(alphabet(name))):
            J.append(("sequences", dict(name=name, depth=d, first=first)))
        J.append(("grow", dict(name=name, n=150)))
    for name in ("long line", "large code"):
        for first in range(len(alphabet(name))):
            J.append(("sequences", dict(name=name, depth=2 + deep, first=first)))
        J.append(("grow", dict(name=name, n=100)))
    for name in ("lattice", "code", "macro lattice"):
        for first in range(len(alphabet(name))):
            J.append(("sequences", dict(name=name, depth=(3 if name != "macro lattice" else 2) + deep, first=first)))
        J.append(("grow", dict(name=name, n=150)))
    for name in ("one", "line", "weighted", "macro pair", "macro line", "macro padded", "code"):
        J.append(("erase_all", dict(name=name)))
    return J
