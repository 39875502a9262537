"""C15: graph-state menu produces the named graphs."""
import networkx as nx

from mc.core import need
from mc.lib import *

PROPERTY = "C15"
BOUNDS = {
    "quick": "every size from 1 to 250 and eleven up to 1200 (complete), 600 (star, ring, line; ring from 3), sizes next to powers of two to 4096 and of ten to 10000, the Bell pair, every invalid size of a list of 20, repeated and interleaved calls",
    "thorough": "every size up to 700 (complete), 4000 (others)",
}
ASSUMPTIONS = ["rings of one or two qubits are not covered", "numpy integers may be accepted or refused as sizes"]


def degrees(G):
    return sorted(d for _, d in G.degree())


def is_graph(G, kind, n):
    from flamingpy.codes.graphs import EGraph

    need(isinstance(G, EGraph), f"result is {type(G).__name__}")
    need(len(G) == n, lambda: f"{len(G)} qubits for size {n}")
    need(all(isinstance(p, tuple) and len(p) == 3 for p in G.nodes), "a qubit is not a point")
    need(nx.number_of_selfloops(G) == 0, "a qubit is bonded to itself")
    need(all(d.get("weight", 1) == 1 for _, _, d in G.edges(data=True)), "bonds have other weights")
    E = G.number_of_edges()
    if n == 1:
        need(E == 0, "a single qubit has no bonds")
        return
    need(nx.is_connected(G), "the graph is not connected")
    if kind == "complete":
        need(E == n * (n - 1) // 2, lambda: f"{E} bonds in the complete graph of {n} qubits")
    elif kind == "star":
        need(E == n - 1 and degrees(G)[-1] == n - 1, lambda: f"degrees {degrees(G)[-3:]} in the star of {n} qubits")
    elif kind == "line":
        need(E == n - 1 and degrees(G)[-1] <= 2, lambda: f"degrees {degrees(G)[-3:]} in the line of {n} qubits")
    elif kind == "ring":
        need(E == n and degrees(G) == [2] * n, lambda: f"degrees {degrees(G)} in the ring of {n} qubits")


def indexed(G, n):
    k = len(G)
    ind = G.index_generator()
    need(sorted(ind.values()) == list(range(k)) and set(ind) == set(G.nodes), "indices are not contiguous")
    A = G.adj_generator(sparse=n % 2 == 0)
    A = A if isinstance(A, np.ndarray) else A.toarray()
    need(A.shape == (k, k) and (A == A.T).all() and A.sum() == 2 * G.number_of_edges(), "adjacency matrix")
    need(all(A[ind[a], ind[b]] == 1 for a, b in G.edges), "adjacency matrix lacks a bond")


def makers():
    from flamingpy.utils import graph_states as g

    return {"star": g.star_graph, "complete": g.complete_graph, "line": g.linear_cluster, "ring": g.ring_graph}


def sizes(rep, kind, lo, hi, full):
    f = makers()[kind]
    for n in range(lo, hi):
        if kind == "ring" and n == 2:
            continue
        with rep.case([kind, n]):
            G = f(n)
            is_graph(G, kind, n)
            if n <= full:
                indexed(G, n)
                is_graph(G, kind, n)
                # the caller's graph is its own
                G.add_qubit((99, 0, 0), neighbors=[sorted(G.nodes)[0]])
                is_graph(f(n), kind, n)
        rep.seen((kind, n))
    rep.sample([kind, n])


def others(rep):
    from flamingpy.utils.graph_states import bell

    for _ in range(3):
        with rep.case("bell"):
            G = bell()
            is_graph(G, "line", 2)
            indexed(G, 2)
    for kind, f in makers().items():
        for bad in (0, -1, -5, -100, 1.0, 2.5, 3.0, "3", "", None, [3], (3,), {3}, 2 + 0j, math.inf, math.nan, np.float64(3), b"3", {}, object()):
            with rep.case([kind, repr(bad)[:20]]):
                try:
                    f(bad)
                except Exception:
                    pass
                else:
                    need(False, f"size {bad!r} accepted")
        for n in (1, 3, 4, 7):  # refused sizes leave no trace
            with rep.case([kind, n, "afterwards"]):
                is_graph(f(n), kind, n)
    for n in range(3, 30):
        for a in makers():
            for b in makers():
                with rep.case([n, a, b, "interleaved"], transitions=2):
                    G = makers()[a](n)
                    s = sorted(map(str, G.edges))
                    is_graph(makers()[b](n + 1), b, n + 1)
                    need(sorted(map(str, G.edges)) == s, "an earlier graph was changed")
                    is_graph(G, a, n)


def jobs(tier):
    deep = tier == "thorough"
    J = [("others", {})]
    top = 701 if deep else 251
    for lo in range(1, top, 10):
        J.append(("sizes", dict(kind="complete", lo=lo, hi=min(lo + 10, top), full=60)))
    top = 4001 if deep else 601
    for kind in ("star", "line", "ring"):
        for lo in range(1, top, 100):
            J.append(("sizes", dict(kind=kind, lo=lo, hi=min(lo + 100, top), full=60)))
    for n in sorted({2**k + d for k in range(8, 13) for d in (-1, 0, 1)} | {10**k + d for k in (3, 4) for d in (-1, 0, 1)} | {2000, 3000, 5000}):
        for kind in ("star", "line", "ring"):
            J.append(("sizes", dict(kind=kind, lo=n, hi=n + 1, full=60)))
        if n <= 600:
            J.append(("sizes", dict(kind="complete", lo=n, hi=n + 1, full=60)))
    for n in (300, 360, 400, 450, 512, 600, 720, 800, 900, 1000, 1200):
        J.append(("sizes", dict(kind="complete", lo=n, hi=n + 1, full=60)))
    return J[::-1]
