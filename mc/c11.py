"""C11: macronode expansion preserves the graph state's structure."""
import copy
import itertools as it

from mc.core import need
from mc.lib import *

PROPERTY = "C11"
BOUNDS = {
    "quick": "every labelled graph without isolated vertices on 2-5 vertices in two placements (bonds of a vertex in different directions) and on 2-4 in two with large or negative coordinates, on 2-5 in two with opposite bonds of different length, "
    "every choice of periodic bonds on 2-4 vertices, "
    "several displacements, with and without padding, each with bond/vertex/graph attributes and perfect qubits of every kind; hubs with up to 26 bonds, alone and bonded to another hub; RHG "
    "lattices of every combination of boundary types with dimensions 2-3 and each polarity, padded and not",
    "thorough": "as quick with all graphs on 6 vertices (one placement) and dimensions up to 4",
}
ASSUMPTIONS = ["no isolated vertices, no two bonds leaving a vertex in the same direction, displacement at most 0.49"]
PLACES = (
    [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, -2), (-1, 2, 1)],
    [(3, -1, 2), (1, 5, 0), (2, 2, 7), (-4, 0, 1), (0, 3, 3), (6, 1, -5)],
    [(1000, -1000, 0), (1001, -1000, 0), (-1000, 999, 512), (0, 0, -1024), (255, 256, 257), (999, -1001, 2)],
    [(-1, -1, -1), (-1, -1, -2), (-3, -1, -1), (-12, -10, -11), (-101, 100, -99), (9, 10, 99)],
    # bonds of different length in opposite directions
    [(0, 0, 0), (1, 0, 0), (-2, 0, 0), (0, -1, 0), (0, 3, 0), (1, 1, 0)],
    [(0, 0, 5), (0, 0, 0), (0, 0, -1), (2, 2, 5), (-1, -1, 5), (2, 2, 2)],
)


def collide(edges, periodic=()):
    """Whether two bonds leave a vertex in the same direction (periodic ones leave it the other way)."""
    seen = set()
    for e in edges:
        d = np.subtract(e[1], e[0]) * (-1 if e in periodic else 1)
        d = d // math.gcd(*map(int, d))
        for v, x in ((e[0], d), (e[1], -d)):
            if (v, tuple(x)) in seen:
                return True
            seen.add((v, tuple(x)))
    return False
DISPS = (0.1, 0.05, 0.2, 0.25, 0.4, 0.49, 0.01, 0.001)


def frozen(G):
    return (
        [(n, copy.deepcopy(dict(d))) for n, d in G.nodes(data=True)],
        [(u, v, copy.deepcopy(dict(d))) for u, v, d in G.edges(data=True)],
        copy.deepcopy({k: v for k, v in G.graph.items()}),
        G.to_indices and dict(G.to_indices), None if G.adj_mat is None else G.adj_mat.copy() if isinstance(G.adj_mat, np.ndarray) else G.adj_mat.toarray(),
    )


def same(a, b):
    return a[:4] == b[:4] and (a[4] is None) == (b[4] is None) and (a[4] is None or (a[4] == b[4]).all())


def rounded(p):
    return tuple(int(round(float(c))) for c in p)


def check(G, M, pad, perfect):
    """M is the expansion of G."""
    from flamingpy.codes.graphs import EGraph

    need(isinstance(M, EGraph), "the expansion is not an EGraph")
    md = M.macro_to_micro
    need(set(md) == set(G.nodes), lambda: f"macronodes {sorted(md)}, vertices {sorted(G.nodes)}")
    owner = {}
    for v, ms in md.items():
        for m in ms:
            need(m not in owner, lambda: f"micronode {m} is owned twice ({owner[m]}, {v})")
            owner[m] = v
            need(rounded(m) == tuple(v), lambda: f"micronode {m} of {v} rounds to {rounded(m)}")
    need(set(owner) == set(M.nodes), lambda: f"micronodes without owner or missing: {set(owner) ^ set(M.nodes)}")
    for v, ms in md.items():
        deg = G.degree(v)
        want = max(deg, 4) if pad else deg
        need(len(ms) == want, lambda: f"{v} has {deg} bonds and {len(ms)} micronodes, expected {want}")
        need(sum(M.degree(m) == 1 for m in ms) == deg and sum(M.degree(m) == 0 for m in ms) == want - deg,
             lambda: f"micronodes of {v} have {[M.degree(m) for m in ms]} bonds for {deg} bonds of the vertex")
        for m in ms:
            got = dict(M.nodes[m])
            need(got == dict(G.nodes[v]), lambda: f"attributes of {m} are {got}, of {v} {dict(G.nodes[v])}")
    bonds = {}
    for a, b, d in M.edges(data=True):
        k = frozenset((owner[a], owner[b]))
        need(k not in bonds, lambda: f"bond {set(k)} appears twice")
        bonds[k] = dict(d)
    ref = {frozenset(e[:2]): dict(e[2]) for e in G.edges(data=True)}
    need(bonds == ref, lambda: f"bonds of the expansion differ: {[(set(k), bonds.get(k), ref.get(k)) for k in set(bonds) | set(ref) if bonds.get(k) != ref.get(k)][:3]}")
    for k, x in G.graph.items():
        if k != "perfect_points":
            need(k in M.graph and M.graph[k] == x, f"graph attribute {k} is lost or changed")
    if perfect is not None:
        got = M.graph.get("perfect_points")
        need(got is not None and sorted(got) == sorted(m for p in perfect for m in md[p]), lambda: f"perfect qubits {got} for {perfect}")
    else:
        need(not M.graph.get("perfect_points"), "perfect qubits appeared")
    # indexing
    ind = M.index_generator()
    need(sorted(ind.values()) == list(range(len(M))) and set(ind) == set(M.nodes), "indices are not contiguous over the micronodes")
    seq = [owner[p] for p in sorted(ind, key=ind.get)]
    want = [v for v in sorted(md) for _ in md[v]]
    need(seq == want, lambda: f"micronodes are numbered in the macronode order {seq}")
    need(M.to_points == {i: p for p, i in ind.items()} and M.to_indices == ind, "index maps disagree")
    A = M.adj_generator(sparse=False)
    for a, i in ind.items():
        for b, j in ind.items():
            if i <= j:
                w = M.edges[a, b].get("weight", 1) if M.has_edge(a, b) else 0
                need(A[i, j] == w and A[j, i] == w, lambda: f"adjacency of {a}, {b} is {A[i, j]}, bond weight {w}")


def small_graph(verts, edges, k):
    from flamingpy.codes.graphs import EGraph

    G = EGraph()
    order = list(range(len(verts)))
    if k % 3 == 1:
        order.reverse()
    for i in order:
        G.add_node(verts[i], **({"type": "primal" if i % 2 else "dual", "tag": i} if k % 4 else {}))
    for j, (a, b) in enumerate(edges):
        if k % 5 == 2:
            a, b = b, a
        d = {}
        if k % 2:
            d["weight"] = -1 if j % 2 else 1
        if k % 7 == 3 and j % 2:
            d["color"] = j
        G.add_edge(verts[a], verts[b], **d)
    if k % 3 == 2:
        G.graph["note"] = ["x", k]
    return G


def small(rep, n, place, part, parts):
    """All graphs without isolated vertices on n points."""
    verts = PLACES[place][:n]
    pairs = list(it.combinations(range(n), 2))
    for k, mask in enumerate(range(1, 1 << len(pairs))):
        if k % parts != part:
            continue
        edges = [e for i, e in enumerate(pairs) if mask >> i & 1]
        if len({v for e in edges for v in e}) < n:
            continue
        bonds = [(verts[a], verts[b]) for a, b in edges]
        if collide(bonds):
            continue
        for t, pad in enumerate((False, True)):
            disp = DISPS[(k + t) % len(DISPS)]
            perf = [None, [verts[k % n]], [verts[0], verts[-1]], list(verts)][(k // 2 + t) % 4]
            kw = {} if disp == 0.1 and k % 2 else {"disp": disp}
            if pad:
                kw["pad_boundary"] = True
            with rep.case([n, place, {"bonds": edges, "disp": disp, "pad": pad, "perfect": perf, "k": k}]):
                G = small_graph(verts, edges, k)
                if perf is not None:
                    G.graph["perfect_points"] = list(perf)
                if k % 2:
                    G.adj_generator(sparse=bool(k % 4 == 1))
                f = frozen(G)
                M = G.macronize(**kw)
                need(same(frozen(G), f), "the original graph was changed")
                check(G, M, pad, perf)
                need(same(frozen(G), f), "using the expansion changed the original graph")
                if k % 3 == 0:
                    check(G, G.macronize(**kw), pad, perf)  # again
            rep.seen((n, len(edges), pad, disp))
    rep.sample([n, place, edges])


def wrapped(rep, n, place):
    """Every choice of periodic bonds on small graphs."""
    verts = PLACES[place][:n]
    pairs = list(it.combinations(range(n), 2))
    for mask in range(1, 1 << len(pairs)):
        edges = [(verts[a], verts[b]) for i, (a, b) in enumerate(pairs) if mask >> i & 1]
        if len({v for e in edges for v in e}) < n:
            continue
        for k, per in enumerate(subsets(edges, 1, len(edges))):
            if collide(edges, per):
                continue
            with rep.case([n, place, {"bonds": edges, "periodic": per}]):
                from flamingpy.codes.graphs import EGraph

                G = EGraph()
                for j, e in enumerate(edges):
                    d = {"periodic": True} if e in per else {"periodic": False} if j % 2 else {}
                    G.add_edge(*(e if (j + k) % 2 else e[::-1]), weight=1 - 2 * (j % 2), **d)
                check(G, G.macronize(bool(k % 2), DISPS[k % len(DISPS)]), bool(k % 2), None)
            rep.seen((n, place, len(edges), len(per)))
    rep.sample([n, place, edges])


def lattice(rep, dims, pol):
    """RHG lattices with every combination of boundary types."""
    from flamingpy.codes.surface_code import RHG_graph, alternating_polarity

    f_pol = {None: None, "alternating": alternating_polarity, "minus": lambda e: -1}[pol]
    for types in it.product(("primal", "dual", "periodic"), repeat=3):
        for pad in (False, True):
            for perf in (False, True) if pol is None else (False,):
                with rep.case([dims, pol, {"boundaries": types, "pad": pad, "perfect": perf}], limit=300):
                    G = RHG_graph(dims, np.array(types), polarity=f_pol)
                    pp = None
                    if perf:
                        pp = G.slice_coords("z", 1) or sorted(G.nodes)[:1]
                        G.graph["perfect_points"] = list(pp)
                    if pad and pol:
                        G.index_generator()
                    f = frozen(G)
                    M = G.macronize(pad_boundary=pad)
                    need(same(frozen(G), f), "the original graph was changed")
                    check(G, M, pad, pp)
                rep.seen((types, pad))
    # periodic and boundary macronodes with other displacements
    for types in (("periodic",) * 3, ("primal", "dual", "dual"), ("periodic", "dual", "primal")):
        for disp in DISPS[1:]:
            with rep.case([dims, pol, {"boundaries": types, "disp": disp}], limit=300):
                G = RHG_graph(dims, np.array(types), polarity=f_pol)
                check(G, G.macronize(True, disp), True, None)
    rep.sample([dims, pol, types])


def codes(rep, dims, ec, b):
    """The graph of a code, and the expansion used by the macronode noise layer."""
    from flamingpy.noise import CVMacroLayer

    with rep.case([dims, ec, b]):
        code = make_code(dims, ec, b)
        f = frozen(code.graph)
        L = CVMacroLayer(code, delta=0.1)
        need(L.reduced_graph is code.graph, "another reduced graph")
        check(code.graph, L.egraph, b != "periodic", None)
        need(same(frozen(code.graph), f), "the code's graph was changed")
        if b != "periodic" or True:
            need(len(L.egraph) == 4 * len(code.graph), "not four micronodes per macronode")


DIRS = sorted((d for d in it.product((-1, 0, 1), repeat=3) if any(d)), key=lambda d: (sum(map(abs, d)), d))


def hubs(rep, k):
    """Vertices with many bonds: one hub with k bonds, alone or bonded to a second hub."""
    from flamingpy.codes.graphs import EGraph

    o, far = (0, 0, 0), (5, 7, 11)
    for l in range(0, 27, 3):
        for rot in (0, 5):
            G = EGraph()
            for i in range(k):
                d = DIRS[(i + rot) % 26]
                G.add_edge(o, tuple(3 * c for c in d), weight=-1 if i % 3 == 0 else 1)
            if l:
                G.add_edge(far, o, weight=1)
                for d in DIRS[:l]:
                    G.add_edge(far, tuple(f + 2 * c for f, c in zip(far, d)))
            for v in G:
                G.nodes[v]["type"] = "dual" if v == o else "primal"
            for pad in (False, True):
                for perf in (None, [o], [far, o] if l else list(G), list(G)[1:3]):
                    if perf is None:
                        G.graph.pop("perfect_points", None)
                    else:
                        G.graph["perfect_points"] = list(perf)
                    with rep.case([{"bonds": k, "other": l, "from": rot, "pad": pad, "perfect": perf}]):
                        f = frozen(G)
                        M = G.macronize(pad)
                        need(same(frozen(G), f), "the original graph was changed")
                        check(G, M, pad, perf)
                    rep.seen((k, l, pad, perf is None))
    rep.sample([k, l])


def refused(rep):
    from flamingpy.codes.graphs import EGraph

    for disp in (0.5, 0.6, 1, -0.1, -1):
        with rep.case({"disp": disp}):
            G = EGraph([((0, 0, 0), (1, 0, 0))])
            try:
                G.macronize(disp=disp)
            except ValueError:
                pass
            else:
                need(False, f"displacement {disp} accepted")


def jobs(tier):
    deep = tier == "thorough"
    J = [("refused", {})] + [("hubs", dict(k=k)) for k in ((1, 4, 5, 6, 9, 26) if not deep else range(1, 27))]
    for place in (0, 1):
        for n in (2, 3, 4, 5):
            parts = 8 if n == 5 else 1
            for part in range(parts):
                J.append(("small", dict(n=n, place=place, part=part, parts=parts)))
    for place in range(6):
        for n in (2, 3, 4):
            J.append(("wrapped", dict(n=n, place=place)))
    for place in (2, 3, 4, 5):
        for n in (2, 3, 4, 5) if deep or place > 3 else (2, 3, 4):
            J.append(("small", dict(n=n, place=place, part=0, parts=1)))
    if deep:
        for part in range(64):
            J.append(("small", dict(n=6, place=1, part=part, parts=64)))
    top = (2, 3, 4) if deep else (2, 3)
    for dims in it.product(top, repeat=3):
        for pol in (None, "alternating", "minus"):
            if pol == "minus" and dims != (2, 2, 2):
                continue
            if not deep and sum(dims) > 7 and pol:
                continue
            J.append(("lattice", dict(dims=dims, pol=pol)))
        for ec in ("primal", "dual"):
            for b in ("open", "toric", "periodic"):
                J.append(("codes", dict(dims=dims, ec=ec, b=b)))
    return J
