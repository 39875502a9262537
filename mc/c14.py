"""C14: local-Clifford equivalence is decided correctly."""
import functools
import itertools as it

from mc.core import need
from mc.lib import *

PROPERTY = "C14"
BOUNDS = {
    "quick": "every ordered pair of labelled graphs on 1-4 qubits; every graph on 5 qubits against every local-complementation class (both directions "
    "alternating) and against a member of its own class one complementation away; graphs on 6 qubits: one per isomorphism class against all its local complements and "
    "against the other classes; named graphs up to 9 qubits; 29 structured graphs on 7 to 12 qubits against every one or two local complementations of themselves and against one-bond changes of another cut rank; all pairs of sizes <= 4; every earlier adjacency request on <= 3 qubits",
    "thorough": "every ordered pair of graphs on 5 qubits, every graph on 6 qubits against its class and two others",
}
ASSUMPTIONS = ["bonds of weight one", "the operation acts on (Z part; X part) column vectors of the stabilizer generators, as in arXiv:quant-ph/0405023"]


def pairs_of(n):
    return list(it.combinations(range(n), 2))


def rows_of(n, mask):
    r = [0] * n
    for i, (a, b) in enumerate(pairs_of(n)):
        if mask >> i & 1:
            r[a] |= 1 << b
            r[b] |= 1 << a
    return tuple(r)


def complement(r, v):
    """Local complementation at v."""
    nb = r[v]
    return tuple(x ^ (nb & ~(1 << i)) if nb >> i & 1 else x for i, x in enumerate(r))


def orbit(r):
    seen, todo = {r}, [r]
    while todo:
        x = todo.pop()
        for v in range(len(r)):
            y = complement(x, v)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


@functools.lru_cache(None)
def classes(n):
    """{graph: number of its class}, [members]"""
    cls, members = {}, []
    for m in range(1 << (n * (n - 1) // 2)):
        r = rows_of(n, m)
        if r not in cls:
            o = sorted(orbit(r))
            for x in o:
                cls[x] = len(members)
            members.append(o)
    return cls, members


def egraph(r, k=0):
    """The graph state; k varies the order of insertion and the kind of adjacency requested before."""
    from flamingpy.codes.graphs import EGraph

    n = len(r)
    pts = [(i // 2, -i if i % 2 else 5, 0) for i in range(n)]
    pts = sorted(pts)
    order = list(range(n))
    if k % 2:
        order.reverse()
    G = EGraph()
    for i in order:
        G.add_node(pts[i])
    for i in order:
        for j in range(n):
            if r[i] >> j & 1 and i < j:
                G.add_edge(pts[i], pts[j])
    request(G, k // 2 % 5)
    return G


def request(G, q):
    if q == 1:
        G.adj_generator(sparse=True)
    elif q == 2:
        G.adj_generator(sparse=False)
    elif q == 3:
        G.index_generator()
    elif q == 4:
        G.adj_generator(sparse=False)
        G.adj_generator(sparse=True)


def generators(r):
    """Stabilizer generators as (z, x) masks."""
    return [(r[i], 1 << i) for i in range(len(r))]


def valid_operation(op, form, r, s):
    """The operation is a local Clifford mapping the stabilizers of r onto those of s."""
    n = len(r)
    if form == "tensor":
        need(len(op) == n and all(np.shape(x) == (2, 2) for x in op), lambda: f"operation {op}")
        loc = [np.array(x).astype(int) for x in op]
        need(all(np.isin(x, (0, 1)).all() for x in loc), "entries are not bits")
    else:
        Q = np.array(op)
        need(Q.shape == (2 * n, 2 * n) and np.isin(Q, (0, 1)).all(), lambda: f"global operation of shape {Q.shape}")
        Q = Q.astype(int)
        loc = [np.array([[Q[i, i], Q[i, i + n]], [Q[i + n, i], Q[i + n, i + n]]]) for i in range(n)]
        R = np.zeros_like(Q)
        for i, x in enumerate(loc):
            R[i, i], R[i, i + n], R[i + n, i], R[i + n, i + n] = x.flatten()
        need((R == Q).all(), "the global operation is not local")
    for i, x in enumerate(loc):
        need((x[0, 0] * x[1, 1] + x[0, 1] * x[1, 0]) % 2 == 1, lambda: f"factor {i} is not invertible: {x.tolist()}")
    span = Span([z << n | x for z, x in generators(s)])
    for z, x in generators(r):
        z2 = x2 = 0
        for i, q in enumerate(loc):
            zi, xi = z >> i & 1, x >> i & 1
            z2 |= ((q[0, 0] * zi + q[0, 1] * xi) % 2).item() << i
            x2 |= ((q[1, 0] * zi + q[1, 1] * xi) % 2).item() << i
        need(span.contains(z2 << n | x2), "a stabilizer is mapped outside the stabilizer group")


def frozen(G):
    return sorted(map(str, G.nodes(data=True))), sorted(map(str, G.edges(data=True))), list(G.nodes)


def ask(r, s, want, k=0):
    G, H = egraph(r, k), egraph(s, k // 3 + 1)
    f, g = frozen(G), frozen(H)
    form = ("tensor", "global", None)[k % 3]
    res = G.is_lc_equivalent(H, **({"clifford_form": form} if form else {}))
    need(isinstance(res, tuple) and len(res) == 2, f"result {res!r}")
    need(bool(res[0]) == want, lambda: f"reported {'equivalent' if res[0] else 'not equivalent'}: bonds {bonds(r)} and {bonds(s)}")
    if want:
        need(res[1] is not None, "no operation returned")
        valid_operation(res[1], form or "tensor", r, s)
    else:
        need(res[1] is None, "an operation is returned for inequivalent states")
    need(frozen(G) == f and frozen(H) == g, "the graphs were changed")
    return G, H


def bonds(r):
    return [(i, j) for i in range(len(r)) for j in range(i) if r[i] >> j & 1]


def all_pairs(rep, n, part, parts):
    N = 1 << (n * (n - 1) // 2)
    cls, mem = classes(n)
    for a in range(part, N, parts):
        r = rows_of(n, a)
        with rep.case([n, "all pairs from", bonds(r)], states=N, transitions=N, limit=900):
            for b in range(N):
                s = rows_of(n, b)
                rep.desc = [n, bonds(r), bonds(s)]
                ask(r, s, cls[r] == cls[s], a + b * 7)
        rep.seen((n, cls[r]))
    rep.sample([n, bonds(r), bonds(s)])


def against_classes(rep, n, part, parts, stride=1):
    """Every graph against one member (varying) of every class and of its own class."""
    cls, mem = classes(n)
    N = 1 << (n * (n - 1) // 2)
    for a in range(part, N, parts):
        r = rows_of(n, a)
        with rep.case([n, "against classes", bonds(r)], limit=900):
            todo = [(mem[c][a % len(mem[c])], c == cls[r]) for c in range(a % stride, len(mem), stride)]
            todo += [(x, True) for x in (r, complement(r, a % n), mem[cls[r]][-1], mem[cls[r]][len(mem[cls[r]]) // 2])]
            rep.states += len(todo)
            rep.transitions += len(todo)
            for k, (s, want) in enumerate(todo):
                rep.desc = [n, bonds(r), bonds(s)]
                if (a + k) % 2:
                    ask(s, r, want, a + k)
                else:
                    ask(r, s, want, a + k)
        rep.seen((n, cls[r]))
    rep.sample([n, bonds(r)])


def canon(r):
    n = len(r)
    best = None
    for p in it.permutations(range(n)):
        m = tuple(sorted((min(p[i], p[j]), max(p[i], p[j])) for i, j in bonds(r)))
        if best is None or m < best:
            best = m
    return best


def iso_classes(n):
    """One graph per isomorphism class (by an invariant first, then brute force)."""
    import networkx as nx

    return [rows_of(len(g), sum(1 << i for i, e in enumerate(pairs_of(len(g))) if g.has_edge(*e))) for g in nx.graph_atlas_g() if len(g) == n]


def six(rep, part, parts, n):
    """One graph per isomorphism class of n qubits against its local complements and relabelled or other classes."""
    gs = iso_classes(n)
    orb = {}
    for a in range(part, len(gs), parts):
        r = gs[a]
        o = orbit(r)
        so = sorted(o)
        with rep.case([n, "classes", bonds(r)], limit=900):
            todo = [(complement(r, v), True) for v in range(n)]
            todo += [(so[i], True) for i in range(0, len(so), max(1, len(so) // 6))]
            for s in gs[:: max(1, len(gs) // 40)]:
                todo.append((s, s in o))
            for p in ([1, 0] + list(range(2, n)), list(range(n))[::-1], list(range(1, n)) + [0]):
                s = [0] * n
                for i, j in bonds(r):
                    s[p[i]] |= 1 << p[j]
                    s[p[j]] |= 1 << p[i]
                todo.append((tuple(s), tuple(s) in o))
            rep.states += len(todo)
            rep.transitions += len(todo)
            for k, (s, want) in enumerate(todo):
                rep.desc = [n, bonds(r), bonds(s)]
                ask(r, s, want, k)
        rep.seen((n, len(o)))
    rep.sample([n, bonds(r)])


def requests(rep, n):
    """Every pair of earlier requests, repeated questions on the same objects, both directions, self."""
    N = 1 << (n * (n - 1) // 2)
    cls, _ = classes(n)
    for a in range(N):
        for b in range(N):
            r, s = rows_of(n, a), rows_of(n, b)
            for q1, q2 in it.product(range(5), repeat=2):
                for form in ("tensor", "global"):
                    with rep.case([n, bonds(r), bonds(s), "earlier requests", q1, q2, form], transitions=3):
                        G, H = egraph(r, 2 * q1), egraph(s, 2 * q2 + 1)
                        want = cls[r] == cls[s]
                        first = G.is_lc_equivalent(H, clifford_form=form)
                        request(G, q2)
                        again = G.is_lc_equivalent(H, clifford_form=form)
                        back = H.is_lc_equivalent(G)
                        me = G.is_lc_equivalent(G)
                        need(bool(first[0]) == bool(again[0]) == bool(back[0]) == want and me[0], "the answer depends on earlier requests")
                        if want:
                            valid_operation(first[1], form, r, s)
                            valid_operation(again[1], form, r, s)
                            valid_operation(back[1], "tensor", s, r)
                        valid_operation(me[1], "tensor", r, r)
                        # the adjacency matrices are still the right ones
                        for X, t in ((G, r), (H, s)):
                            for sp in (q1 % 2 == 0, q1 % 2 == 1):
                                A = X.adj_generator(sparse=sp)
                                A = A if isinstance(A, np.ndarray) else A.toarray()
                                need([[int(v) for v in row] for row in A] == [[t[i] >> j & 1 for j in range(n)] for i in range(n)], "the adjacency matrix was changed")


def edited(rep, n):
    """Graphs edited between questions."""
    N = 1 << (n * (n - 1) // 2)
    cls, _ = classes(n)
    for a in range(N):
        r = rows_of(n, a)
        for k in range(0, N, 5):
            s = rows_of(n, k)
            with rep.case([n, bonds(r), bonds(s), "edited"], transitions=4):
                G, H = egraph(r), egraph(s)
                G.is_lc_equivalent(H)
                G.add_qubit((50, 0, 0), neighbors=[max(G.nodes)])
                out = G.is_lc_equivalent(H)
                need(not out[0] and out[1] is None, "graphs of different sizes are reported equivalent")
                H.add_qubit((51, 0, 0), neighbors=[max(H.nodes)])
                out = G.is_lc_equivalent(H)
                r2 = tuple(x | (1 << n if i == n - 1 else 0) for i, x in enumerate(r)) + (1 << (n - 1),)
                s2 = tuple(x | (1 << n if i == n - 1 else 0) for i, x in enumerate(s)) + (1 << (n - 1),)
                need(bool(out[0]) == (s2 in orbit(r2)), "wrong after an edit")
                if out[0]:
                    valid_operation(out[1], "tensor", r2, s2)


def sizes(rep):
    from flamingpy.codes.graphs import EGraph

    for n, m in it.product(range(5), repeat=2):
        for a in range(1 << (n * (n - 1) // 2)):
            b = a % (1 << (m * (m - 1) // 2))
            if n == m and n:
                continue
            with rep.case([n, m, a, b, "sizes"]):
                G = egraph(rows_of(n, a), a if n else 0) if n else EGraph()
                H = egraph(rows_of(m, b), b + 1 if m else 0) if m else EGraph()
                out = G.is_lc_equivalent(H, clifford_form=("tensor", "global")[a % 2])
                need(not out[0] and out[1] is None, "reported equivalent")


def named(rep):
    """Stars and complete graphs are equivalent; rings and lines are not (from five qubits); larger sizes."""
    from flamingpy.utils.graph_states import star_graph, complete_graph, ring_graph, linear_cluster

    for n in range(2, 10):
        full = (1 << n) - 1
        stars = [tuple((full ^ (1 << c)) if i == c else 1 << c for i in range(n)) for c in range(n)]
        comp = tuple(full ^ (1 << i) for i in range(n))
        line = tuple(sum(1 << j for j in (i - 1, i + 1) if 0 <= j < n) for i in range(n))
        ring = tuple((1 << (i - 1) % n) | (1 << (i + 1) % n) for i in range(n))
        for k, (r, s) in enumerate([(stars[0], comp), (comp, stars[-1]), (stars[0], stars[n // 2]), (line, complement(line, n // 2))] + ([(ring, complement(complement(ring, 0), 2)), (complement(line, 1), line)] if n > 2 else [])):
            with rep.case([n, "named", k]):
                ask(r, s, True, k)
        if n >= 4:
            for k, (r, s) in enumerate([(line, comp), (stars[1], line), (ring, comp)]):
                with rep.case([n, "named, inequivalent", k], limit=600):
                    ask(r, s, False, k)
        if n >= 5:
            with rep.case([n, "ring and line"]):
                ask(ring, line, False, n)
        with rep.case([n, "menu"]):
            a, b = star_graph(n), complete_graph(n)
            need(a.is_lc_equivalent(b)[0] and b.is_lc_equivalent(a)[0], "star and complete graph states are equivalent")
            need(bool(linear_cluster(n).is_lc_equivalent(a)[0]) == (n <= 3), "line and star")


def larger():
    """Structured graphs on 7 to 12 qubits."""
    import networkx as nx

    for n in (7, 8, 10, 12):
        yield f"line {n}", nx.path_graph(n)
        yield f"ring {n}", nx.cycle_graph(n)
        yield f"wheel {n}", nx.wheel_graph(n)
        yield f"two stars {n}", nx.disjoint_union(nx.star_graph(n // 2 - 1), nx.star_graph(n - n // 2 - 1))
        yield f"isolated {n}", nx.disjoint_union(nx.path_graph(n - 2), nx.empty_graph(2))
    yield "cube", nx.convert_node_labels_to_integers(nx.hypercube_graph(3))
    yield "grid", nx.convert_node_labels_to_integers(nx.grid_2d_graph(3, 4))
    yield "petersen", nx.petersen_graph()
    yield "prism", nx.circular_ladder_graph(5)
    yield "bipartite", nx.complete_bipartite_graph(3, 5)
    yield "tree", nx.balanced_tree(2, 2)
    yield "ladder", nx.ladder_graph(6)
    yield "moebius", nx.moebius_kantor_graph().subgraph(range(11))
    yield "empty", nx.empty_graph(9)


def rank_profile(r, size):
    """Cut ranks of all sets of the given size: a local Clifford invariant."""
    n, out = len(r), []
    for s in it.combinations(range(n), size):
        m = sum(1 << i for i in s)
        sp = Span([r[i] & ~m for i in s])
        out.append(sp.rank)
    return out


def large(rep, name, part, parts):
    """A larger graph state against itself after one or two local complementations, and against states of another cut rank."""
    g = dict(larger())[name]
    n = len(g)
    r = [0] * n
    for a, b in g.edges:
        r[a] |= 1 << b
        r[b] |= 1 << a
    r = tuple(r)
    k = 0
    for v in range(n):
        for u in [None] + [u for u in range(n) if u != v]:
            k += 1
            if k % parts != part:
                continue
            s = complement(r, v)
            s = s if u is None else complement(s, u)
            with rep.case([name, "complemented", v, u], limit=600):
                ask(*((r, s) if k % 2 else (s, r)), True, k)
    prof = [rank_profile(r, i) for i in (1, 2, 3)]
    swaps = [(a, b) for a in range(n) for b in range(a)]
    done = 0
    for k, (a, b) in enumerate(swaps):
        if k % parts != part or done >= 3:
            continue
        s = list(r)  # toggle one bond
        s[a] ^= 1 << b
        s[b] ^= 1 << a
        s = tuple(s)
        if any(rank_profile(s, i) != p for i, p in zip((1, 2, 3), prof)):
            done += 1
            with rep.case([name, "toggled", a, b], limit=600):
                ask(r, s, False, k)
    rep.seen((name, n))


def jobs(tier):
    deep = tier == "thorough"
    J = [("sizes", {}), ("named", {})]
    for name, g in larger():
        for part in range(4):
            J.append(("large", dict(name=name, part=part, parts=4)))
    for n in (1, 2, 3):
        J.append(("all_pairs", dict(n=n, part=0, parts=1)))
    for n in (2, 3):
        J.append(("requests", dict(n=n)))
        J.append(("edited", dict(n=n)))
    for part in range(8):
        J.append(("all_pairs", dict(n=4, part=part, parts=8)))
    for part in range(32):
        J.append(("all_pairs" if deep else "against_classes", dict(n=5, part=part, parts=32)))
    for part in range(16):
        J.append(("six", dict(part=part, parts=16, n=6)))
    if deep:
        for part in range(64):
            J.append(("against_classes", dict(n=6, part=part, parts=64, stride=300)))
        for part in range(32):
            J.append(("six", dict(part=part, parts=32, n=7)))
    return J
