"""C23: union-find clusters track size, parity and boundary exactly."""
import functools

import networkx as nx

from mc.core import need
from mc.lib import *

PROPERTY = "C23"
TECHNIQUE = (
    "explicit-state exploration to a fixpoint of the real cluster trees (every reachable forest under every union / find / add-child / parity request) "
    "against a partition model; exhaustive enumeration of small decoding graphs x syndromes x erasures for growth, forest and peeling"
)
BOUNDS = {
    "quick": "cluster trees: every reachable state with up to 5 elements of every labelling (0, 1, boundary), some of them not yet attached to any cluster, "
    "under union of the clusters of every ordered pair, find, parity and add-child (to a fixpoint); up to 8 elements (deeper trees) with at most 2 that are not odd, up to renaming; support table: every graph on up to 5 nodes, "
    "every erasure, every sequence of growth steps up to the full state space for up to 5 edges; whole union-find: every connected or disconnected graph on up to 5 nodes with every "
    "choice of boundary points, syndrome and erased edges (up to 6 edges; 5-node graphs up to isomorphism), both backends; 16 larger graphs (stars, wheels, ladders, a grid, long paths, up to 14 nodes) with at most 3 odd checks "
    "(networkx backend: 2) and at most one erased, or one unerased, edge",
    "thorough": "6 elements (10 up to renaming), 6-node graphs up to isomorphism and 8 edges; larger graphs with 4 odd checks and 2 erased or unerased edges",
}
ASSUMPTIONS = [
    "unions are made between current cluster roots, elements are attached one at a time while they belong to no cluster",
    "an odd component without boundary point has no correction and is excluded from the whole-decoder part",
]


# ------------------------------------------------------------------ cluster trees
class Model:
    """Partition of the attached elements with the labels they came with."""

    def __init__(self, labels):
        self.labels = labels
        self.part = [None if l is None else frozenset([i]) for i, l in enumerate(labels)]

    def merge(self, a, b):
        m = self.part[a] | self.part[b]
        for i in m:
            self.part[i] = m

    def attach(self, a, b):
        m = self.part[a] | {b}
        for i in m:
            self.part[i] = m

    def size(self, a):
        return len(self.part[a])

    def parity(self, a):
        return sum(1 for i in self.part[a] if self.labels[i] == 1) % 2

    def bound(self, a):
        return {i for i in self.part[a] if self.labels[i] == "boundary"}


def build(labels):
    from flamingpy.decoders.unionfind.uf_classes import Node, Root

    nodes = [Node(i) for i in range(len(labels))]
    roots = [None if l is None else Root(nodes[i], parity=l) for i, l in enumerate(labels)]
    return nodes, roots


def freeze(nodes, model):
    """Canonical form of the whole structure, without using the code's own operations."""
    from flamingpy.decoders.unionfind.uf_classes import Root

    res = []
    for n in nodes:
        p = n.parent
        kids = tuple(sorted(c.id for c in n.children))
        if isinstance(p, Root):
            b = p.boundary
            res.append(("root", p.node.id, p.size, p.parity, None if b is None else b.id, kids))
        else:
            res.append(("node", p.id, kids))
    return tuple(res), tuple(None if m is None else tuple(sorted(m)) for m in model.part)


def sound(nodes, model):
    """Every invariant, read from the structure itself and then through the operations."""
    from flamingpy.decoders.unionfind.uf_classes import Root

    heads = {}
    for n in nodes:
        k, seen, up = n, [], 0
        while not isinstance(k.parent, Root):
            need(k not in seen, lambda: f"parent links of {n.id} form a cycle")
            seen.append(k)
            if k.parent is k:
                break
            need(k in k.parent.children, lambda: f"{k.id} is not among the children of its parent {k.parent.id}")
            k = k.parent
        for c in n.children:
            need(c.parent is n, lambda: f"{c.id} is a child of {n.id}, which is not its parent")
        if model.part[n.id] is None:
            need(k is n and not isinstance(n.parent, Root), f"unattached element {n.id} hangs on something")
            need(not n.children, f"unattached element {n.id} has children")
            continue
        need(isinstance(k.parent, Root), lambda: f"element {n.id} has no cluster")
        r = k.parent
        need(r.node is k, lambda: f"the cluster of {n.id} names {r.node.id} as its head, not {k.id}")
        heads[n.id] = r
    for i, r in heads.items():
        m = model.part[i]
        for j, s in heads.items():
            need((r is s) == (j in m), lambda: f"elements {i} and {j} are{'' if j in m else ' not'} expected in one cluster")
        need(r.size == len(m), lambda: f"cluster {sorted(m)} has size {r.size}")
        need(r.parity == model.parity(i), lambda: f"cluster {sorted(m)} with labels {[model.labels[j] for j in sorted(m)]} has parity {r.parity}")
        b = model.bound(i)
        need(bool(r.boundary) == bool(b), lambda: f"cluster {sorted(m)} with boundary points {b} has boundary {r.boundary}")
        need(not b or r.boundary.id in b, lambda: f"cluster {sorted(m)} has boundary {r.boundary.id}")
        # the element tree reaches everything
        todo, got = [r.node], set()
        while todo:
            k = todo.pop()
            need(k.id not in got, "an element is reached twice in the element tree")
            got.add(k.id)
            todo += list(k.children)
        need(got == set(m), lambda: f"the tree of cluster {sorted(m)} reaches {sorted(got)}")
        need(set(c.id for c in r.children) == set(c.id for c in r.node.children), "children of the cluster")
    return heads


def canon(nodes, model):
    """The structure up to renaming of elements with the same label."""
    from flamingpy.decoders.unionfind.uf_classes import Root

    def enc(k, d):
        if d > len(nodes):
            raise Violation("the children links form a cycle")
        b = isinstance(k.parent, Root) and k.parent.boundary is k
        return (str(model.labels[k.id]), b, tuple(sorted(enc(c, d + 1) for c in k.children)))

    res = []
    for n in nodes:
        if isinstance(n.parent, Root):
            r = n.parent
            res.append(("root", r.size, r.parity, r.boundary is not None, enc(n, 0)))
        elif n.parent is n:
            res.append(("free", enc(n, 0)))
    return tuple(sorted(res))


def apply(nodes, model, op):
    from flamingpy.decoders.unionfind.algos import union

    k, a, b = op
    if k == "find":
        before = sound(nodes, model)
        r = nodes[a].find_root()
        if model.part[a] is None:
            need(r is None, f"unattached element {a} has cluster {r}")
        else:
            need(r is before[a], f"find on {a} returned another cluster")
            after = sound(nodes, model)
            need(all(after[i] is before[i] for i in after), "find changed a cluster")
            need(nodes[a].find_root() is r, "find is not repeatable")
    elif k == "parity":
        p = nodes[a].parity()
        want = None if model.part[a] is None else model.parity(a)
        need(p == want, f"parity of {a} is {p}, expected {want}")
    elif k == "union":
        ra, rb = nodes[a].find_root(), nodes[b].find_root()
        sa, sb = ra.size, rb.size
        same = b in model.part[a]
        res = union(ra, rb)
        if same:
            need(res is None, "union of a cluster with itself returned something")
        else:
            model.merge(a, b)
            big, small = res
            need({big, small} == {ra.node, rb.node}, "union did not return the two heads")
            if sa != sb:
                need(big is (ra if sa > sb else rb).node, f"sizes {sa}, {sb}: the smaller cluster was kept as the head")
            need(nodes[a].find_root().node is big and nodes[b].find_root().node is big, "the returned head is not the head")
    elif k == "child":
        (nodes[a] if a >= 0 else nodes[-a - 1].find_root()).add_child(nodes[b])
        model.attach(a if a >= 0 else -a - 1, b)
    sound(nodes, model)


def ops(n, model):
    att = [i for i in range(n) if model.part[i] is not None]
    un = [i for i in range(n) if model.part[i] is None]
    for a in range(n):
        yield ("find", a, None)
        yield ("parity", a, None)
    for a in att:
        for b in att:
            yield ("union", a, b)
        for b in un[:1]:  # which of the unattached ones does not matter
            yield ("child", a, b)
            yield ("child", -a - 1, b)


def trees(rep, labels, up_to_names=False):
    labels = list(labels)
    n = len(labels)
    freeze_ = canon if up_to_names else freeze

    def at(path):
        nodes, _ = build(labels)
        model = Model(labels)
        for op in path:
            quick(nodes, model, op)
        return nodes, model

    nodes, model = at([])
    with rep.case([labels, "start"]):
        sound(nodes, model)
    seen = {freeze_(nodes, model): []}
    todo = [[]]
    while todo:
        path = todo.pop()
        _, model0 = at(path)
        for op in ops(n, model0):
            with rep.case([labels, path, op], states=0):
                nodes, model = at(path)
                apply(nodes, model, op)
                f = freeze_(nodes, model)
                if f not in seen:
                    seen[f] = path + [op]
                    rep.states += 1
                    todo.append(path + [op])
    rep.seen((sorted(map(str, labels)), len(seen)))
    rep.sample([labels, len(seen)])


def quick(nodes, model, op):
    from flamingpy.decoders.unionfind.algos import union

    k, a, b = op
    if k == "find":
        nodes[a].find_root()
    elif k == "parity":
        nodes[a].parity()
    elif k == "union":
        union(nodes[a].find_root(), nodes[b].find_root())
        if b not in model.part[a]:
            model.merge(a, b)
    else:
        (nodes[a] if a >= 0 else nodes[-a - 1].find_root()).add_child(nodes[b])
        model.attach(a if a >= 0 else -a - 1, b)


# ------------------------------------------------------------------ small decoding graphs
@functools.lru_cache(None)
def stab_class():
    from flamingpy.codes.stabilizer import Stabilizer

    class Check(Stabilizer):
        """A check whose parity is set directly."""

        def __init__(self, name):
            super().__init__(None)
            self.name, self.value = name, 0

        @property
        def parity(self):
            return self.value

        def __repr__(self):
            return f"Check{self.name}"

    return Check


def decoding_graph(kind, n, edges, bound):
    """A decoding graph on nodes 0..n-1 (those in bound are boundary points)."""
    from flamingpy.codes.graphs.stabilizer_graph import NxStabilizerGraph, RxStabilizerGraph

    G = (NxStabilizerGraph if kind == "nx" else RxStabilizerGraph)()
    node = {}
    for i in range(n):
        if i not in bound:
            node[i] = stab_class()(i)
            G.add_stabilizer(node[i])
    for k, i in enumerate(sorted(bound)):
        node[i] = (i, 0, 7)
        (G.add_low_bound_point if k % 2 == 0 else G.add_high_bound_point)(node[i])
    for k, (a, b) in enumerate(edges):
        G.add_edge(node[a], node[b], common_vertex=(a, b, 1))
    for e in G.edges():
        G.edge_data(*e)["weight"] = 0
    return G, node


def set_edges(G, node, edges, erased, usual=2):
    for k, (a, b) in enumerate(edges):
        G.edge_data(node[a], node[b])["weight"] = -1 if k in erased else usual


def all_graphs(n, iso):
    """Edge lists without isolated vertices: all labelled ones, or one per isomorphism class."""
    pairs = list(it.combinations(range(n), 2))
    seen = {}
    for m in range(1, 1 << len(pairs)):
        E = tuple(p for i, p in enumerate(pairs) if m >> i & 1)
        if len({v for e in E for v in e}) < n:
            continue
        if iso:
            key = min(tuple(sorted(tuple(sorted((q[a], q[b]))) for a, b in E)) for q in it.permutations(range(n))) if n <= 4 else nx.weisfeiler_lehman_graph_hash(nx.Graph(E), iterations=4)
            g = nx.Graph(E)
            if any(nx.is_isomorphic(g, h) for h in seen.get(key, [])):
                continue
            seen.setdefault(key, []).append(g)
        yield E


def comps(n, edges):
    return [frozenset(c) for c in nx.connected_components(with_nodes(n, edges))]


def with_nodes(n, edges):
    G = nx.Graph()
    G.add_nodes_from(range(n))
    G.add_edges_from(edges)
    return G


def forest_ok(F, back, grown, G=None, node=None):
    """F (a rustworkx graph) is a spanning forest of the grown edges."""
    pts = [back[id(x)] if id(x) in back else back[x] for x in F.nodes()]
    ends = {v for e in grown for v in e}
    need(len(set(pts)) == len(pts), "a node appears twice in the forest")
    need(set(pts) == ends, lambda: f"the forest has nodes {sorted(pts)} for grown edges {grown}")
    fe = []
    for i, j, d in F.weighted_edge_list():
        a, b = sorted((pts[i], pts[j]))
        need((a, b) in grown, lambda: f"forest edge {(a, b)} was not grown")
        fe.append((a, b))
        if G is not None:
            need(d is not None and d["common_vertex"] == (a, b, 1), lambda: f"forest edge {(a, b)} carries {d}")
    H = with_nodes(0, fe)
    H.add_nodes_from(ends)
    want = nx.Graph(list(grown))
    need(len(fe) == len(set(fe)) == len(ends) - nx.number_connected_components(H), "the forest has a cycle")
    need({frozenset(c) for c in nx.connected_components(H)} == {frozenset(c) for c in nx.connected_components(want)}, "the forest does not connect the grown components")


def support(rep, n, edges, kind):
    """Every state of the support table, from every erasure, by every growth step."""
    from flamingpy.decoders.unionfind.uf_classes import Support

    edges = [tuple(e) for e in edges]
    G, node = decoding_graph(kind, n, edges, {n - 1})
    back = {id(v) if not isinstance(v, tuple) else v: k for k, v in node.items()}
    E = len(edges)
    for erased in subsets(range(E), 0, E):
        set_edges(G, node, edges, erased)
        start = tuple(2 if k in erased else 0 for k in range(E))

        def at(path):
            s = Support(G)
            for k, flip in path:
                a, b = edges[k]
                s.grow((node[b], node[a]) if flip else (node[a], node[b]))
            return s

        seen, todo = {start: []}, [start]
        while todo:
            st = todo.pop(0)
            path = seen[st]
            with rep.case([n, edges, kind, erased, path, "forest"]):
                grown = [edges[k] for k in range(E) if st[k] == 2]
                for arg in ((G,), ()):
                    forest_ok(at(path).span_forest(*arg), back, grown, *((G, node) if arg else ()))
            for k in range(E):
                for flip in (False, True):
                    with rep.case([n, edges, kind, erased, path, "grow", k], states=0):
                        s = at(path)
                        a, b = edges[k]
                        e = (node[b], node[a]) if flip else (node[a], node[b])
                        r = s.grow(e)
                        if st[k] == 1:
                            need(r is not None and set(r) == {node[a], node[b]}, lambda: f"growing a half-grown edge returned {r}")
                        else:
                            need(r is None, lambda: f"growing an edge in state {st[k]} returned {r}")
                        new = st[:k] + (min(2, st[k] + 1),) + st[k + 1:]
                        names = {0: "empty", 1: "half-grown", 2: "grown"}
                        for j, (c, d) in enumerate(edges):
                            need(s.status[frozenset((node[c], node[d]))] == names[new[j]], lambda: f"edge {j} is {s.status[frozenset((node[c], node[d]))]}")
                        need(len(s.status) == E, "edges of the table")
                        if new not in seen:
                            seen[new] = path + [(k, flip)]
                            todo.append(new)
        need(len(seen) == 3 ** (E - len(erased)), lambda: f"{len(seen)} states reached", key=None)
    rep.seen((n, E))
    rep.sample([n, edges, kind])


def shapes():
    """Larger graphs: stars, double stars, wheels, ladders, grids, long paths and combs."""
    star = lambda k: [(0, i) for i in range(1, k + 1)]
    for k in (6, 8, 11):
        yield f"star {k}", star(k)
    for a, b in ((3, 3), (5, 2), (6, 6)):
        yield f"double star {a} {b}", [(0, 1)] + [(0, 2 + i) for i in range(a)] + [(1, 2 + a + i) for i in range(b)]
    for k in (5, 7):
        yield f"wheel {k}", star(k) + [(i, i + 1) for i in range(1, k)] + [(1, k)]
    for k in (4, 6):
        yield f"ladder {k}", [(2 * i, 2 * i + 1) for i in range(k)] + [(i, i + 2) for i in range(2 * k - 2)]
    yield "grid", [(i, i + 1) for i in range(12) if i % 4 < 3] + [(i, i + 4) for i in range(8)]
    for k in (9, 13):
        yield f"path {k}", [(i, i + 1) for i in range(k - 1)]
    yield "comb", [(i, i + 1) for i in range(4)] + [(i, i + 5) for i in range(5)]
    yield "spider", star(6) + [(i, i + 6) for i in range(1, 7)]
    yield "bipartite", [(i, j) for i in (0, 1) for j in range(2, 8)]


def larger(rep, name, kind, omax, emax):
    """Few odd checks and few erased (or few unerased) edges on larger graphs."""
    edges = [tuple(sorted(e)) for e in dict(shapes())[name]]
    n, E = 1 + max(v for e in edges for v in e), len(edges)
    deg = {v: [e for e in edges if v in e] for v in range(n)}
    leaves = [v for v in range(n) if len(deg[v]) == 1]
    bounds = {(), tuple(leaves), tuple(leaves[::2]), tuple(leaves[:1]), tuple(leaves[-1:])}
    for bound in sorted(map(set, bounds), key=sorted):
        if any(set(deg[v][0]) <= bound for v in bound):
            continue
        G, node = decoding_graph(kind, n, edges, bound)
        checks = [i for i in range(n) if i not in bound]
        ers = {e for s in subsets(range(E), 0, emax) for e in (s, tuple(k for k in range(E) if k not in s))} | {tuple(range(0, E, 2)), tuple(range(E // 2))}
        for erased in sorted(ers):
            set_edges(G, node, edges, erased)
            parts = comps(n, edges)
            odds = list(subsets(checks, 0, omax)) + [tuple(checks), tuple(checks[1:]), tuple(checks[::2])]
            for odd in dict.fromkeys(odds):
                if any(len(c & set(odd)) % 2 and not c & bound for c in parts):
                    continue
                with rep.case([name, kind, sorted(bound), "erased", erased, "odd", odd], transitions=4):
                    one(rep, G, node, n, edges, bound, erased, odd)
    rep.sample([name, kind])


def decode(rep, n, graphs, kind):
    for edges in graphs:
        edges = [tuple(e) for e in edges]
        E = len(edges)
        for bound in subsets(range(n), 0, n - 1):
            bound = set(bound)
            # boundary points hang on one check each, as in the codes
            deg = {v: [e for e in edges if v in e] for v in range(n)}
            if any(len(deg[v]) != 1 or (set(deg[v][0]) <= bound) for v in bound):
                continue
            G, node = decoding_graph(kind, n, edges, bound)
            checks = [i for i in range(n) if i not in bound]
            parts = comps(n, edges)
            for erased in subsets(range(E), 0, E):
                set_edges(G, node, edges, erased)
                for odd in subsets(checks, 0, len(checks)):
                    if any(len(c & set(odd)) % 2 and not c & bound for c in parts):
                        continue
                    with rep.case([n, edges, kind, sorted(bound), "erased", erased, "odd", odd], transitions=4):
                        one(rep, G, node, n, edges, bound, erased, odd)
    rep.sample([n, kind, edges])


def one(rep, G, node, n, edges, bound, erased, odd):
    from flamingpy.decoders.unionfind import algos
    from flamingpy.decoders.unionfind.uf_classes import Boundary, Support

    back = {id(v) if not isinstance(v, tuple) else v: k for k, v in node.items()}
    num = lambda x: back[x] if isinstance(x, tuple) else back[id(x)]
    for i in range(n):
        if i not in bound:
            node[i].value = int(i in odd)
    node_dict, clusters, odd_clusters = algos.initialize_cluster_trees(G)
    need({num(k) for k in node_dict} == set(range(n)) and len(node_dict) == n, "nodes of the cluster trees")

    def audit(parts, listed):
        heads = {}
        for c in parts:
            rs = {id(node_dict[node[i]].find_root()): node_dict[node[i]].find_root() for i in c}
            need(len(rs) == 1 and None not in rs.values(), lambda: f"component {sorted(c)} is in {len(rs)} clusters")
            r = next(iter(rs.values()))
            need(id(r) not in heads, lambda: f"component {sorted(c)} shares its cluster")
            heads[id(r)] = (r, c)
            need(r.size == len(c), lambda: f"cluster {sorted(c)} has size {r.size}")
            need(r.parity == len(c & set(odd)) % 2, lambda: f"cluster {sorted(c)} has parity {r.parity}")
            need(bool(r.boundary) == bool(c & bound), lambda: f"cluster {sorted(c)} has boundary {r.boundary}")
            need(not r.boundary or num(r.boundary.id) in c & bound, "boundary element")
            todo, got = [r.node], set()
            while todo:
                k = todo.pop()
                need(num(k.id) not in got, "cycle in the element tree")
                got.add(num(k.id))
                todo += list(k.children)
            need(got == set(c), lambda: f"the tree of {sorted(c)} reaches {sorted(got)}")
        if listed is not None:
            need(sorted(map(id, listed)) == sorted(heads), "the list of clusters is not the set of clusters")
        return heads

    parts0 = comps(n, [edges[k] for k in erased])
    heads = audit(parts0, clusters)
    want_odd = sorted(i for i, (r, c) in heads.items() if len(c & set(odd)) % 2 and not c & bound)
    need(sorted(map(id, odd_clusters)) == want_odd, lambda: f"odd clusters {[sorted(heads[id(c)][1]) for c in odd_clusters]}")

    class Watch(Support):
        """The support table, counting when each edge becomes grown."""

        def __init__(self, g):
            super().__init__(g)
            self.done = {}

        def grow(self, edge):
            r = super().grow(edge)
            if r is not None:
                k = frozenset(r)
                self.done[k] = self.done.get(k, 0) + 1
            return r

    sup = Watch(G)
    boundary = {}
    for c in clusters:
        boundary[c.node] = Boundary(c, sup, G)
        got = {num(x.id) for x in boundary[c.node].nodes}
        mem = heads[id(c)][1]
        want = {v for v in mem if any(v in e and k not in erased for k, e in enumerate(edges))}
        need(got == want, lambda: f"boundary of cluster {sorted(mem)} is {sorted(got)}, expected {sorted(want)}")
    algos.union_find(odd_clusters, boundary, G, sup, node_dict)
    need(all(v == 1 for v in sup.done.values()), "an edge became grown twice")
    status = {tuple(sorted(num(x) for x in e)): s for e, s in sup.status.items()}
    grown = [e for e in edges if status[e] == "grown"]
    need(set(edges[k] for k in erased) <= set(grown), "an erased edge is not grown any more")
    need({tuple(sorted(num(x) for x in e)) for e in sup.done} == set(grown) - {edges[k] for k in erased}, "grown edges and reported growth differ")
    parts = comps(n, grown)
    final = audit(parts, None)
    need(not any(r.parity and not r.boundary for r, _ in final.values()), "an odd cluster without boundary is left")
    for r, c in final.values():
        got = {num(x.id) for x in boundary[r.node].nodes}
        want = {v for v in c if any(v in e and status[e] != "grown" for e in edges)}
        need(want <= got <= c, lambda: f"boundary of the grown cluster {sorted(c)} is {sorted(got)}, nodes with bonds to grow: {sorted(want)}")
        boundary[r.node].prune(sup, G)
        got = {num(x.id) for x in boundary[r.node].nodes}
        need(got == want, lambda: f"pruned boundary of cluster {sorted(c)} is {sorted(got)}, nodes with bonds to grow: {sorted(want)}")
    ever = {v for c in parts0 if len(c & set(odd)) % 2 and not c & bound for v in c}
    if not ever:
        need(len(grown) == len(erased) and "half-grown" not in status.values(), "clusters grew although none was odd")
    for c in parts:  # nothing that was never odd grows by itself
        if not any(p <= c and len(p & set(odd)) % 2 and not p & bound for p in parts0):
            need(c in parts0, lambda: f"cluster {sorted(c)} grew although none of its parts was odd")
    before = set(grown)
    forest, par = algos.obtain_spanning_forest(G, sup)
    forest_ok(forest, back, sorted(before), G, node)
    rec = algos.peeling(forest, par)
    flip = {v: 0 for v in range(n)}
    for q in rec:
        need(q[:2] in before, lambda: f"recovery flips {q}, which is not grown")
        flip[q[0]] ^= 1
        flip[q[1]] ^= 1
    for i in range(n):
        if i not in bound:
            need(flip[i] == int(i in odd), lambda: f"recovery {sorted(rec)} does not match the syndrome at check {i}")
    rep.seen((len(parts0), len(parts), len(rec)))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for n in range(1, 7 if deep else 6):
        vals = (0, 1, "boundary", None)
        for labels in it.combinations_with_replacement(range(4), n):
            l = [vals[i] for i in labels]
            if l.count(None) == n or (n == 6 and None in l and l.count(None) > 2):
                continue
            J.append(("trees", dict(labels=l)))
    for n in (6, 7, 8, 9, 10) if deep else (6, 7, 8):
        for o in (range(n + 1) if deep else (n, n - 1, n - 2)):
            for b in range(n - o + 1) if deep else (0, n - o):
                J.append(("trees", dict(labels=[1] * o + ["boundary"] * b + [0] * (n - o - b), up_to_names=True)))
    for kind in ("nx", "rx"):
        for n in (2, 3, 4, 5):
            for E in all_graphs(n, n == 5):
                if len(E) <= (6 if deep else 5) and (n < 5 or kind == "rx" or deep):
                    J.append(("support", dict(n=n, edges=E, kind=kind)))
    for name, _ in shapes():
        for kind in ("rx", "nx"):
            J.append(("larger", dict(name=name, kind=kind, omax=4 if deep else 2 if kind == "nx" else 3, emax=2 if deep else 1)))
    for kind in ("rx", "nx"):
        for n in (2, 3, 4, 5, 6) if deep else (2, 3, 4, 5):
            gs = [E for E in all_graphs(n, n >= 5) if len(E) <= (8 if deep else 6)]
            for a, b in chunks(len(gs), 2 if n < 6 else 1):
                J.append(("decode", dict(n=n, graphs=gs[a:b], kind=kind)))
    return sorted(J, key=lambda j: -min(2, 0.2 * len(j[1].get("labels", []))) - 0.5 * (j[0] == "decode" and j[1]["n"] >= 5) - 0.7 * (j[0] == "support" and len(j[1]["edges"]) >= 5))
