"""C06: the decoding graph mirrors the code in every backend."""
import itertools as it

from mc.core import need
from mc.lib import *
from mc.c02 import families

PROPERTY = "C06"
BOUNDS = {
    "quick": "structure: all dimensions in {2,3,4}^3 and larger elongated ones x complex x boundary x both backends and conversion; paths: all sources and targets "
    "under 11 structured weight families on 66 codes, and every 0/1/2.5 weight pattern on windows of 6 qubits of 2x2x2 codes (5 of 3x2x2-type ones)",
    "thorough": "as quick with dimensions up to 5, windows of 8 and all sources on codes up to 5x5x5",
}
ASSUMPTIONS = ["finite non-negative weights"]
SG = ("rustworkx", "networkx")


def key(node):
    """Node of the decoding graph as a comparable value."""
    if isinstance(node, str) or isinstance(node, tuple):
        return node
    return frozenset(node.coords())


def ref_edges(ref):
    """{frozenset of two node keys: set of possible labels}; connector edges have label None."""
    res = {}
    for q in ref.qubits:
        cs = [ref.checks[c] for c in ref.of[q]]
        e = frozenset(cs) if len(cs) == 2 else frozenset((cs[0], q))
        res.setdefault(e, set()).add(q)
    for q in ref.low:
        res[frozenset(("low", q))] = {None}
    for q in ref.high:
        res[frozenset(("high", q))] = {None}
    return res


def ref_nodes(ref):
    return set(ref.checks.values()) | set(ref.low) | set(ref.high) | {"low", "high"}


def check_structure(ref, g, weights=None):
    """Compare a decoding graph with the reference; return {edge: label}."""
    nodes = [key(n) for n in g.nodes()]
    need(len(nodes) == len(set(nodes)) and set(nodes) == ref_nodes(ref), lambda: f"nodes differ: {len(nodes)} of {len(ref_nodes(ref))}: {[n for n in set(nodes) ^ ref_nodes(ref)][:3]}")
    want = ref_edges(ref)
    edges = list(g.edges())
    got = [frozenset((key(a), key(b))) for a, b in edges]
    need(len(got) == len(set(got)), "an edge is repeated")
    need(set(got) == set(want), lambda: f"edges: missing {[list(e) for e in set(want) - set(got)][:2]}, extra {[list(e) for e in set(got) - set(want)][:2]}")
    labels = {}
    for (a, b), e in zip(edges, got):
        d = g.edge_data(a, b)
        need(d["common_vertex"] in want[e], lambda: f"edge {list(e)} is labelled {d['common_vertex']}, shared: {want[e]}")
        d2 = g.edge_data(b, a)
        need(d2["common_vertex"] == d["common_vertex"], "edge data depends on the order of its ends")
        labels[e] = d["common_vertex"]
        if weights is not None:
            w = 0 if d["common_vertex"] is None else weights[d["common_vertex"]]
            need(d["weight"] == w, lambda: f"edge {list(e)} weighs {d['weight']}, its qubit {w}")
    return labels


def check_lists(ref, g):
    need(sorted(g.low_bound_points) == ref.low and sorted(g.high_bound_points) == ref.high, lambda: f"sides: low {sorted(g.low_bound_points)[:3]} high {sorted(g.high_bound_points)[:3]}")
    need({key(s) for s in g.stabilizers} == set(ref.checks.values()) and len(g.stabilizers) == len(ref.checks), "list of stabilizers")
    need(bool(g.has_bound_points()) == bool(ref.low), "has_bound_points")
    need(sorted(g.bound_points()) == sorted(ref.low + ref.high), "bound_points")
    real = [key(n) for n in g.real_nodes()]
    need(len(real) == len(set(real)) and set(real) == ref_nodes(ref) - {"low", "high"}, "real_nodes")
    rede = [frozenset((key(a), key(b))) for a, b in g.real_edges()]
    want = {e for e in ref_edges(ref) if not e & {"low", "high"}}
    need(len(rede) == len(want) and set(rede) == want, "real_edges")
    nb = {n: set() for n in ref_nodes(ref)}
    for e in ref_edges(ref):
        a, b = e
        nb[a].add(b)
        nb[b].add(a)
    for n in g.nodes():
        got = [key(x) for x in g.neighbors(n)]
        need(len(got) == len(set(got)) and set(got) == nb[key(n)], lambda: f"neighbours of {key(n)}")
        oute = [frozenset((key(a), key(b))) for a, b in g.out_edges(n)]
        need(len(oute) == len(nb[key(n)]) and set(oute) == {frozenset((key(n), x)) for x in nb[key(n)]}, lambda: f"edges of {key(n)}")


def graph_adj(ref, labels, w):
    adj = {n: [] for n in ref_nodes(ref)}
    for e, q in labels.items():
        a, b = e
        x = 0 if q is None else w[q]
        adj[a].append((b, x))
        adj[b].append((a, x))
    return adj


def dijkstra(adj, src, banned=()):
    d, h, n, done = {src: 0}, [(0, 0, src)], 0, set()
    while h:
        x, _, u = heapq.heappop(h)
        if u in done:
            continue
        done.add(u)
        for v, w in adj[u]:
            if v not in banned and x + w < d.get(v, math.inf):
                d[v] = x + w
                n += 1
                heapq.heappush(h, (x + w, n, v))
    return d


def check_paths(ref, g, labels, w, sources):
    """Distances and paths from the sources and from both connectors."""
    adj = graph_adj(ref, labels, w)
    ew = {e: (0 if q is None else w[q]) for e, q in labels.items()}
    for src in sources:
        banned = () if src in ("low", "high") else ("low", "high")
        lens, paths = (
            g.shortest_paths_from_low() if src == "low" else g.shortest_paths_from_high() if src == "high" else g.shortest_paths_without_high_low(src)
        )
        d = dijkstra(adj, key(src), banned)
        lens = {key(k): v for k, v in lens.items()}
        paths = {key(k): [key(x) for x in p] for k, p in paths.items()}
        for t, x in d.items():
            if t == key(src):
                continue
            need(t in lens and t in paths, lambda: f"no path from {key(src)} to {t}")
            need(close(lens[t], x), lambda: f"distance from {key(src)} to {t} is {lens[t]}, true {x}")
            p = paths[t]
            need(p[0] == key(src) and p[-1] == t, lambda: f"path from {key(src)} to {t} has ends {p[0]}, {p[-1]}")
            tot = 0
            for a, b in zip(p, p[1:]):
                e = frozenset((a, b))
                need(e in ew, lambda: f"path from {key(src)} to {t} uses no edge {a}-{b}")
                need(not (e & set(banned)), "path between checks uses a connector")
                tot += ew[e]
            need(close(tot, x), lambda: f"path from {key(src)} to {t} weighs {tot}, distance {x}")
        extra = set(lens) - set(d) - {key(src)}
        need(not extra, lambda: f"paths to unreachable nodes {list(extra)[:2]}")


def structure(rep, dims):
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            ref = ref_of(dims, ec, b)
            for sg in SG:
                with rep.case([dims, ec, b, sg, "structure"], transitions=3):
                    code = make_code(dims, ec, b, sg)
                    g = getattr(code, ec + "_stab_graph")
                    l0 = check_structure(ref, g)
                    check_lists(ref, g)
                    conv = g.to_nx()
                    need(check_structure(ref, conv) == l0, "conversion changed labels")
                    check_lists(ref, conv)
                    for k in (3, 5):
                        w = {q: (i * 7 % (k * 4)) / k for i, q in enumerate(ref.qubits)}
                        set_weights(code, w)
                        need(check_structure(ref, g, w) == l0, "labels changed")
                        conv = g.to_nx()
                        need(check_structure(ref, conv, w) == l0, "conversion changed labels")
                    need(sorted(code.graph.nodes) == sorted(ref.sites), "lattice changed")
                    rep.seen((len(l0), len(ref.checks)))
    rep.sample([dims, "structure of all codes"])


def paths(rep, dims, ec, b, sg, fams, stride=1):
    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    g = getattr(code, ec + "_stab_graph")
    labels = check_structure(ref, g)
    for name, ww in families(ref):
        if name not in fams:
            continue
        w = dict(zip(ref.qubits, ww))
        set_weights(code, w)
        srcs = g.stabilizers[::stride] + (["low", "high"] if ref.low else [])
        for s in srcs:
            with rep.case([dims, ec, b, sg, "paths", name, str(key(s))]):
                check_paths(ref, g, labels, w, [s])
                rep.seen((name, len(labels)))
        with rep.case([dims, ec, b, sg, "converted", name]):
            conv = g.to_nx()
            check_structure(ref, conv, w)
            check_paths(ref, conv, labels, w, g.stabilizers[:1] + (["low", "high"] if ref.low else []))
            check_structure(ref, g, w)  # the queries leave the graph as it was
    rep.sample([dims, ec, b, sg, name])


def windows(rep, dims, ec, b, sg, win, part, parts, alphabet=(0, 1, 2.5)):
    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    g = getattr(code, ec + "_stab_graph")
    labels = check_structure(ref, g)
    srcs = list(g.stabilizers) + (["low", "high"] if ref.low else [])
    for k, vals in enumerate(it.product(alphabet, repeat=len(win))):
        if k % parts != part:
            continue
        w = {q: 1 for q in ref.qubits}
        for i, v in zip(win, vals):
            w[ref.qubits[i]] = v
        with rep.case([dims, ec, b, sg, "window", win, vals], transitions=len(srcs)):
            set_weights(code, w)
            check_structure(ref, g, w)
            check_paths(ref, g, labels, w, srcs)


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for dims in it.product(range(2, 6 if deep else 5), repeat=3):
        J.append(("structure", dict(dims=list(dims))))
    for dims in ((6, 2, 2), (2, 6, 3), (3, 2, 6), (5, 5, 2), (5, 3, 4), (2, 2, 17), (2, 11, 2), (11, 2, 3), (12, 3, 2), (6, 6, 3), (3, 10, 3)):
        J.append(("structure", dict(dims=list(dims))))
    fams = ["uniform", "mod3", "fraction", "axes", "axes2", "lowhigh", "tiny", "heavy", "huge", "near ties", "zeros"]
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for i, dims in enumerate([(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3), (4, 2, 3), (2, 4, 3), (3, 3, 5), (2, 2, 11), (11, 2, 2), (2, 11, 2)] + ([(5, 5, 5), (4, 4, 4)] if deep else [])):
                for sg in SG:
                    J.append(("paths", dict(dims=dims, ec=ec, b=b, sg=sg, fams=fams)))
            for dims in [(2, 2, 2)] + ([(3, 2, 2), (2, 3, 2), (2, 2, 3)] if b == "open" else []):
                n = len(ref_of(dims, ec, b).qubits)
                k = 5 if dims != (2, 2, 2) else 6
                k += 2 if deep else 0
                for win in ([n * j // k for j in range(k)], list(range(k)), [n - 1 - 2 * j for j in range(k)]):
                    for sg in SG:
                        if b == "open" or win[1] != 1 or deep:
                            J.append(("windows", dict(dims=dims, ec=ec, b=b, sg=sg, win=win, part=0, parts=1)))
    return J
