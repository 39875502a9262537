"""C07: matching backends find a minimum-weight perfect matching."""
import functools
import itertools as it

from mc.core import need
from mc.lib import *
from mc.c01 import prepare  # noqa: F401

PROPERTY = "C07"
BOUNDS = {
    "quick": "all complete graphs on 2 and 4 nodes over {0,1,2,3,5} and over a fractional alphabet of 4; every two-valued pattern on 6 nodes (weights 0/1, and 1/2 of fractions) and "
    "on 8 nodes up to isomorphism (networkx on every 2nd of these); three-valued patterns on a window of 8 edges of 6 nodes; metric families (line, circle, grid, "
    "boundary twins) on up to 14 nodes; lines of up to 60 nodes with and without boundaries (120 nodes in all), where the minimum is known; weights from 1e-9 to 7e6; the matching graph (and its conversion) of every syndrome with up to 2-4 odd checks of 6 codes under 3 weightings, and of 11 structured syndromes of up to 48 odd checks of 4 larger codes; all three backends; insertion orders and node kinds",
    "thorough": "as quick with networkx on everything, all three-valued 6-node windows of 10 edges",
}
ASSUMPTIONS = ["non-negative weights", "the compiled backend is compared to single precision"]
KINDS = ("rx", "nx", "lemon")


@functools.lru_cache(None)
def edges(n):
    return list(it.combinations(range(n), 2))


@functools.lru_cache(None)
def matchings(n):
    """All perfect matchings as an array of edge indices."""
    ei = {e: i for i, e in enumerate(edges(n))}

    def rec(left):
        if not left:
            yield []
            return
        a = left[0]
        for b in left[1:]:
            for m in rec([x for x in left if x not in (a, b)]):
                yield [ei[a, b]] + m

    return np.array(list(rec(list(range(n)))))


def optimum(n, w):
    if n <= 8:
        return float(np.asarray(w, dtype=float)[matchings(n)].sum(axis=1).min())
    W = dict(zip(edges(n), w))
    return dp_matching(tuple(range(n)), lambda a, b: W[min(a, b), max(a, b)], lambda a: math.inf)


def build(kind, n, w, order, names, again=0):
    from flamingpy.decoders.mwpm.matching import NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph

    g = {"rx": RxMatchingGraph, "nx": NxMatchingGraph, "lemon": LemonMatchingGraph}[kind]("primal")
    E = edges(n)
    for k in order:
        a, b = E[k]
        if k % 2:
            a, b = b, a
        if again and k % again == 0:  # replaced below
            g.add_edge((names[b], names[a]), w[-1 - k] + k % 3, [names[b], "old", names[a]])
        g.add_edge((names[a], names[b]), w[k], [names[a], ("mid", k), names[b]])
    if again:
        for k in order[::again]:
            a, b = E[k]
            g.add_edge((names[a], names[b]), w[k], [names[a], ("mid", k), names[b]])
    return g


def check(kind, n, w, opt, variant=0):
    m = len(edges(n))
    order = list(range(m)) if variant % 2 == 0 else [(k * 5 + 3) % m if m % 5 else m - 1 - k for k in range(m)]
    names = [i for i in range(n)] if variant % 3 else [((i, 0, 1), i) if i % 2 else f"s{i}" for i in range(n)]
    g = build(kind, n, w, order, names, (0, 0, 0, 2, 0, 0, 1)[variant % 7])
    match = list(g.min_weight_perfect_matching())
    ends = [x for e in match for x in e]
    need(all(len(e) == 2 for e in match) and len(ends) == n and set(ends) == set(names), lambda: f"{kind}: {match} is no perfect matching of {names}")
    idx = {x: i for i, x in enumerate(names)}
    W = dict(zip(edges(n), w))
    tot = 0
    for a, b in match:
        e = tuple(sorted((idx[a], idx[b])))
        k = edges(n).index(e)
        need(g.edge_weight((a, b)) == W[e], lambda: f"{kind}: edge_weight({a}, {b}) = {g.edge_weight((a, b))}, given {W[e]}")
        p = g.edge_path((a, b))
        need(list(p)[1] == ("mid", k), lambda: f"{kind}: path of ({a}, {b}) is {p}")
        tot += W[e]
    rep = g.total_weight_of(match)
    need(close(rep, tot), lambda: f"{kind}: total_weight_of = {rep}, edges sum to {tot}")
    tol = 2e-5 if kind == "lemon" else 1e-9
    unit = min(1, max(w))
    need(tot <= opt + tol * (unit + opt), lambda: f"{kind}: matching weighs {tot}, minimum {opt}: {match}")
    need(tot >= opt - 1e-9 * (unit + opt), lambda: f"{kind}: reference minimum {opt} too large")


def full(rep, n, alphabet, part, parts):
    m = len(edges(n))
    for k, w in enumerate(it.product(alphabet, repeat=m)):
        if k % parts != part:
            continue
        opt = optimum(n, w)
        for kind in KINDS:
            with rep.case([n, w, kind], states=kind == "rx"):
                check(kind, n, w, opt, k)
        rep.seen((n, opt))
    rep.sample({"nodes": n, "weights": w})


def two_valued(rep, lo, hi, part, parts, kinds):
    """Every graph on 6 nodes as a pattern of two weights."""
    for k in range(part, 1 << 15, parts):
        w = [hi if k >> i & 1 else lo for i in range(15)]
        opt = optimum(6, w)
        for kind in kinds:
            with rep.case([6, k, (lo, hi), kind], states=kind == "rx"):
                check(kind, 6, w, opt, k)
        rep.seen((6, opt))


def eight(rep, lo, hi, part, parts, nx_every):
    """Every graph on 8 nodes up to isomorphism (7-node atlas plus one node joined in every way)."""
    from networkx.generators.atlas import graph_atlas_g

    E = edges(8)
    n = 0
    for G in graph_atlas_g():
        if len(G) != 7:
            continue
        base = {tuple(sorted(e)) for e in G.edges}
        for s in range(128):
            n += 1
            if n % parts != part:
                continue
            w = [hi if (e in base or (e[1] == 7 and s >> e[0] & 1)) else lo for e in E]
            opt = optimum(8, w)
            for kind in KINDS:
                if kind == "nx" and (n // parts) % nx_every:
                    continue
                with rep.case([8, G.name, s, (lo, hi), kind], states=kind == "rx"):
                    check(kind, 8, w, opt, n)
            rep.seen((8, opt))


def window(rep, alphabet, win, part, parts):
    for k, vals in enumerate(it.product(alphabet, repeat=len(win))):
        if k % parts != part:
            continue
        w = [2 + (i % 3) for i in range(15)]
        for i, v in zip(win, vals):
            w[i] = v
        opt = optimum(6, w)
        for kind in KINDS:
            with rep.case([6, w, kind], states=kind == "rx"):
                check(kind, 6, w, opt, k)


def metric(rep, n, part, parts):
    """Weights from positions: odd clusters, ties, boundary twins with free bonds."""
    k = 0
    for name, pos in families(n):
        for scale in (1, 0.37, 100, 1 / 3):
            for twin in (False, True):
                k += 1
                if k % parts != part:
                    continue
                h = n // 2
                w = []
                for a, b in edges(n):
                    if twin and a >= h and b >= h:
                        w.append(0)
                    elif twin and b - h != a and b >= h:
                        w.append(scale * (50 + a + b))
                    else:
                        w.append(scale * pos(a, b))
                opt = optimum(n, w)
                for kind in KINDS:
                    with rep.case([n, name, scale, twin, kind], states=kind == "rx"):
                        check(kind, n, w, opt, k)


def families(n):
    yield "line", lambda a, b: abs(a - b)
    yield "circle", lambda a, b: min((a - b) % n, (b - a) % n)
    yield "grid", lambda a, b: abs(a % 3 - b % 3) + abs(a // 3 - b // 3)
    yield "squares", lambda a, b: (a - b) ** 2
    yield "product", lambda a, b: a * b % 7
    yield "sum", lambda a, b: (a + b) % 5
    yield "odd clusters", lambda a, b: 1 if a // 3 == b // 3 else 10 + (a * b) % 4
    yield "fives", lambda a, b: 0 if a // 5 == b // 5 else 3 + (a + 2 * b) % 6 / 4
    yield "equal", lambda a, b: 1


def long_lines(rep, n, part, parts):
    """Up to hundreds of nodes on a line, with and without a boundary for each: the minimum is known."""
    k = 0
    for gaps in ([1], [1, 2], [3, 1, 1], [0, 1], [0.5, 0.25, 4], [1, 100], [709, 0.1], [1000.25, 2000, 0], [7, 5, 3, 2, 11]):
        for bound in (None, 0, 2.5, 40):
            k += 1
            if k % parts != part:
                continue
            xs = [0]
            for i in range(n - 1):
                xs.append(xs[-1] + gaps[i % len(gaps)])
            order = [(i * 7 + 3) % n if n % 7 else n - 1 - i for i in range(n)]
            if bound is None:
                N, w = n, {(a, b): abs(xs[order[a]] - xs[order[b]]) for a, b in it.combinations(range(n), 2)}
                s = xs if n % 2 == 0 else None
                opt = sum(s[i + 1] - s[i] for i in range(0, n, 2))
            else:
                B = [bound + min(x, xs[-1] - x) for x in xs]
                dp = [0, B[0]]
                for i in range(1, n):
                    dp.append(min(dp[-1] + B[i], dp[-2] + xs[i] - xs[i - 1]))
                opt = dp[-1]
                N, w = 2 * n, {}
                for a, b in it.combinations(range(n), 2):
                    w[a, b] = abs(xs[order[a]] - xs[order[b]])
                    w[n + a, n + b] = 0
                for a in range(n):
                    w[a, n + a] = B[order[a]]
            for kind in KINDS:
                with rep.case([n, gaps, bound, kind], states=kind == "rx"):
                    from flamingpy.decoders.mwpm.matching import NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph

                    g = {"rx": RxMatchingGraph, "nx": NxMatchingGraph, "lemon": LemonMatchingGraph}[kind]("primal")
                    for (a, b), x in w.items():
                        g.add_edge((a, b), x, [a, b])
                    match = list(g.min_weight_perfect_matching())
                    ends = sorted(x for e in match for x in e)
                    need(ends == list(range(N)), lambda: f"{kind}: no perfect matching of {N} nodes: {match[:5]}")
                    need(all(tuple(sorted(e)) in w for e in match), lambda: f"{kind}: pairs without an edge: {match[:5]}")
                    tot = sum(w[tuple(sorted(e))] for e in match)
                    tol = 1e-4 if kind == "lemon" else 1e-9
                    need(abs(tot - opt) <= tol * (1 + opt), lambda: f"{kind}: matching weighs {tot}, minimum {opt}")
                    need(abs(g.total_weight_of(match) - tot) <= tol * (1 + opt), lambda: f"{kind}: total_weight_of = {g.total_weight_of(match)}, edges sum to {tot}")
            rep.seen((n, bound))


def empty(rep):
    from flamingpy.decoders.mwpm.matching import NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph

    for cls in (NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph):
        with rep.case(["empty", cls.__name__]):
            g = cls("primal")
            m = list(g.min_weight_perfect_matching())
            need(m == [], f"matching of an empty graph: {m}")
            need(g.total_weight_of(m) == 0, "weight of an empty matching")
    code = make_code(2)
    set_bits(code, [])
    for cls in (NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph):
        with rep.case(["no odd checks", cls.__name__]):
            m = list(cls("primal", code).min_weight_perfect_matching())
            need(m == [], f"matching of a trivial syndrome: {m}")


def extremes(rep, vals):
    """Very small and very large weights together, as zero-probability errors and multipliers give."""
    for k, w in enumerate(it.product(vals, repeat=6)):
        opt = optimum(4, w)
        for kind in KINDS:
            with rep.case([4, w, kind], states=kind == "rx"):
                check(kind, 4, w, opt, k)


def built(rep, dims, ec, b, sg, odd_max):
    """The matching graph of every syndrome with few odd checks (odd_max 0: of syndromes
    with many, in regular patterns), and its conversion."""
    from flamingpy.decoders.mwpm.algos import build_match_graph
    from flamingpy.decoders.mwpm.matching import NxMatchingGraph, LemonMatchingGraph, RxMatchingGraph

    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    n = len(ref.check_list)
    num = {frozenset(q): i for i, q in enumerate(ref.checks[c] for c in ref.check_list)}
    cls = {"networkx": NxMatchingGraph, "rustworkx": RxMatchingGraph, "lemon": LemonMatchingGraph}
    noB = {i: [(v, q) for v, q in a if v != "B"] for i, a in ref.adjacency.items() if i != "B"}
    k = 0
    for fam in ([1] * len(ref.qubits), [0.25 + (i * 37 % 19) / 8 for i in range(len(ref.qubits))], [i % 3 for i in range(len(ref.qubits))]):
        set_weights(code, {q: fam[i] for i, q in enumerate(ref.qubits)})
        inner = {i: dijkstra(noB, i, fam) for i in range(n)}
        to_bound = ref.dist_from(["B"], fam) if b == "open" else None
        syns = [(t, ref.solve(t)) for t in subsets(range(n), 1, odd_max) if b == "open" or len(t) % 2 == 0]
        if not odd_max:
            syns = [([i for i in range(n) if ref.syndrome(m) >> i & 1], m) for _, m in ref.dense_syndromes()]
        for t, m in syns:
            if m is None:
                continue
            set_bits(code, ref.unmask(m))
            for kind in cls:
                k += 1
                with rep.case([dims, ec, b, sg, "graph of", [ref.check_list[i] for i in t], kind], states=kind == "rustworkx"):
                    g = build_match_graph(code, ec, kind) if k % 3 == 0 else cls[kind](ec, code) if k % 3 == 1 else cls[kind](ec).with_edges_from(code, ec)
                    x = g.to_nx() if hasattr(g, "to_nx") else g
                    need(isinstance(x, NxMatchingGraph), f"to_nx gives a {type(x).__name__}")
                    need(list(x.virtual_points) == list(g.virtual_points), lambda: f"boundary points {g.virtual_points}, converted {x.virtual_points}")
                    which = {}
                    for v in x.graph.nodes:
                        if not isinstance(v, tuple):
                            which[v] = num.get(frozenset(v.coords()))
                    need(None not in which.values() and sorted(which.values()) == sorted(t), lambda: f"the checks of the graph are {list(which.values())}, odd are {t}")
                    virt = [v for v in x.graph.nodes if isinstance(v, tuple)]
                    need(set(virt) == set(g.virtual_points) and len(virt) == (len(t) if b == "open" else 0), lambda: f"boundary nodes {virt}, recorded {g.virtual_points}")
                    N = len(which) + len(virt)
                    own = set()
                    for u, v in x.graph.edges:
                        e = (u, v)
                        d = x.graph.edges[e]
                        w, path = g.edge_weight(e), list(g.edge_path(e))
                        need(close(d["weight"], w) and list(d["path"]) == path, lambda: f"converted edge {d}, was {w} with {path}")
                        if u in which and v in which:
                            want = inner[which[u]][which[v]]
                            ends = {num[frozenset(p.coords())] for p in (path[0], path[-1])}
                            need(ends == {which[u], which[v]}, "the path of an edge joins other checks")
                        elif u in which or v in which:
                            c, p = (u, v) if u in which else (v, u)
                            want = to_bound[which[c]]
                            own.add((which[c], p))
                            q = [a for a in (path[0], path[-1]) if isinstance(a, tuple)]
                            need(len(q) == 1 and q[0] in set(ref.low) | set(ref.high), lambda: f"the path to the boundary is {path}")
                        else:
                            want = 0
                            need(w == 0, lambda: f"two boundary nodes are joined with weight {w}")
                            continue
                        need(close(w, want), lambda: f"edge of weight {w}, distance {want}")
                        length = 0
                        sg_ = getattr(code, ec + "_stab_graph")
                        for a, c in zip(path, path[1:]):
                            if isinstance(a, str) or isinstance(c, str):  # a chain of weight zero from side to side
                                need(u not in which or v not in which, "a path between checks passes a connector")
                                continue
                            length += fam[ref.index[sg_.edge_data(a, c)["common_vertex"]]]
                        need(close(length, w), lambda: f"the path of an edge of weight {w} is {length} long")
                    if b == "open":
                        need(len(own) == len({c for c, _ in own}) == len({p for _, p in own}) == len(t), lambda: f"checks and their boundary nodes: {own}")
                        need(x.graph.number_of_edges() == len(t) * (len(t) - 1) + len(t), "not all pairs are joined")
                    else:
                        need(x.graph.number_of_edges() == len(t) * (len(t) - 1) // 2, "not all pairs are joined")
                    a = g.total_weight_of(g.min_weight_perfect_matching())
                    bb = x.total_weight_of(x.min_weight_perfect_matching())
                    need(abs(a - bb) <= 2e-5 * (1 + abs(bb)), lambda: f"converted graph: minimum {bb}, before {a}")
        rep.seen((dims, b, len(syns)))


def dijkstra(adj, src, w):
    d, todo = {src: 0}, [(0, src)]
    while todo:
        todo.sort(reverse=True)
        x, u = todo.pop()
        if x > d[u]:
            continue
        for v, q in adj[u]:
            if v not in d or x + w[q] < d[v]:
                d[v] = x + w[q]
                todo.append((d[v], v))
    return d


def jobs(tier):
    deep = tier == "thorough"
    J = [("empty", {})]
    for dims, ec, b in (((2, 2, 2), "primal", "open"), ((2, 2, 2), "dual", "open"), ((3, 2, 2), "primal", "open"), ((2, 3, 3), "dual", "open"), ((3, 3, 2), "primal", "toric"), ((3, 3, 3), "dual", "periodic")):
        for sg in ("rustworkx", "networkx"):
            J.append(("built", dict(dims=list(dims), ec=ec, b=b, sg=sg, odd_max=(4 if sum(dims) < 7 else 3 if b == "open" and sum(dims) < 8 else 2) + deep)))
    for dims, ec, b in (((3, 3, 3), "primal", "open"), ((4, 3, 3), "dual", "open"), ((4, 4, 3), "primal", "toric"), ((3, 3, 4), "dual", "periodic")) + ((((5, 4, 4), "dual", "open"),) if deep else ()):
        for sg in ("rustworkx", "networkx"):
            J.append(("built", dict(dims=list(dims), ec=ec, b=b, sg=sg, odd_max=0)))
    for vals in ((0, 1e-6, 0.6931, 708.396, 7084), (0, 1, 708396, 7083964.2, 6.9e5), (1e-7, 3e-7, 1e-6, 4e-7, 2e-7)):
        J.append(("extremes", dict(vals=vals)))
    for n in (16, 20, 30, 44, 60) + ((80, 120) if deep else ()):
        for part in range(2 if n < 44 else 6):
            J.append(("long_lines", dict(n=n, part=part, parts=2 if n < 44 else 6)))
    for a in ([0, 1, 2, 3, 5], [0, 0.25, 0.3, 1.7]):
        J.append(("full", dict(n=2, alphabet=a, part=0, parts=1)))
        for part in range(4):
            J.append(("full", dict(n=4, alphabet=a, part=part, parts=4)))
    for lo, hi in ((0, 1), (1, 2), (0.5, 0.8)) if deep else ((0, 1), (0.5, 0.8)):
        for part in range(8):
            J.append(("two_valued", dict(lo=lo, hi=hi, part=part, parts=8, kinds=list(KINDS) if lo == 0 or deep else ["rx", "lemon"])))
        if lo == 0 or deep:
            for part in range(16):
                J.append(("eight", dict(lo=lo, hi=hi, part=part, parts=16, nx_every=1 if deep else 2)))
    for win in ([0, 2, 4, 6, 8, 10, 12, 14], list(range(8))):
        if deep:
            win = win + [x for x in range(15) if x not in win][:2]
        for part in range(4):
            J.append(("window", dict(alphabet=[0, 1, 3.5], win=win, part=part, parts=4)))
    for n in (6, 8, 10, 12, 14):
        J.append(("metric", dict(n=n, part=0, parts=1)))
    return J
