"""C05: lattice and checks form a valid foliated surface code."""
import itertools as it

from mc.core import need
from mc.lib import *

PROPERTY = "C05"
BOUNDS = {
    "quick": "lattice generator: all dimensions in {2..5}^3 x all 27 boundary combinations (with and without three bond-weight functions) plus "
    "sizes up to 7, every accepted form of the arguments; codes: all dimensions in {2..5}^3 plus larger ones (up to 18 in one dimension, 10 in two, 6 in three) x complex x boundary x "
    "bond weights, every check against every site and every single flip",
    "thorough": "as quick with dimensions in {2..6}^3 for the generator and every bond-weight function for codes",
}
ASSUMPTIONS = ["dimensions of at least two"]
KINDS = ("primal", "dual", "periodic")


def wpol(edge):
    """A bond-weight function with many values, symmetric in the two ends."""
    (a, b) = sorted((tuple(int(c) for c in edge[0]), tuple(int(c) for c in edge[1])))
    return 1 + (a[0] * 7 + a[1] * 31 + a[2] * 101 + b[0] * 3 + b[1] * 11 + b[2] * 17) % 97


def xpol(edge):
    """-1 on the bonds along x."""
    return -1 if edge[0][0] != edge[1][0] else 1


def same_lattice(box, G, pol):
    prim, dual, bonds = set(box.primal()), set(box.dual()), box.bonds()
    nodes = set(G.nodes)
    need(nodes == prim | dual, lambda: f"sites: missing {sorted((prim | dual) - nodes)[:4]}, extra {sorted(nodes - prim - dual)[:4]}")
    for p in nodes:
        t = G.nodes[p].get("type")
        need(t == ("primal" if p in prim else "dual"), lambda: f"type of {p} is {t!r}")
    got = {frozenset(e) for e in G.edges}
    need(got == set(bonds), lambda: f"bonds: missing {[sorted(e) for e in set(bonds) - got][:3]}, extra {[sorted(e) for e in got - set(bonds)][:3]}")
    for u, v, d in G.edges(data=True):
        need(d.get("weight") == (pol((u, v)) if pol else 1), lambda: f"weight of bond {u}-{v} is {d.get('weight')}, not {pol((u, v)) if pol else 1}")
        need(bool(d.get("periodic")) == bonds[frozenset((u, v))], lambda: f"wrap-around mark of bond {u}-{v} is {d.get('periodic')}")


def polarities():
    from flamingpy.codes.surface_code import alternating_polarity

    return {"none": None, "alternating": alternating_polarity, "w": wpol, "x": xpol}


def alternating(box, G):
    """Two bonds of either sign on every site with four neighbours, from the documentation."""
    for p in G.nodes:
        if len(G[p]) == 4:
            s = sorted(G.edges[p, q]["weight"] for q in G[p])
            need(s == [-1, -1, 1, 1], lambda: f"bond weights around {p}: {s}")


def lattices(rep, dims, pols):
    from flamingpy.codes.surface_code import RHG_graph

    P = polarities()
    for kinds in it.product(KINDS, repeat=3):
        box = Box(dims, kinds)
        # with two sites around a wrapped axis two bonds may join the same sites
        for name in pols:
            with rep.case(["RHG_graph", dims, kinds, name]):
                G = RHG_graph(dims, list(kinds), polarity=P[name])
                same_lattice(box, G, P[name])
                if name == "alternating":
                    alternating(box, G)
                rep.seen((len(G), G.size()))
    rep.sample(["RHG_graph", dims, kinds])


def forms(rep):
    """Every documented way to give the arguments."""
    from flamingpy.codes.surface_code import RHG_graph

    names = {
        "open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"), "primal": ("primal",) * 3, "dual": ("dual",) * 3,
        "periodic": ("periodic",) * 3, "periodic_primal": ("periodic", "periodic", "primal"), "periodic_dual": ("periodic", "periodic", "dual"),
    }
    for d in (2, (3, 2, 2), (2, 3, 4)):
        dd = (d,) * 3 if isinstance(d, int) else d
        dforms = [dd, list(dd), np.array(dd)] + ([d, np.int64(d)] if isinstance(d, int) else [])
        for name, kinds in names.items():
            for df in dforms:
                if isinstance(df, np.integer):
                    continue  # not a documented form for the generator
                for bf in (name, list(kinds), tuple(kinds), np.array(kinds)):
                    with rep.case(["RHG_graph", repr(df), repr(bf)]):
                        same_lattice(Box(dd, kinds), RHG_graph(df, bf), None)
        for ec in ("primal", "dual"):
            for b in ("open", "toric", "periodic"):
                for df in dforms:
                    with rep.case(["SurfaceCode", repr(df), ec, b]):
                        from flamingpy.codes import SurfaceCode

                        code = SurfaceCode(df, ec, b)
                        need(tuple(int(x) for x in code.dims) == dd, f"dims {code.dims}")
                        check_code(ref_of(dd, ec, b), code, None)
    with rep.case(["RHG_graph", "default boundaries"]):
        same_lattice(Box((2, 2, 2), ("primal",) * 3), RHG_graph(2), None)
    with rep.case(["SurfaceCode", "default arguments"]):
        from flamingpy.codes import SurfaceCode

        check_code(ref_of((3, 3, 3), "primal", "open"), SurfaceCode(3), None)
    for what, f in (
        ("two dims", lambda: RHG_graph((2, 2), "primal")),
        ("four dims", lambda: RHG_graph((2, 2, 2, 2), "primal")),
        ("string dims", lambda: RHG_graph("222", "primal")),
        ("bad boundaries", lambda: make_code(2, "primal", "opened")),
        ("bad complex", lambda: make_code(2, "both", "open")),
        ("bad backend", lambda: make_code(2, "primal", "open", backend="scipy")),
    ):
        with rep.case(["refused", what]):
            try:
                f()
            except (ValueError, TypeError):
                continue
            need(False, f"{what} accepted")


def check_code(ref, code, pol):
    same_lattice(ref.box, code.graph, pol)
    ec = ref.ec
    G = code.graph
    stabs = getattr(code, ec + "_stabilizers")
    cells = [tuple(s.coords()) for s in stabs]
    for c in cells:
        need(len(c) == len(set(c)), f"check {c} repeats a qubit")
    want = sorted(tuple(sorted(c)) for c in ref.checks.values())
    got = sorted(tuple(sorted(c)) for c in cells)
    need(got == want, lambda: f"checks: missing {[c for c in want if c not in got][:2]}, extra {[c for c in got if c not in want][:2]}, {len(got)} of {len(want)}")
    # each check is a stabilizer of the cluster state, on the real bonds
    for c in cells:
        deg = {}
        for q in c:
            for v in G[q]:
                deg[v] = deg.get(v, 0) + 1
        odd = [v for v, k in deg.items() if k % 2]
        need(not odd, lambda: f"check {sorted(c)} meets site {odd[0]} in an odd number of bonds")
    coords = list(getattr(code, ec + "_syndrome_coords"))
    need(sorted(coords) == ref.qubits, lambda: f"syndrome qubits differ: {sorted(set(coords) ^ set(ref.qubits))[:4]} ({len(coords)} listed)")
    need(sorted(code.all_syndrome_coords) == ref.qubits, "all_syndrome_coords")
    # indices: sorted coordinates, contiguous
    order = sorted(G.nodes)
    need(G.to_points == dict(enumerate(order)) and G.to_indices == {p: i for i, p in enumerate(order)}, "index of the lattice is not the sorted order")
    inds = {i for i, p in enumerate(order) if p in ref.index}
    for a in (ec + "_syndrome_inds", "all_syndrome_inds"):
        need(set(getattr(code, a)) == inds, lambda: f"{a} differ by {sorted(set(getattr(code, a)) ^ inds)[:4]}")
    bound = list(getattr(code, ec + "_bound_points"))
    need(sorted(bound) == sorted(ref.low + ref.high), lambda: f"boundary points differ: {sorted(set(bound) ^ set(ref.low + ref.high))[:4]} ({len(bound)} listed)")
    count = {q: 0 for q in ref.qubits}
    for c in cells:
        for q in c:
            count[q] += 1
    for q, k in count.items():
        need(k in (1, 2), f"qubit {q} is in {k} checks")
        if ref.boundaries in ("open",):
            need((k == 1) == (q in set(bound)), f"qubit {q} is in {k} checks, boundary point: {q in set(bound)}")
        else:
            need(k == 2, f"qubit {q} is in {k} checks")
    return stabs


def codes(rep, dims, pols):
    P = polarities()
    k = 0
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            ref = ref_of(dims, ec, b)
            for name in pols:
                k += 1
                sg = ("rustworkx", "networkx")[k % 2]
                with rep.case([dims, ec, b, sg, name]):
                    code = make_code(dims, ec, b, sg, polarity=P[name])
                    stabs = check_code(ref, code, P[name])
                    rep.seen((len(ref.checks), len(ref.qubits), len(ref.low)))
            # parities follow the bits: each single flip turns exactly its checks odd
            cells = [frozenset(s.coords()) for s in stabs]
            sgr = getattr(code, ec + "_stab_graph")
            set_bits(code, [])
            for q in ref.qubits:
                with rep.case([dims, ec, b, sg, "flip", q]):
                    code.graph.nodes[q]["bit_val"] = 1
                    odd = [c for c, s in zip(cells, stabs) if s.parity == 1]
                    need(sorted(map(sorted, odd)) == sorted(sorted(c) for c in cells if q in c), lambda: f"odd checks {odd}")
                    odd2 = {frozenset(s.coords()) for s in sgr.odd_parity_stabilizers()}
                    need(odd2 == set(odd), lambda: f"odd checks of the decoding graph {odd2}")
                    code.graph.nodes[q]["bit_val"] = 0
    rep.sample(["SurfaceCode", dims, ec, b])


def jobs(tier):
    deep = tier == "thorough"
    J = [("forms", {})]
    for dims in it.product(range(2, 7 if deep else 6), repeat=3):
        J.append(("lattices", dict(dims=list(dims), pols=["none", "w", "alternating", "x"] if sum(dims) < 9 or deep else ["w"])))
    for dims in it.product(range(2, 6), repeat=3):
        J.append(("codes", dict(dims=list(dims), pols=["none", "alternating", "w"] if deep or sum(dims) < 9 else ["w"])))
    for dims in ((7, 2, 3), (2, 7, 2), (3, 2, 6), (5, 5, 2), (6, 3, 2), (2, 5, 6), (2, 2, 17), (2, 12, 2), (18, 2, 2), (8, 2, 8), (2, 9, 9), (10, 10, 2), (7, 7, 7) if deep else (6, 6, 6)):
        J.append(("lattices", dict(dims=list(dims), pols=["w"])))
        J.append(("codes", dict(dims=list(dims), pols=["none"])))
    J.sort(key=lambda j: -np.prod(j[1].get("dims", (99,) * 3)))
    return J
