"""C26: equivalent requests give the same result, invalid ones are refused."""
import contextlib, io, itertools as it

from mc.core import need
from mc.lib import *
from mc.c24 import plain

PROPERTY = "C26"
BOUNDS = {
    "quick": "every form (integer, numpy integer, tuple, list, array; positional, keyword, omitted default) of the dimensions, complexes, boundaries, polarity and backend of codes to 3x3x3, "
    "and of lattices with each of the 27 boundary triples and 8 names; every form of swap-out lists, options, translators and networks of the noise layers; every list of up to 3 (of 5) modes to measure in every form, in both orders and quadratures; every flip pattern of weight <= 2 "
    "(and all heralded subsets of weight <= 2) on six codes corrected by every form of the decoder's arguments, by its separate steps, and by the simulation's trial; method and function forms of graph operations "
    "on all graphs on 3 and a family on 4-6 vertices; every invalid value of the tables, alone and in every pair with a valid or invalid value of another argument",
    "thorough": "as quick with codes to 4x4x4 and all flip patterns of weight <= 3",
}
ASSUMPTIONS = ["invalid means: outside what the docstrings list; any exception counts as a refusal", "random draws come from generators with equal seeds"]


def node(p):
    """A point with Python integers (equal to the same point with numpy's)."""
    return tuple(x.item() if isinstance(x, np.generic) else x for x in p) if isinstance(p, tuple) else p


def graph_data(G):
    return [
        sorted((str(node(n)), plain(d)) for n, d in G.nodes.data()),
        sorted((sorted((str(node(a)), str(node(b)))), plain(d)) for a, b, d in G.edges.data()),
    ]


def stab_data(code):
    ec = code.ec[0]
    g = getattr(code, ec + "_stab_graph")
    name = lambda v: v if isinstance(v, str) else node(v) if isinstance(v, tuple) else tuple(sorted(map(node, v.coords())))
    return sorted([sorted(str(name(v)) for v in e[:2]), str(node(g.edge_data(*e[:2])["common_vertex"])), plain(g.edge_data(*e[:2]).get("weight"))] for e in g.edges())


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def refused(f, *a, **k):
    try:
        quiet(f, *a, **k)
    except Exception:
        return True
    return False


def code_data(code):
    ec = code.ec[0]
    return {
        "dims": [int(d) for d in code.dims], "ec": list(code.ec), "boundaries": [str(b) for b in code.boundaries], "graph": graph_data(code.graph),
        "indices": sorted((p, int(i)) for p, i in code.graph.to_indices.items()),
        "points": sorted((int(i), p) for i, p in code.graph.to_points.items()),
        "stabilizers": sorted(sorted(map(node, s.coords())) for s in getattr(code, ec + "_stabilizers")),
        "syndrome": sorted(getattr(code, ec + "_syndrome_coords")), "inds": sorted(map(int, getattr(code, ec + "_syndrome_inds"))),
        "bound": sorted(getattr(code, ec + "_bound_points")), "decoding": stab_data(code),
        "kind": type(getattr(code, ec + "_stab_graph")).__name__,
    }


def same(a, b, what):
    if a != b:
        keys = [k for k in a if a[k] != b.get(k)] if isinstance(a, dict) else ""
        need(False, f"{what} differs {keys}")


def dims_forms(d):
    d = tuple(d)
    f = {"tuple": d, "list": list(d), "array": np.array(d), "int32 array": np.array(d, dtype=np.int32), "tuple of numpy ints": tuple(np.int64(x) for x in d)}
    if len(set(d)) == 1:
        f.update({"int": d[0], "int64": np.int64(d[0]), "int32": np.int32(d[0]), "uint8": np.uint8(d[0])})
    return f


def unit(edge):
    return 1


# ---------------------------------------------------------------- codes and lattices
def codes(rep, dims, ec, b, sg):
    from flamingpy.codes import SurfaceCode
    import flamingpy.codes.surface_code as sc

    ref = code_data(SurfaceCode(tuple(dims), ec, b, None, sg))
    for name, d in dims_forms(dims).items():
        before = copy_of(d)
        opt = {"ec": ec, "boundaries": b, "backend": sg}
        default = {"ec": "primal", "boundaries": "open", "backend": "rustworkx"}
        droppable = [k for k in opt if opt[k] == default[k]]
        for drop in subsets(droppable, 0, 3):
            with rep.case([dims, ec, b, sg, {"dims as": name, "omitted": list(drop)}]):
                kw = {k: v for k, v in opt.items() if k not in drop}
                same(ref, code_data(SurfaceCode(d, **kw)), "the code")
                same(ref, code_data(SurfaceCode(distance=d, polarity=None, **kw)), "the code with polarity None")
        with rep.case([dims, ec, b, sg, {"dims as": name, "arguments": "positional"}], states=2):
            c = SurfaceCode(d, ec, b, None, sg)
            same(ref, code_data(c), "the code")
            same(ref, code_data(SurfaceCode(d, ec, b, unit, sg)), "the code of weight-one bonds")
            need(same_value(d, before), "the dimensions given were modified")
            need(same_value(c.distance, before), "the distance attribute is not the value given")
            need(type(c.dims) is tuple, "the dims attribute is not a tuple")
            if isinstance(d, (list, np.ndarray)):
                for i in range(3):
                    d[i] += 5
                same(ref, code_data(c), "after the caller changed his list, the code")
                for i in range(3):
                    d[i] -= 5
        rep.seen((name, ec, b, sg))
    with rep.case([dims, ec, b, "module paths"]):
        same(ref, code_data(sc.SurfaceCode(tuple(dims), ec=ec, boundaries=b, backend=sg)), "the code")


def copy_of(d):
    return d.copy() if isinstance(d, np.ndarray) else list(d) if isinstance(d, list) else d


def same_value(a, b):
    return type(a) is type(b) and bool(np.all(np.asarray(a) == np.asarray(b)))


NAMES = {
    "open_primal": ("primal", "dual", "primal"), "open_dual": ("primal", "dual", "dual"), "primal": ("primal",) * 3, "dual": ("dual",) * 3, "periodic": ("periodic",) * 3,
    "periodic_primal": ("periodic", "periodic", "primal"), "periodic_dual": ("periodic", "periodic", "dual"),
}


def lattices(rep, dims):
    from flamingpy.codes import RHG_graph

    def data(G):
        g = graph_data(G)
        return {"nodes": g[0], "edges": g[1], "cubes": sorted([node(p) for p in c] for c in G.graph["primal_cubes"])}

    for kinds in it.product(("primal", "dual", "periodic"), repeat=3):
        with rep.case([dims, kinds, "reference"]):
            ref = data(RHG_graph(tuple(dims), list(kinds)))
        forms = {"list": list(kinds), "tuple": kinds, "array": np.array(kinds), "object array": np.array(kinds, dtype=object)}
        forms.update({f"name {n}": n for n, k in NAMES.items() if k == kinds})
        for name, bd in forms.items():
            for dn, d in dims_forms(dims).items():
                if dn in ("int64", "int32", "uint8"):
                    continue
                with rep.case([dims, kinds, {"boundaries as": name, "dims as": dn}], states=2):
                    b0, d0 = copy_of(bd), copy_of(d)
                    same(ref, data(RHG_graph(d, bd)), "the lattice")
                    same(ref, data(RHG_graph(dims=d, boundaries=bd, polarity=unit)), "the lattice")
                    need(same_value(d, d0) and same_value(bd, b0), "the arguments were modified")
            rep.seen((kinds, name))
        if kinds == ("primal",) * 3:
            with rep.case([dims, "default boundaries"]):
                same(ref, data(RHG_graph(tuple(dims))), "the lattice")


# ---------------------------------------------------------------- noise layers
def outcome(code):
    return plain([(p, {k: v for k, v in sorted(d.items())}) for p, d in sorted(code.graph.nodes(data=True))])


def layer_data(code, make, seeds=(1, 2)):
    res = []
    L = make(code)
    for s in seeds:
        L.apply_noise(np.random.default_rng(s))
        res.append(outcome(code))
    return {"outcomes": res, "states": plain({k: sorted(map(int, v)) for k, v in L.states.items()})}


def layers(rep, dims, ec, b):
    from flamingpy.cv.gkp import GKP_binner
    from flamingpy.cv.ops import splitter_symp
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    def run(title, groups):
        for gname, makes in groups.items():
            ref = None
            for name, mk in makes.items():
                with rep.case([dims, ec, b, title, gname, name]):
                    r = layer_data(make_code(dims, ec, b), mk)
                    if ref is None:
                        ref = r
                    same(ref, r, f"the outcome of {name}")
                rep.seen((title, gname, name))

    opts = {"nothing": {}, "order": {"sampling_order": "initial"}, "translator": {"translator": GKP_binner}, "no translator": {"translator": None},
            "no order": {"sampling_order": None}, "both": {"sampling_order": "initial", "translator": GKP_binner}}
    groups = {}
    for inds in ([], [0], [1, 4, 6], [6, 1, 4], [18, 17, 3, 0]):
        forms = {"list": list(inds), "tuple": tuple(inds), "array": np.array(inds, dtype=int), "int32": np.array(inds, dtype=np.int32), "numpy ints": [np.int64(i) for i in inds]}
        forms = {k: (lambda v=v: copy_of(v)) for k, v in forms.items()}
        g = {}
        for fn, f in forms.items():
            for on, o in opts.items():
                g[f"{fn}, {on}"] = lambda c, f=f, o=o: CVLayer(c, delta=0.2, states={"p": f()}, **o)
            g[f"{fn}, p_swap None"] = lambda c, f=f: CVLayer(c, delta=0.2, states={"p": f()}, p_swap=None)
        if not inds:
            for on, o in opts.items():
                g[f"omitted, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, **o)
                g[f"none, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, states=None, **o)
                g[f"empty, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, states={}, **o)
                g[f"p_swap 0 and empty, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, p_swap=0, states={}, **o)
                g[f"p_swap 0, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, p_swap=0, **o)
                g[f"p_swap 0.0 and empty list, {on}"] = lambda c, o=o: CVLayer(c, delta=0.2, p_swap=0.0, states={"p": []}, **o)
        groups[f"swapped-out {inds}"] = g
    for p in (0.3, 1):
        g = {}
        for on, o in opts.items():
            g[f"p_swap, {on}"] = lambda c, o=o, p=p: CVLayer(c, delta=0.2, p_swap=p, **o)
            g[f"p_swap and no states, {on}"] = lambda c, o=o, p=p: CVLayer(c, delta=0.2, p_swap=p, states=None, **o)
            g[f"p_swap and empty, {on}"] = lambda c, o=o, p=p: CVLayer(c, delta=0.2, p_swap=p, states={}, **o)
            g[f"p_swap and empty list, {on}"] = lambda c, o=o, p=p: CVLayer(c, delta=0.2, p_swap=p, states={"p": []}, **o)
            g[f"numpy p_swap, {on}"] = lambda c, o=o, p=p: CVLayer(c, delta=np.float64(0.2), p_swap=np.float64(p), **o)
        groups[f"p_swap {p}"] = g
    run("CVLayer", groups)
    groups = {"two-step": {"list": lambda c: CVLayer(c, delta=0.2, states={"p": [1, 4]}, sampling_order="two-step"),
                           "array": lambda c: CVLayer(c, delta=0.2, states={"p": np.array([1, 4])}, sampling_order="two-step", translator=GKP_binner)}}
    run("CVLayer two-step", groups)

    def steps(c):
        class S:
            def __init__(self):
                self.L = CVLayer(c, delta=0.2, p_swap=0.3)
                self.states = {}

            def apply_noise(self, rng):
                self.L.populate_states(rng)
                self.L.measure_syndrome(rng)
                self.L.inner_decoder()
                self.states = self.L.states

        return S()

    def keyword(c):
        L = CVLayer(code=c, delta=0.2, p_swap=0.3)
        f = L.apply_noise
        L.apply_noise = lambda r: f(rng=r)
        return L

    run("CVLayer steps", {"p_swap": {"apply_noise": lambda c: CVLayer(c, delta=0.2, p_swap=0.3), "separate steps": steps, "keyword generator": keyword}})
    groups = {}
    for p in (0, 0.4, 1):
        groups[f"p_swap {p}"] = {
            "default network": lambda c, p=p: CVMacroLayer(c, delta=0.1, p_swap=p), "network None": lambda c, p=p: CVMacroLayer(c, delta=0.1, p_swap=p, bs_network=None),
            "the same network": lambda c, p=p: CVMacroLayer(c, delta=0.1, p_swap=p, bs_network=splitter_symp()),
            "the network of four": lambda c, p=p: CVMacroLayer(c, delta=0.1, p_swap=p, bs_network=splitter_symp(n=4)),
            "numpy numbers": lambda c, p=p: CVMacroLayer(c, delta=np.float64(0.1), p_swap=np.float64(p)),
        }
    groups["p_swap 0"]["omitted"] = lambda c: CVMacroLayer(c, delta=0.1)
    run("CVMacroLayer", groups)

    def iid(c, *a, **k):
        L = IidNoise(c, *a, **k)
        L.states = {}
        return L

    for p in (0, 0.25, 0.5, 1):
        run("IidNoise", {str(p): {"positional": lambda c: iid(c, p), "keyword": lambda c: iid(c, error_probability=p), "float": lambda c: iid(c, float(p)), "numpy": lambda c: iid(c, np.float64(p)), "float32": lambda c: iid(c, np.float32(p))}})


# ---------------------------------------------------------------- corrections
def corrections(rep, dims, ec, b, sg, kmax, part, parts):
    from flamingpy.decoders import decoder as D
    from flamingpy.decoders import decoder
    from flamingpy.decoders.decoder import assign_weights, check_correction, correct, recovery
    from flamingpy.decoders.mwpm.algos import mwpm_decoder
    from flamingpy.decoders.unionfind.algos import uf_decoder

    code = make_code(dims, ec, b, sg)
    qubits = sorted(getattr(code, ec + "_syndrome_coords"))
    others = sorted(set(code.graph.nodes) - set(qubits))
    uni = {"method": "uniform"}
    full = {"method": "uniform", "integer": False, "multiplier": 1}

    def steps(dec, wo=uni):
        def f():
            assign_weights(code, dec, **wo)
            flips = {"MWPM": mwpm_decoder, "UF": uf_decoder}[dec](code, ec)
            recovery(flips, code, ec)
            return np.all(check_correction(code))

        return f

    def steps_all(dec):
        def f():
            assign_weights(code, dec)
            flips = {"MWPM": mwpm_decoder, "UF": uf_decoder}[dec](code, ec)
            recovery(flips, code, ec, sanity_check=True)
            return np.all(check_correction(code, sanity_check=True)[0])

        return f

    def trial(dec, wo):
        class Noise:
            def __init__(self):
                pass

            def apply_noise(self, rng):
                pass

        from flamingpy.simulations import ec_mc_trial

        return lambda: ec_mc_trial(code, Noise(), dec, wo, np.random.default_rng(0))

    forms = {
        "MWPM": {
            "nothing": lambda: correct(code), "decoder": lambda: correct(code, "MWPM"), "keyword": lambda: correct(code=code, decoder="MWPM"),
            "weights None": lambda: correct(code, "MWPM", None), "weights {}": lambda: correct(code, "MWPM", {}), "uniform": lambda: correct(code, "MWPM", uni),
            "all weight options": lambda: correct(code, "MWPM", full), "keyword weights": lambda: correct(code, weight_options=uni),
            "options None": lambda: correct(code, "MWPM", decoder_opts=None), "options {}": lambda: correct(code, "MWPM", uni, decoder_opts={}),
            "backend": lambda: correct(code, "MWPM", uni, decoder_opts={"backend": "rustworkx"}), "no drawing": lambda: correct(code, "MWPM", draw=False, drawing_opts=None),
            "drawing options": lambda: correct(code, "MWPM", drawing_opts={"show_nodes": True}), "options no drawing": lambda: correct(code, "MWPM", decoder_opts={"draw": False, "drawing_opts": None}),
            "sanity check": lambda: correct(code, "MWPM", uni, True), "no sanity check": lambda: correct(code, "MWPM", None, False),
            "steps": steps("MWPM"), "steps, all options": steps("MWPM", full), "steps with sanity checks": steps_all("MWPM"), "trial": trial("MWPM", None), "trial uniform": trial("MWPM", uni),
        },
        "UF": {
            "decoder": lambda: correct(code, "UF"), "keyword": lambda: correct(decoder="UF", code=code), "weights None": lambda: correct(code, "UF", None), "weights {}": lambda: correct(code, "UF", {}),
            "uniform": lambda: correct(code, "UF", uni), "all weight options": lambda: correct(code, "UF", full), "options None": lambda: correct(code, "UF", decoder_opts=None),
            "options {}": lambda: correct(code, "UF", uni, decoder_opts={}), "backend": lambda: correct(code, "UF", uni, decoder_opts={"backend": "networkx"}), "no drawing": lambda: correct(code, "UF", draw=False),
            "sanity check": lambda: correct(code, "UF", sanity_check=True), "steps": steps("UF"), "steps, all options": steps("UF", full), "steps with sanity checks": steps_all("UF"), "trial": trial("UF", {}), "trial uniform": trial("UF", uni),
        },
    }
    k = -1
    for heralds in [None, []] + [list(h) for h in subsets(others[:: max(1, len(others) // 6)], 1, 2)]:
        for flips in subsets(qubits, 0, kmax if heralds is None else 1):
            k += 1
            if k % parts != part:
                continue
            clear_states(code)
            if heralds is not None:
                set_states(code, heralds)
            for dec, fs in forms.items():
                with rep.case([dims, ec, b, sg, dec, {"flips": list(flips), "swapped out": heralds}], states=len(fs), transitions=len(fs)):
                    ref = None
                    for name, f in fs.items():
                        set_bits(code, flips)
                        v = quiet(f)
                        need(isinstance(v, (bool, np.bool_)), f"{name}: verdict {v!r}")
                        r = bool(v), get_bits(code), stab_data(code) if k % 7 == 0 else None
                        if ref is None:
                            ref = r
                        need(r == ref, lambda: f"{name}: verdict {r[0]} and flips {sorted(r[1])[:6]}, first form: {ref[0]} and {sorted(ref[1])[:6]}")
                    rep.seen((dec, ref[0], len(ref[1])))
                    need(uni == {"method": "uniform"} and full == {"method": "uniform", "integer": False, "multiplier": 1}, "the options given were modified")


# ---------------------------------------------------------------- graph operations
def graphs(n):
    """All labelled graphs on n vertices (3), or a family."""
    pairs = list(it.combinations(range(n), 2))
    if n <= 3:
        masks = range(1 << len(pairs))
    else:
        masks = sorted({(m * 37 + 11) % (1 << len(pairs)) for m in range(40)})
    for m in masks:
        yield [e for i, e in enumerate(pairs) if m >> i & 1]


def build(n, edges, pts=None):
    from flamingpy.codes.graphs import EGraph

    pts = pts or [(3 * i, i * i % 5, (7 * i) % 4) for i in range(n)]
    G = EGraph()
    for p in pts:
        G.add_node(p)
    for a, b in edges:
        G.add_edge(pts[a], pts[b], weight=1)
    return G


def egraphs(rep, n):
    from flamingpy.codes.graphs.egraph import EGraph, macronize
    from flamingpy.cv.ops import SCZ_mat, SCZ_apply
    from flamingpy.noise import CVLayer
    from flamingpy.utils.linalg import are_lc_equivalent
    import scipy.sparse as sp

    for edges in graphs(n):
        with rep.case([n, edges, "constructors and matrices"], states=8):
            G = build(n, edges)
            H = EGraph(G)
            need(graph_data(H) == graph_data(G), "EGraph(G) differs from G")
            A = np.asarray(G.adj_generator(sparse=False))
            for X in (H, build(n, edges)):
                S = X.adj_generator()
                need(sp.issparse(S) and (S.toarray() == A).all(), "sparse and dense matrices differ")
                S = X.adj_generator(True)
                need((S.toarray() == A).all(), "sparse and dense matrices differ")
            want = np.array(SCZ_mat(sp.csr_array(A), sparse=False))
            for M in (SCZ_mat(A), SCZ_mat(sp.csr_array(A)), SCZ_mat(A, sparse=True), SCZ_mat(sp.coo_array(A)), SCZ_mat(A, sparse=False)):
                need((np.asarray(M.toarray() if sp.issparse(M) else M) == want).all(), "forms of the CZ matrix differ")
            L = CVLayer(build(n, edges), delta=0.1)
            for M in (L.SCZ(), L.SCZ(sparse=True), L.SCZ(sparse=False)):
                need((np.asarray(M.toarray() if sp.issparse(M) else M) == want).all(), "the layer's CZ matrix differs")
            q = np.arange(2 * n) * 0.5 - 1
            for X in (A, sp.csr_array(A)):
                for one in (True, False):
                    need(np.allclose(SCZ_apply(X, q.copy(), one_shot=one), want @ q), "forms of the CZ application differ")
                need(np.allclose(SCZ_apply(X, q.copy()), want @ q), "forms of the CZ application differ")
        connected = [e for e in edges]
        deg = {v for e in connected for v in e}
        if len(deg) == n:
            with rep.case([n, edges, "macronodes"], states=6):
                for pad in (False, True):
                    for disp in (0.1, 0.05):
                        ref = graph_data(build(n, edges).macronize(pad_boundary=pad, disp=disp))[:2]
                        forms = [EGraph(macronize(build(n, edges), pad, disp), macronodes=True), EGraph(macronize(build(n, edges), pad_boundary=pad, disp=disp), macronodes=True), build(n, edges).macronize(pad, disp)]
                        if disp == 0.1:
                            forms += [build(n, edges).macronize(pad), build(n, edges).macronize(pad_boundary=pad)]
                            if not pad:
                                forms += [build(n, edges).macronize()]
                        for X in forms:
                            need(graph_data(X)[:2] == ref, "forms of macronize differ")
        for f2 in (edges, list(it.combinations(range(n), 2)), [(0, i) for i in range(1, n)]):
            if n > 4 and not edges:
                continue
            with rep.case([n, edges, f2, "local-Clifford forms"], states=6):
                a, b = (lambda: build(n, edges)), (lambda: build(n, f2))
                for form in ("tensor", "global"):
                    ref = plain(list(a().is_lc_equivalent(b(), form)))
                    for r in (a().is_lc_equivalent(b(), clifford_form=form), are_lc_equivalent(a(), b(), form), are_lc_equivalent(a(), b(), clifford_form=form), are_lc_equivalent(graph1=a(), graph2=b(), clifford_form=form)):
                        need(plain(list(r)) == ref, "forms of the local-Clifford query differ")
                    if form == "tensor":
                        for r in (a().is_lc_equivalent(b()), are_lc_equivalent(a(), b())):
                            need(plain(list(r)) == ref, "the default of the local-Clifford query is not 'tensor'")
                rep.seen((n, bool(ref[0])))


def menu(rep, nmax):
    from flamingpy.utils import graph_states as gs

    for f in (gs.star_graph, gs.complete_graph, gs.linear_cluster, gs.ring_graph):
        for n in range(1, nmax + 1):
            with rep.case([f.__name__, n], states=3):
                ref = graph_data(f(n))
                need(graph_data(f(n)) == ref, "the same size gives another graph")
                need(graph_data(f(n=n)) == ref, "size given by keyword gives another graph")
        for bad in (0, -1, -5, 2.5, 3.0, "3", None, [3], (3,), np.float64(3), np.array([3, 4])):
            with rep.case([f.__name__, repr(bad)]):
                need(refused(f, bad), f"size {bad!r} accepted")


# ---------------------------------------------------------------- refusals
GOOD = {"distance": [2, (2, 2, 3)], "ec": ["primal", "dual"], "boundaries": ["open", "toric", "periodic"], "backend": ["rustworkx", "networkx"]}
BAD = {
    "distance": [2.5, "2", "222", None, (2, 2), [2, 2], (2, 2, 2, 2), [[2, 2], [2, 2]], (), {}, (2, 2, 2.5), ("2", "2", "2")],
    "ec": ["both", "Primal", "", None, 1, "dual ", "primal_dual", ("primal",), "open"],
    "boundaries": ["opn", "Open", "", None, 3, "open_primal", "open_dual", "primal", "dual", "periodic_primal", ("open",) * 3, ["open", "open"], "planar", "open "],
    "backend": ["nx", None, "", "Rustworkx", "retworkx", "lemon", 1, "rx"],
}


def invalid_codes(rep):
    from flamingpy.codes import RHG_graph, SurfaceCode

    keys = list(GOOD)
    for key in keys:
        for bad in BAD[key]:
            rest = [k for k in keys if k != key]
            for vals in it.product(*[GOOD[k] for k in rest]):
                with rep.case([{key: repr(bad)}, vals]):
                    need(refused(SurfaceCode, **{key: bad}, **dict(zip(rest, vals))), f"{key} = {bad!r} accepted")
            for k2 in rest:
                for b2 in BAD[k2]:
                    with rep.case([{key: repr(bad), k2: repr(b2)}]):
                        need(refused(SurfaceCode, **{"distance": 2, key: bad, k2: b2}), f"{key} = {bad!r} accepted")
            rep.seen((key, repr(bad)))
    for d in BAD["distance"]:
        for kinds in (["primal"] * 3, "dual", "periodic_dual"):
            with rep.case(["RHG_graph", repr(d), kinds]):
                need(refused(RHG_graph, d, kinds), f"dimensions {d!r} accepted")
    for bd in ("opn", "open", "toric", "", "Primal", None, 3, ["primal"] * 2, ["primal"] * 4, ["primal", "x", "dual"], ("Primal", "dual", "dual"), ["open"] * 3, [], "primal_dual"):
        for d in (2, (2, 3, 2)):
            with rep.case(["RHG_graph", d, repr(bd)]):
                need(refused(RHG_graph, d, bd), f"boundaries {bd!r} accepted")
    # a refusal leaves later constructions alone
    for ec in GOOD["ec"]:
        for b in GOOD["boundaries"]:
            with rep.case(["after refusals", ec, b]):
                same(code_data(make_code((2, 2, 2), ec, b)), code_data(SurfaceCode(2, ec, b)), "the code")
                need(set(SurfaceCode(2, ec, b).graph.nodes) == ref_of((2, 2, 2), ec, b).sites, "the code's qubits are not those of the lattice")


def invalid_calls(rep, dims, ec, b):
    from flamingpy.cv.ops import splitter_symp
    from flamingpy.decoders.decoder import correct
    from flamingpy.noise import CVLayer, CVMacroLayer

    code = make_code(dims, ec, b)
    N = len(code.graph)
    qubits = sorted(getattr(code, ec + "_syndrome_coords"))
    structure = lambda: [sorted(code.graph.nodes), sorted(map(sorted, code.graph.edges)), code_data(code)["stabilizers"], sorted(code.graph.to_indices.items())]
    s0 = structure()
    for cls in (CVLayer, CVMacroLayer):
        for p in (0, 0.3, 1):
            for inds in ([0], [1, 2], list(range(N)), np.array([3])):
                with rep.case([dims, ec, b, cls.__name__, {"p_swap": p, "states": repr(inds)}]):
                    need(refused(cls, code, delta=0.1, p_swap=p, states={"p": inds}), "both a swap-out probability and swapped-out qubits accepted")
    for p in (-1, -0.1, -1e-9, 1 + 1e-9, 1.1, 2, math.inf, -math.inf, math.nan):
        for order in ("initial", "two-step"):
            with rep.case([dims, ec, b, {"p_swap": p, "order": order}]):
                set_bits(code, qubits[:2])
                bits = get_bits(code)
                need(refused(lambda: CVLayer(code, delta=0.1, p_swap=p, sampling_order=order).apply_noise(np.random.default_rng(0))), f"swap-out probability {p} accepted")
                need(get_bits(code) == bits and structure() == s0, "a refused layer changed the code")
    for inds in ([N], [-1], [0, N + 5], [10 ** 6], ["a"], [None]):
        with rep.case([dims, ec, b, {"states": repr(inds)}]):
            set_bits(code, qubits[:2])
            bits = get_bits(code)
            need(refused(lambda: CVLayer(code, delta=0.1, states={"p": inds}).apply_noise(np.random.default_rng(0))), f"swapped-out qubits {inds} accepted")
            need(get_bits(code) == bits and structure() == s0, "a refused layer changed the code")
    clear_states(code)
    calls = {
        "decoder": [dict(decoder=d) for d in ("foo", "mwpm", "uf", "", None, "UnionFind", 1, "MWPM ")],
        "decoder and weights": [dict(decoder="UF", weight_options={"method": "blueprint", "delta": 0.1}), dict(decoder="UF", weight_options={"method": "blueprint", "prob_precomputed": True}), dict(decoder="UF", weight_options={"method": "blueprint", "integer": True, "multiplier": 2})],
        "backend": [dict(decoder="MWPM", decoder_opts={"backend": x}) for x in ("foo", "", None, 3, "Lemon", "nx")],
        "option": [dict(decoder=d, decoder_opts={"foo": 1}) for d in ("MWPM",)],
    }
    for kind, kws in calls.items():
        for kw in kws:
            for flips in subsets(qubits[:: max(1, len(qubits) // 5)], 1, 2):
                with rep.case([dims, ec, b, kind, repr(kw), list(flips)]):
                    set_bits(code, flips)
                    bits = get_bits(code)
                    if kind in ("backend", "option") and not syndrome(code, ec):
                        continue
                    need(refused(correct, code, **kw), f"{kw} accepted")
                    need(get_bits(code) == bits, "a refused correction flipped qubits")
                    need(structure() == s0, "a refused correction changed the lattice")
            # the next correction is as on a fresh code
            with rep.case([dims, ec, b, kind, repr(kw), "then a valid one"], states=4):
                for dec in ("MWPM", "UF"):
                    set_bits(code, qubits[1:3])
                    v = bool(correct(code, dec))
                    fresh = make_code(dims, ec, b)
                    set_bits(fresh, qubits[1:3])
                    need((bool(correct(fresh, dec)), get_bits(fresh)) == (v, get_bits(code)), "a correction after a refused one differs from a fresh code's")
    for x in ("foo", None, "Matplotlib", "", 3, "plot"):
        with rep.case([dims, ec, b, "drawing back end", repr(x)]):
            need(refused(code.draw, backend=x) and refused(code.graph.draw, backend=x), f"drawing back end {x!r} accepted")
    for n in (3, 2, 1, 0, -1, -4):
        with rep.case(["splitter", n]):
            need(refused(splitter_symp, n), f"network of {n} modes accepted")


def syndrome(code, ec):
    return [s for s in getattr(code, ec + "_stabilizers") if s.parity]


def slices(rep, dims, ec, b):
    """Slices hold exactly the qubits with the coordinate."""
    code = make_code(dims, ec, b)
    for ax, plane in enumerate("xyz"):
        seen = []
        for k in range(-2, 2 * max(dims) + 4):
            with rep.case([dims, ec, b, plane, k]):
                got = list(code.graph.slice_coords(plane, k))
                need(sorted(got) == sorted(p for p in code.graph.nodes if p[ax] == k), "wrong slice")
                need(sorted(code.graph.slice_coords(plane=plane, number=np.int64(k))) == sorted(got), "wrong slice for a numpy index")
                seen += got
        with rep.case([dims, ec, b, plane, "all slices"]):
            need(sorted(seen) == sorted(code.graph.nodes), "slices do not partition the lattice")
    for pad in (False, True):
        macro = code.graph.macronize(pad_boundary=pad)
        for ax, plane in enumerate("xyz"):
            values = {p[ax] for p in macro.nodes}
            for k in sorted(values | {v + d for v in values for d in (0.02, -0.5)} | set(range(2 * max(dims) + 1))):
                with rep.case([dims, ec, b, plane, "macronode lattice", pad, float(k)]):
                    got = sorted(macro.slice_coords(plane, k))
                    need(got == sorted(p for p in macro.nodes if p[ax] == k), "wrong slice of the macronode lattice")
    for bad in ("w", "X", "", None, 0, 1, "xy"):
        with rep.case([dims, ec, b, repr(bad)]):
            need(refused(code.graph.slice_coords, bad, 0), f"plane {bad!r} accepted")


def measurements(rep, graph):
    """Lists of modes to measure and to read in every form."""
    from flamingpy.noise import CVLayer
    from flamingpy.utils import graph_states as gs

    def make(order):
        G = make_code((2, 2, 2), "primal", "open").graph if graph == "code" else getattr(gs, graph)(5)
        L = CVLayer(G, delta=0.3, states={"p": [1]}, sampling_order=order)
        L.populate_states(np.random.default_rng(0))
        return L

    N = len(make("initial").egraph)
    lists = [c for k in range(4) for c in it.permutations(range(min(N, 5)), k)] + [tuple(range(N)), tuple(range(N - 1, -1, -1)), tuple(range(0, N, 2))]
    for order in ("initial", "two-step"):
        for quad in ("q", "p"):
            for inds in lists:
                forms = {"list": list(inds), "tuple": inds, "array": np.array(inds, dtype=int), "int32": np.array(inds, dtype=np.int32), "numpy ints": [np.int64(i) for i in inds]}
                step = inds[1] - inds[0] if len(inds) > 1 else 1
                r = range(inds[0], inds[-1] + (1 if step > 0 else -1), step) if inds else range(0)
                if tuple(r) == inds:
                    forms["range"] = r
                if inds == tuple(range(N)):
                    forms["None"] = None
                ref = None
                with rep.case([graph, order, quad, inds], states=len(forms)):
                    for name, f in forms.items():
                        L = make(order)
                        L.measure_hom(quad, f, rng=np.random.default_rng(5))
                        got = plain([[d.get("hom_val_" + x) for _, d in sorted(L.egraph.nodes(data=True))] for x in "qp"])
                        got = [got, plain(L.hom_outcomes(f, quad)), plain(L.bit_values(f))]
                        if ref is None:
                            ref = got
                            measured = [v for v in got[0]["qp".index(quad)] if v is not None]
                            need(len(measured) == len(inds) and got[0]["pq".index(quad)] == [None] * N, "other modes than those asked for were measured")
                        same(ref, got, f"measurement of modes given as {name}")
    rep.seen((graph, len(lists)))


def jobs(tier):
    deep = tier == "thorough"
    J = [("invalid_codes", {}), ("menu", dict(nmax=14))]
    D = [(2, 2, 2), (2, 3, 2), (3, 2, 4), (3, 3, 3)] + ([(4, 4, 4), (2, 4, 3)] if deep else [])
    for dims in D:
        J.append(("lattices", dict(dims=list(dims))))
        for ec in ("primal", "dual"):
            for b in ("open", "toric", "periodic"):
                for sg in ("rustworkx", "networkx"):
                    J.append(("codes", dict(dims=list(dims), ec=ec, b=b, sg=sg)))
                J.append(("slices", dict(dims=dims, ec=ec, b=b)))
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            J.append(("layers", dict(dims=(2, 2, 2), ec=ec, b=b)))
            J.append(("invalid_calls", dict(dims=(2, 2, 2), ec=ec, b=b)))
            for sg in ("rustworkx", "networkx"):
                parts = 3
                for part in range(parts):
                    J.append(("corrections", dict(dims=(2, 2, 2), ec=ec, b=b, sg=sg, kmax=3 if deep else 2, part=part, parts=parts)))
    for g in ("linear_cluster", "star_graph", "ring_graph", "code"):
        J.append(("measurements", dict(graph=g)))
    for n in (2, 3, 4, 5, 6):
        J.append(("egraphs", dict(n=n)))
    return J
