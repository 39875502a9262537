"""C24: objects do not influence one another."""
import copy, gc, itertools as it, multiprocessing as mp, os, sys

from mc.core import need
from mc.lib import *

PROPERTY = "C24"
BOUNDS = {
    "quick": "28 pipelines of four operations (codes of every boundary, complex, backend and polarity with independent, CV and macronode noise and every decoder; graph-state edits, "
    "macronodes, local-Clifford queries, matching graphs, constructors, symplectic and binning functions, Monte Carlo runs, drawings): every pair of them (also with itself) in all 70 interleavings (macronode noise and drawings: those with at most two switches), "
    "one after the other with the first one's objects deleted, and three at a time in every order; for 12 of the pairs, a complete run of another one inside every (file, line) of the "
    "package, at its first and last execution; arguments shared between the two",
    "thorough": "as quick, with all 34650 interleavings of 14 triples and an interruption at every executed line",
}
ASSUMPTIONS = ["objects that share no code or graph", "explicit random generators (or the simulation's own)", "drawings interleave as whole operations: Matplotlib's current figure is global"]


# ---------------------------------------------------------------- pipelines
def plain(x):
    if isinstance(x, np.ndarray):
        return [x.shape, plain(x.tolist())]
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, float):
        return round(x, 9)
    if hasattr(x, "toarray"):
        return [x.format, plain(x.toarray())]
    if isinstance(x, dict):
        return sorted(((str(k), plain(v)) for k, v in x.items()), key=lambda t: t[0])
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def graph_data(G):
    return [sorted((str(n), plain(d)) for n, d in G.nodes.data()), sorted((sorted(map(str, (a, b))), plain(d)) for a, b, d in G.edges.data()), plain({k: v for k, v in G.graph.items() if k != "macro_to_micro"})]


def stab_data(code):
    ec = code.ec[0]
    g = getattr(code, ec + "_stab_graph")
    name = lambda v: v if isinstance(v, (str, tuple)) else tuple(sorted(v.coords()))
    return sorted([sorted(map(str, map(name, e[:2]))), str(g.edge_data(*e[:2])["common_vertex"]), plain(g.edge_data(*e[:2]).get("weight"))] for e in g.edges())


def shared():
    """Arguments handed to every pipeline of a schedule; a fresh set for each schedule."""
    return {
        "uniform": {"method": "uniform"}, "none": None, "blueprint": {"method": "blueprint", "delta": 0.1, "integer": True, "multiplier": 10},
        "float": {"method": "blueprint", "delta": 0.3}, "pre": {"method": "blueprint", "prob_precomputed": True},
        "states": {"p": np.array([1, 4, 6])}, "empty": {}, "mwpm": {"backend": "networkx"}, "dims": [2, 2, 3],
    }


def code_pipe(noise, decs, dims=2, ec="primal", b="open", sg="rustworkx", seeds=(1, 2), polarity=None):
    def build(w, a):
        from flamingpy.codes import SurfaceCode

        w["code"] = SurfaceCode(a["dims"] if dims is None else dims, ec, b, polarity, sg)
        w["noise"] = noise(w["code"], a)
        return graph_data(w["code"].graph), [sorted(map(str, s.coords())) for s in getattr(w["code"], ec + "_stabilizers")], stab_data(w["code"])

    def trial(seed, d):
        def op(w, a):
            from flamingpy.decoders.decoder import correct

            dec, wo, do = d
            w["noise"].apply_noise(np.random.default_rng(seed))
            w["d"] = d
            s = graph_data(w["code"].graph)
            res = correct(w["code"], dec, a[wo], decoder_opts=a[do] if isinstance(do, str) else do)
            return s, bool(res), graph_data(w["code"].graph), stab_data(w["code"])

        return op

    def again(w, a):
        from flamingpy.decoders.decoder import assign_weights, check_correction, correct

        r = [bool(np.all(check_correction(w["code"])))]
        for i, q in enumerate(getattr(w["code"], ec + "_syndrome_coords")):
            w["code"].graph.nodes[q]["bit_val"] = int(i % 7 == 0)
        dec, wo, do = w["d"]
        r += [bool(correct(w["code"], dec, a[wo], decoder_opts=a[do] if isinstance(do, str) else do))]
        assign_weights(w["code"], "UF")
        return r, graph_data(w["code"].graph), stab_data(w["code"])

    return [build, trial(seeds[0], decs[0]), trial(seeds[1], decs[-1]), again]


def mc_pipe(noise, dec, args, **kw):
    def run(n):
        def op(w, a):
            from flamingpy.simulations import ec_monte_carlo

            return [ec_monte_carlo(n, w["code"], w["noise"], dec, {"weight_opts": a[args]}), graph_data(w["code"].graph)]

        return op

    return [code_pipe(noise, [(dec, args, None)], **kw)[0], run(3), run(0), run(2)]


def edits(macro):
    P = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (4, 0, 0)]

    def a(w, _):
        from flamingpy.codes.graphs import EGraph

        G = EGraph()
        for p, q in zip(P, P[1:]):
            G.add_edge(p, q)
        w["G"] = G.macronize(pad_boundary=True) if macro else G
        w["G"].index_generator()
        return graph_data(w["G"]), plain(w["G"].to_points), plain(w["G"].macro_to_micro if macro else None)

    def b(w, _):
        m = sorted(w["G"].nodes)[0]
        if macro:
            w["G"].add_qubit((6.1, 0.0, 0.0), [m], (6, 0, 0))
        else:
            w["G"].add_qubit((6, 0, 0), [m])
        return graph_data(w["G"]), plain(w["G"].adj_generator(sparse=True)), plain(w["G"].to_indices)

    def c(w, _):
        w["G"].remove_qubit(sorted(w["G"].nodes)[1])
        return graph_data(w["G"]), plain(w["G"].to_points), plain(w["G"].macro_to_micro if macro else None)

    def d(w, _):
        w["G"].index_generator()
        return plain(w["G"].adj_generator(sparse=False)), plain(w["G"].to_indices), plain(w["G"].adj_mat)

    return [a, b, c, d]


def lc(edges1, edges2):
    def G(es):
        from flamingpy.codes.graphs import EGraph

        g = EGraph()
        for x, y in es:
            g.add_edge((x, 0, 0), (y, 0, 0))
        return g

    def a(w, _):
        w["a"], w["b"] = G(edges1), G(edges2)

    q = lambda x, y, form: lambda w, _: [plain(w[x].is_lc_equivalent(w[y], clifford_form=form)), graph_data(w[x])]
    return [a, q("a", "b", "tensor"), q("b", "a", "global"), q("a", "a", "tensor")]


def matching(kind, weights):
    def a(w, _):
        from flamingpy.decoders.mwpm.matching import LemonMatchingGraph, NxMatchingGraph, RxMatchingGraph

        w["g"] = {"rx": RxMatchingGraph, "nx": NxMatchingGraph, "lemon": LemonMatchingGraph}[kind]("primal")
        return len(w["g"].virtual_points)

    def b(w, _):
        for (x, y), wt in zip([(0, 1), (0, 2), (1, 3)], weights):
            w["g"].add_edge(((x,), (y,)), wt, [x, y])

    def c(w, _):
        for (x, y), wt in zip([(2, 3), (0, 3), (1, 2)], weights[3:]):
            w["g"].add_edge(((x,), (y,)), wt)
        return sorted(sorted(e) for e in w["g"].min_weight_perfect_matching())

    def d(w, _):
        m = w["g"].min_weight_perfect_matching()
        res = w["g"].total_weight_of(m), sorted(plain([sorted(e), w["g"].edge_path(e)]) for e in m)
        w["g"].edge_path(((2,), (3,))).append("mine")  # what a caller does to the path of his edge
        return res

    return [a, b, c, d]


def menu(w, _):
    from flamingpy.utils import graph_states as gs

    return [graph_data(f(n)) for f in (gs.star_graph, gs.complete_graph, gs.linear_cluster, gs.ring_graph) for n in (3, 4)] + [graph_data(gs.bell())]


def menu_change(w, _):
    from flamingpy.utils import graph_states as gs

    G = gs.bell()
    n = sorted(G.nodes)
    G.add_edge(n[0], (9, 9, 9))
    G.nodes[n[0]]["state"] = "p"
    w["G"] = G
    H = gs.star_graph(4)
    H.remove_node(sorted(H.nodes)[0])
    return graph_data(G), graph_data(H), graph_data(gs.bell())


def functions(k):
    def a(w, _):
        from flamingpy.cv import ops

        n = 3
        A = np.zeros((n, n))
        A[0, k], A[k, 0] = k, k
        w["A"] = A
        return plain(ops.SCZ_mat(A, sparse=False)), plain(ops.SCZ_mat(A)), plain(ops.SCZ_apply(A, np.arange(6.0))), plain(ops.splitter_symp(4))

    def b(w, _):
        from flamingpy.cv import gkp

        v = np.array([0.1, 0.2]) * k
        return plain(gkp.Z_err(v)), plain(gkp.Z_err_cond(list(v), [0.3, 0.4 * k])), plain(gkp.GKP_binner([0.2 + k, 1.9], return_fraction=True))

    def c(w, _):
        from flamingpy.cv import ops

        S = ops.splitter_symp(4)
        S[0, 0] = 17 + k
        M = ops.SCZ_mat(w["A"], sparse=False)
        M += k
        return plain(ops.splitter_symp(4)), plain(ops.SCZ_mat(w["A"], sparse=False)), plain(ops.invert_permutation(np.roll(np.arange(5), k)))

    return [a, b, c, b]


def drawing(noise, decs, **kw):
    ops = code_pipe(noise, decs, **kw)

    def seen(fig):
        ax = fig.axes[0]
        return [len(ax.texts), len(ax.lines), len(ax.collections), ax.get_title(), sorted(t.get_text() for t in ax.texts)]

    def draw(w, a):
        import matplotlib.pyplot as plt

        f, _ = w["small"].draw(color_nodes="red", label="index")
        g, _ = w["code"].draw_stabilizer_graph(w["code"].ec[0])[:2]
        r = [seen(f), [len(g.axes), g.axes[0].get_title()]]
        plt.close(f), plt.close(g)
        return r

    def first(w, a):
        from flamingpy.utils.graph_states import ring_graph

        w["small"] = ring_graph(5)
        w["small"].index_generator()
        return ops[0](w, a)

    return [first, ops[1], draw, ops[3]]


def minus(edge):
    """Bond weights that alternate."""
    return -1 if edge[0][0] != edge[1][0] else 1


def signed(sign):
    """Polarity functions that differ only in what they close over."""

    def polarity(edge):
        return sign if (edge[0][2] + edge[1][2]) % 4 == 1 else 1

    return polarity


class Signed:
    def __init__(self, sign):
        self.sign = sign

    def __call__(self, edge):
        return self.sign


def polarities(sign):
    """Codes that have everything in common but their polarity."""

    def op(f, dims, ec, b):
        def build(w, a):
            from flamingpy.codes import SurfaceCode

            w["code"] = SurfaceCode(dims, ec, b, f(sign))
            r = graph_data(w["code"].graph), plain(w["code"].graph.adj_generator(sparse=False))
            for *_, d in w["code"].graph.edges.data():
                d["weight"] = 7  # the graph is the caller's
            w["code"].graph.remove_node(sorted(w["code"].graph.nodes)[0])
            return r

        return build

    return [op(signed, 2, "primal", "open"), op(Signed, 2, "primal", "open"), op(signed, (2, 3, 2), "dual", "open"), op(Signed, 2, "primal", "toric")]


def pipes():
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    iid = lambda p: lambda c, a: IidNoise(c, p)
    R, N, L, U = ("MWPM", "none", {"backend": "rustworkx"}), ("MWPM", "uniform", "mwpm"), ("MWPM", "uniform", {"backend": "lemon"}), ("UF", "empty", None)
    B, F = ("MWPM", "blueprint", None), ("MWPM", "float", "mwpm")
    return {
        "iid": code_pipe(iid(0.2), [R, U]),
        "iid-dual": code_pipe(iid(0.2), [U, N], ec="dual"),
        "iid-nx": code_pipe(iid(0.4), [L, R], sg="networkx"),
        "iid-toric": code_pipe(iid(0.1), [U, R], b="toric"),
        "iid-periodic": code_pipe(iid(0.3), [N, U], b="periodic"),
        "iid-long": code_pipe(iid(0.3), [R, U], dims=None),
        "ties": code_pipe(iid(0.3), [("MWPM", "uniform", None), N], dims=3, seeds=(10, 10)),  # every backend finds another of the minimal matchings
        "cv": code_pipe(lambda c, a: CVLayer(c, delta=0.1, p_swap=0.4), [U, B]),
        "cv-given": code_pipe(lambda c, a: CVLayer(c, delta=0.5, states=a["states"]), [F, U], ec="dual"),
        "cv-polarity": code_pipe(lambda c, a: CVLayer(c, delta=0.2), [B, R], polarity=minus),
        "cv-two": code_pipe(lambda c, a: CVLayer(c, delta=0.1, p_swap=0.3, sampling_order="two-step"), [F, U], b="toric", sg="networkx"),
        "cv-own": code_pipe(lambda c, a: CVLayer(c, delta=0.3, states=a["states"], translator=lambda v: [int(x > 0.1) for x in v]), [U, R]),
        "macro": code_pipe(lambda c, a: CVMacroLayer(c, delta=0.1, p_swap=0.5), [("MWPM", "pre", None), U]),
        "edits": edits(False),
        "macro-edits": edits(True),
        "lc": lc([(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)]),
        "lc-no": lc([(0, 1), (2, 3)], [(0, 1), (1, 2), (2, 3)]),
        "match-rx": matching("rx", [1, 5, 2, 3, 1, 4]),
        "match-nx": matching("nx", [2, 1, 1, 2, 7, 0.5]),
        "match-lemon": matching("lemon", [1, 2, 3, 3, 2, 6]),
        "menu": [menu, menu_change, menu, menu_change],
        "functions-1": functions(1),
        "functions-2": functions(2),
        "polarity-plus": polarities(1),
        "polarity-minus": polarities(-1),
        "mc": mc_pipe(iid(0.2), "UF", "none"),
        "mc-cv": mc_pipe(lambda c, a: CVLayer(c, delta=0.1, p_swap=0.2), "MWPM", "blueprint", ec="dual"),
        "draw": drawing(iid(0.2), [R]),
    }


# ---------------------------------------------------------------- references: each pipeline alone in its own process
ALONE = {}


def _alone(name, q):
    import io, contextlib, warnings

    warnings.simplefilter("ignore")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            w, a = {}, shared()
            q.put(("ok", [plain(op(w, a)) for op in pipes()[name]]))
    except Exception as e:
        q.put(("raised", f"{type(e).__name__}: {e}"))


def prepare(tier):
    import matplotlib

    matplotlib.use("Agg")
    load_lemon()
    import flamingpy.simulations  # noqa: F401  (its clock seed is fixed on import)
    import matplotlib.pyplot, flamingpy.utils.viz  # noqa: F401,E401

    ctx = mp.get_context("fork")
    for name in pipes():
        q = ctx.SimpleQueue()
        p = ctx.Process(target=_alone, args=(name, q))
        p.start()
        kind, res = q.get()
        p.join()
        ALONE[name] = (kind, res)


def alone(name):
    kind, res = ALONE[name]
    need(kind == "ok", lambda: f"{name} alone: {res}")
    return res


class Run:
    """The pipelines of a schedule with their objects."""

    def __init__(self, names, ops):
        self.names, self.ops = names, ops
        self.args = shared()
        self.before = repr(self.args)
        self.w = [{} for _ in names]
        self.at = [0] * len(names)

    def step(self, i):
        k = self.at[i]
        self.at[i] += 1
        got = plain(self.ops[self.names[i]][k](self.w[i], self.args))
        want = alone(self.names[i])[k]
        if got != want:
            need(False, f"operation {k + 1} of {self.names[i]!r} (next to {[n for j, n in enumerate(self.names) if j != i]}) differs from the same pipeline alone: {difference(got, want)}")

    def done(self):
        need(repr(self.args) == self.before, "an argument shared by the two was changed")


def difference(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:200]} instead of {str(b)[:200]}"


def interleavings(counts):
    """Every merge of sequences with the given lengths."""
    counts = list(counts)

    def go(prefix):
        if not any(counts):
            yield tuple(prefix)
            return
        for i, c in enumerate(counts):
            if c:
                counts[i] -= 1
                yield from go(prefix + [i])
                counts[i] += 1

    return list(go([]))


def pair(rep, a, b):
    ops = pipes()
    schedules = interleavings((4, 4))
    if a == b:
        schedules = [s for s in schedules if s[0] == 0]
    if {"macro", "draw"} & {a, b}:
        schedules = [s for s in schedules if sum(x != y for x, y in zip(s, s[1:])) < 3]
    for s in schedules:
        with rep.case([a, b, "".join("AB"[i] for i in s)], transitions=8):
            r = Run((a, b), ops)
            for i in s:
                r.step(i)
            r.done()
    rep.seen((a, b))
    rep.sample([a, b, s])


def deleted(rep, a):
    """Another pipeline runs after all objects of the first are gone (their addresses are free again)."""
    ops = pipes()
    gc.collect()
    gc.freeze()  # collections look only at the objects of the cases
    for b in ops:
        for order in ((a, b), (a, b, a), (b, a, b, a)):
            with rep.case([order, "deleted in between"], transitions=4 * len(order)):
                for n in order:
                    r = Run((n,), ops)
                    for _ in range(4):
                        r.step(0)
                    r.done()
                    del r
                    gc.collect(0)
                gc.collect()
    rep.seen(("deleted", a))


def many(rep, names, every):
    """Three pipelines: all orders of whole operations, or of the pipelines turn by turn."""
    ops = pipes()
    if every:
        schedules = interleavings((4, 4, 4))
    else:
        schedules = [sum(turn, ()) for turn in it.product(it.permutations(range(3)), repeat=4)][::9]
    for s in schedules:
        with rep.case([names, "".join("ABC"[i] for i in s)], transitions=12):
            r = Run(names, ops)
            for i in s:
                r.step(i)
            r.done()
    rep.seen(names)


# ---------------------------------------------------------------- one run inside another, line by line
ROOT = None


def package_root():
    import flamingpy

    return os.path.dirname(os.path.abspath(flamingpy.__file__))


class Lines:
    """Calls visit(k, file, line) before every executed line of the package."""

    def __init__(self, visit):
        self.visit, self.k, self.root, self.busy = visit, 0, package_root(), False

    def glob(self, frame, event, arg):
        if self.busy or not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.busy:
            k = self.k
            self.k += 1
            self.busy = True
            try:
                self.visit(k, frame.f_code.co_filename, frame.f_lineno)
            finally:
                self.busy = False
        return self.local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def inside(rep, a, b, part, parts, every=False):
    """b runs completely, with objects of its own, at a chosen line of a."""
    ops = pipes()
    places, total = {}, 0
    with rep.case([a, "recording its lines"]):
        r = Run((a,), ops)

        def note(k, f, l):
            places.setdefault((f, l), [k, k])[1] = k

        with Lines(note) as t:
            for _ in range(4):
                r.step(0)
        total = t.k
    points = range(total) if every else sorted({k for v in places.values() for k in (v[:1] if a == "macro" else v)})
    for p in list(points)[part::parts]:
        with rep.case([a, "interrupted before line event", p, "by", b], transitions=8):
            r = Run((a, b), ops)
            where = []

            def visit(k, f, l):
                if k == p:
                    where.append((os.path.relpath(f, package_root()), l))
                    sys.settrace(None)
                    for _ in range(4):
                        r.step(1)
                    sys.settrace(t.glob)

            with Lines(visit) as t:
                for _ in range(4):
                    r.step(0)
            r.done()
            rep.seen(("reached", bool(where)))  # the order of sets may change the number of lines from run to run
    rep.seen((a, b, "inside"))


INSIDE = [("iid", "iid"), ("iid-dual", "cv"), ("iid-nx", "iid"), ("cv", "cv-given"), ("cv-two", "cv-two"), ("macro", "cv"), ("edits", "macro-edits"), ("macro-edits", "edits"), ("lc", "lc-no"), ("mc", "mc-cv"), ("match-lemon", "match-lemon"), ("functions-1", "functions-2")]


def jobs(tier):
    names = list(pipes())
    js = []
    heavy = {"macro", "draw"}
    ps = sorted(it.combinations_with_replacement(names, 2), key=lambda p: -len(heavy & set(p)))
    for a, b in ps:
        js.append(("pair", dict(a=a, b=b)))
    for a in names:
        js.append(("deleted", dict(a=a)))
    for a, b in INSIDE:
        for i in range(4):
            js.append(("inside", dict(a=a, b=b, part=i, parts=4, every=tier != "quick")))
    triples = [("iid", "cv", "iid-dual"), ("iid", "iid", "iid"), ("cv", "cv-given", "cv-own"), ("macro", "cv", "iid"), ("edits", "macro-edits", "edits"), ("lc", "lc-no", "menu"), ("match-rx", "match-nx", "match-lemon"),
               ("mc", "mc-cv", "iid"), ("iid-toric", "iid-periodic", "iid-long"), ("functions-1", "functions-2", "cv-two"), ("iid-nx", "iid", "iid-nx"), ("cv-polarity", "cv", "cv-polarity"), ("cv-given", "cv-given", "cv-own"), ("macro", "macro", "macro-edits")]
    for t in triples:
        js.append(("many", dict(names=list(t), every=tier != "quick" and "macro" not in t)))
    return js
