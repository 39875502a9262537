"""C22: drawing and inspection never change the object shown."""
import contextlib, copy, io, os, re

os.environ["MPLBACKEND"] = "Agg"

from mc.core import need
from mc.lib import *
from mc.c01 import prepare  # noqa: F401

PROPERTY = "C22"
TECHNIQUE = (
    "exhaustive enumeration of drawing options x objects x points of a decoding run on the real code, with complete snapshots before and after "
    "and every artist of the figure compared with the object"
)
BOUNDS = {
    "quick": "graph states: 6 small graphs (plain, attributed, macronized, indexed or not), 7 codes and (structured option choices) 3 larger ones to 4x4x4 (each boundary type, both error complexes, anisotropic) under every pair of "
    "colour, label, title, legend, axes and dimension options in both backends, one of them under the full product of colours, labels, titles and legends; decoding graphs: every "
    "option on 6 codes and all matching graphs; syndrome and decoding plots: full product of 7 on/off options x both decoders on one code, all pairs on 2 more and on the other backends, with 4 syndromes; every drawing "
    "operation at every point of a run of 2 trials, alone and in pairs; labels of all multiples of half the square root of pi up to 3000 and a grid of 4000 other "
    "values; GKP plots over every range of bins in -12..12",
    "thorough": "small graphs and 2 codes under the full product of options, all triples of drawings in a run, larger ranges",
}
ASSUMPTIONS = [
    "Agg renderer; figures are judged by their artists",
    "index maps and the adjacency matrix may be computed when first needed",
    "the stabilizer graph is drawn after weights were assigned",
    "colour and label arguments of the documented types (tuples for attribute colouring; a single attribute as label in matplotlib)",
]


def mods():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from flamingpy.utils import viz

    return matplotlib, plt, viz


# ------------------------------------------------------------------ snapshots
def dense(A):
    return None if A is None else (A if isinstance(A, np.ndarray) else A.toarray())


def snap_graph(G):
    A = dense(G.adj_mat)
    return {
        "qubits": [(n, copy.deepcopy(dict(d))) for n, d in G.nodes(data=True)],
        "bonds": [(u, v, copy.deepcopy(dict(d))) for u, v, d in G.edges(data=True)],
        "attributes": copy.deepcopy({k: v for k, v in G.graph.items()}),
        "indices": None if G.to_indices is None else dict(G.to_indices),
        "points": None if G.to_points is None else dict(G.to_points),
        "adjacency": None if A is None else A.tolist(),
        "macronodes": copy.deepcopy(G.macro_to_micro),
        "extra": sorted(k for k in vars(G) if not k.startswith("_") and k not in ("adj", "nodes", "edges", "degree")),
    }


def snap_dec(g):
    """A decoding (stabilizer or matching) graph."""
    res = {"nodes": [repr(n) if not isinstance(n, (tuple, str)) else n for n in (g.nodes() if hasattr(g, "nodes") else g.graph.nodes())]}
    if hasattr(g, "edge_data"):
        res["ids"] = [n if isinstance(n, (tuple, str)) else id(n) for n in g.nodes()]
        res["edges"] = [(a if isinstance(a, (tuple, str)) else id(a), b if isinstance(b, (tuple, str)) else id(b), copy.copy(dict(g.edge_data(a, b)))) for a, b in g.edges()]
        res["lists"] = [list(map(id, g.stabilizers)), list(g.low_bound_points), list(g.high_bound_points)]
    else:
        h = g.graph
        if hasattr(h, "weighted_edge_list"):
            res["edges"] = [(a, b, repr(d)) for a, b, d in h.weighted_edge_list()]
        else:
            res["edges"] = [(repr(a), repr(b), repr(d)) for a, b, d in h.edges(data=True)]
        res["virtual"] = list(g.virtual_points)
    return res


def snap_code(code):
    res = {"graph": snap_graph(code.graph)}
    for ec in code.ec:
        res[ec] = {
            "checks": [(id(s), s.coords(), copy.deepcopy(s.physical)) for s in getattr(code, ec + "_stabilizers")],
            "points": list(getattr(code, ec + "_bound_points")),
            "syndrome": list(getattr(code, ec + "_syndrome_coords")),
            "decoding": snap_dec(getattr(code, ec + "_stab_graph")),
        }
    res["attrs"] = sorted(vars(code))
    res["settings"] = repr([code.dims, code.distance, list(code.ec), list(code.boundaries), code.polarity])
    return res


def same(a, b, what=""):
    """Equality of snapshots, allowing lazily computed maps to appear."""
    if isinstance(a, dict) and isinstance(b, dict) and "qubits" in a:
        for k in a:
            if k in ("indices", "points", "adjacency") and a[k] is None:
                continue
            need(a[k] == b[k], lambda: f"drawing changed {what}{k}: {diff(a[k], b[k])}")
        return
    if isinstance(a, dict):
        need(set(a) == set(b), lambda: f"{what}{set(a) ^ set(b)}")
        for k in a:
            same(a[k], b[k], what + str(k) + " ")
        return
    need(a == b, lambda: f"drawing changed {what}: {diff(a, b)}")


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if x != y:
                return f"{x} -> {y}"[:300]
        return f"{len(a)} -> {len(b)} entries"
    return f"{a} -> {b}"[:300]


@contextlib.contextmanager
def unchanged(*objs):
    """Everything given is the same afterwards, and so are the global plot settings."""
    mpl, plt, viz = mods()
    plt.close("all")

    def snap(o):
        from flamingpy.codes import SurfaceCode
        from flamingpy.codes.graphs import EGraph

        if isinstance(o, SurfaceCode):
            return snap_code(o)
        if isinstance(o, EGraph):
            return snap_graph(o)
        if hasattr(o, "graph") and hasattr(o, "draw"):
            return snap_dec(o)
        if hasattr(o, "toarray"):
            return [o.shape, o.format, o.toarray().tolist()]
        if isinstance(o, np.ndarray):
            return [o.shape, str(o.dtype), o.tolist()]
        return copy.copy(o)

    rc, pp = dict(mpl.rcParams), dict(viz.plot_params)
    before = [snap(o) for o in objs]
    try:
        yield
        for x, o in zip(before, objs):
            same(x, snap(o))
        now = dict(mpl.rcParams)
        need(rc == now, lambda: f"global plot settings changed: {[k for k in rc if rc[k] != now.get(k)]}")
        need(pp == dict(viz.plot_params), "plot_params changed")
    finally:
        plt.close("all")


# ------------------------------------------------------------------ reading 3D figures
def rgb(c):
    import matplotlib.colors as mc

    return tuple(round(float(x), 2) for x in mc.to_rgba(c)[:3])


def cycle_free(c):
    return c is not None


def points3d(ax):
    """[(x, y, z, rgb)] of every scatter point and marker-only line."""
    from matplotlib.collections import Collection

    res = []
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            xs, ys, zs = (np.ma.getdata(v) for v in c._offsets3d)
            # the base class returns the colours in the order of the points (3D ones sort them by depth)
            f = np.atleast_2d(Collection.get_facecolor(c))
            for i in range(len(xs)):
                k = f[i % len(f)]
                res.append((round(float(xs[i]), 6), round(float(ys[i]), 6), round(float(zs[i]), 6), tuple(round(float(x), 2) for x in k[:3])))
    return res


def lines3d(ax):
    """[([points], rgb, line)] of every line."""
    res = []
    for l in ax.lines:
        xs, ys, zs = l.get_data_3d()
        pts = [tuple(round(float(c), 6) for c in p) for p in zip(np.ravel(xs), np.ravel(ys), np.ravel(zs))]
        res.append((pts, rgb(l.get_color()), l))
    for c in ax.collections:
        if hasattr(c, "_segments3d"):
            col = np.atleast_2d(c.get_edgecolor())
            for i, s in enumerate(c._segments3d):
                res.append(([tuple(round(float(x), 6) for x in p) for p in s], tuple(round(float(x), 2) for x in col[i % len(col)][:3]), None))
    return res


def texts3d(ax):
    res = []
    for t in ax.texts:
        p = t.get_position_3d() if hasattr(t, "get_position_3d") else (t._x, t._y, t._z)
        res.append((tuple(map(float, p)), t.get_text()))
    return res


def swap(p):
    x, y, z = (round(float(c), 6) for c in p)
    return (x, z, y)


def node_color(G, n, opt):
    if isinstance(opt, str):
        return opt
    if isinstance(opt, tuple):
        return opt[1].get(G.nodes[n].get(opt[0]), "black")
    if opt is True:
        return G.nodes[n].get("color", "black")
    return "black"


def edge_color(G, e, opt):
    if isinstance(opt, str):
        return opt
    if isinstance(opt, tuple):
        return opt[1].get(G.edges[e].get(opt[0]), "grey")
    if opt is True:
        return G.edges[e].get("color") or "grey"
    return "grey"


def shows(text, value):
    """Does the label state the value (two significant digits for non-integers)?"""
    if isinstance(value, str):
        return text == value
    if isinstance(value, int):
        return text == str(value)
    neg = "^{-}" in text
    num = text.replace("$", "").replace("^{-}", "").strip()
    try:
        v = float(num)
    except ValueError:
        return False
    return neg == (value < 0) and abs(v - abs(value)) <= 0.051 * abs(value) and len(re.sub(r"e.*|[.]|^0+[.]?0*", "", num)) <= 3


def value_of(G, n, label):
    if label == "index":
        return G.to_indices[n]
    return G.nodes[n].get(label)


TITLES = {
    "p_phase": "Phase error probabilities", "p_phase_cond": "Conditional phase error probabilities", "hom_val_p": "p-homodyne outcomes",
    "hom_val_q": "q-homodyne outcomes", "bit_val": "Bit values", "weight": "Weights", "index": "Indices",
}


def title_of(title, label):
    if not title or label is None:
        return "" if not isinstance(title, str) else title
    return title if isinstance(title, str) else TITLES.get(label, label)


def graph_drawn(G, ax, color_nodes, color_edges, label, extra_points=0):
    """Every qubit and bond of G is in the axes, in its place and colour, with its label."""
    got = {}
    for x, y, z, c in points3d(ax):
        got.setdefault((x, y, z), []).append(c)
    for n in G.nodes:
        p = swap(n)
        need(p in got, lambda: f"qubit {n} is not drawn")
        c = node_color(G, n, color_nodes)
        if c is not None:
            need(rgb(c) in got[p], lambda: f"qubit {n} is drawn in {got[p]}, expected {c}")
    need(extra_points is None or sum(map(len, got.values())) == len(G) + extra_points, lambda: f"{sum(map(len, got.values()))} points drawn for {len(G)} qubits")
    segs = {}
    for pts, c, _ in lines3d(ax):
        for a, b in zip(pts, pts[1:]):
            segs.setdefault(frozenset((a, b)), []).append(c)
    for e in G.edges:
        k = frozenset((swap(e[0]), swap(e[1])))
        need(k in segs, lambda: f"bond {e} is not drawn")
        c = edge_color(G, e, color_edges)
        need(rgb(c) in segs[k], lambda: f"bond {e} is drawn in {segs[k]}, expected {c}")
    need(extra_points is None or sum(map(len, segs.values())) == G.number_of_edges(), "more lines than bonds")
    if extra_points is not None:
        tx = texts3d(ax)
        missing = 0
        if label:
            todo = list(tx)
            for n in G.nodes:
                v = value_of(G, n, label)
                if v is None:
                    missing += 1
                    continue
                p = swap(n)
                hit = [t for t in todo if max(abs(a - b) for a, b in zip(t[0], p)) < 0.06 and shows(t[1], v)]
                need(hit, lambda: f"qubit {n} with {label} {v!r} is not labelled by it: {[t for t in tx if max(abs(a - b) for a, b in zip(t[0], p)) < 0.3]}")
                todo.remove(hit[0])
            need(not todo, lambda: f"labels {todo[:3]} too many")
        else:
            need(not tx, lambda: f"labels {tx[:3]} drawn without being asked for")
        return missing
    return 0


# ------------------------------------------------------------------ graph states
@functools.lru_cache(None)
def subject(name):
    """Graphs to draw.  They are only drawn, so they are shared between the cases."""
    from flamingpy.codes.graphs import EGraph
    from flamingpy.utils import graph_states as g
    from flamingpy.noise import CVLayer, IidNoise
    from flamingpy.codes import alternating_polarity

    if name == "bell":
        return g.bell()
    if name == "ring indexed":
        G = g.ring_graph(4)
        G.adj_generator(sparse=True)
        return G
    if name == "star dense":
        G = g.star_graph(4)
        G.adj_generator(sparse=False)
        return G
    if name == "point":
        G = EGraph()
        G.add_node((0, 0, 0), color="green")
        return G
    if name == "attributes":
        G = EGraph()
        vals = [(0, "GKP", -0.123456, "r"), (1, "p", 2.7182818, "b"), (1, "GKP", 1234.5, "gold"), (0, None, None, None), (None, "p", 0.0, "m")]
        pts = [(0, 0, 0), (1, 2, 0), (-1, 0, 3), (2, 1, 1), (0, 3, -2)]
        for p, (b, s, h, c) in zip(pts, vals):
            d = {k: v for k, v in (("bit_val", b), ("state", s), ("hom_val_p", h), ("color", c)) if v is not None}
            G.add_node(p, **d)
        for i, (a, b) in enumerate([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]):
            G.add_edge(pts[a], pts[b], **[{"weight": 1, "color": "c"}, {"weight": -1}, {}, {"weight": 1}, {"weight": -1, "color": "y"}][i])
        return G
    if name == "macro":
        G = EGraph()
        G.add_edge((0, 0, 0), (1, 0, 0), weight=1)
        G.add_edge((0, 0, 0), (0, 1, 0), weight=-1)
        return G.macronize(pad_boundary=True)
    dims, ec, bd, noise = eval(name)
    code = make_code(dims, ec, bd, polarity=alternating_polarity if noise == "cv" else None)
    if noise == "iid":
        IidNoise(code, 0.4).apply_noise(np.random.default_rng(2))
    elif noise == "cv":
        CVLayer(code, delta=0.1, p_swap=0.3).apply_noise(np.random.default_rng(2))
    return code.graph


SMALL = ("point", "bell", "ring indexed", "star dense", "attributes", "macro")
CODES = tuple(map(repr, (
    (2, "primal", "open", "iid"), ((2, 3, 2), "dual", "open", "cv"), ((3, 2, 2), "primal", "open", None), (2, "primal", "toric", "cv"),
    ((2, 2, 3), "dual", "toric", "iid"), (2, "primal", "periodic", "iid"), ((2, 3, 2), "dual", "periodic", "cv"),
)))
LARGE = tuple(map(repr, (((4, 4, 4), "primal", "open", "cv"), ((2, 3, 9), "dual", "open", "iid"), ((4, 3, 4), "dual", "periodic", "iid"))))
OPTS = {
    "color_nodes": (False, True, "g", ("state", {"GKP": "gold", "p": "blue"}), ("type", {"primal": "k", "dual": "grey"})),
    "color_edges": (False, True, "k", ("weight", {1: "b", -1: "r"}), ("weight", {1: "b"})),
    "label": (None, "index", "bit_val", "hom_val_p", "state"),
    "title": (None, True, "My Title"),
    "legend": (False, True),
    "show_axes": (True, False),
    "dimensions": (None, ([-2, 5], [-1, 6], [0, 7])),
}
PLOTLY = {
    "color_nodes": OPTS["color_nodes"], "color_edges": OPTS["color_edges"],
    "label": ("all", None, "coordinates", "index", "bit_val", ("state", "bit_val"), ["index", "hom_val_p"], ["bit_val"]),
    "title": OPTS["title"], "legend": OPTS["legend"], "show_axes": OPTS["show_axes"],
}


def combos(opts, full):
    """The full product of options, or all settings that differ in at most two from the defaults."""
    keys = list(opts)
    if full == "looks":  # the full product of what concerns colours and labels, and all pairs
        small = {k: v if k not in ("show_axes", "dimensions") else v[:1] for k, v in opts.items()}
        yield from combos(small, True)
        yield from combos(opts, False)
        return
    if full:
        for vs in it.product(*opts.values()):
            yield dict(zip(keys, vs))
        return
    seen = []
    for k1, k2 in it.combinations(keys, 2):
        for a in opts[k1]:
            for b in opts[k2]:
                d = {k: opts[k][0] for k in keys}
                d[k1], d[k2] = a, b
                if d not in seen:
                    seen.append(d)
                    yield d


def fresh(name):
    return copy.deepcopy(subject(name))


def draw_mpl(rep, name, full, part, parts):
    mpl, plt, viz = mods()
    G = None
    for i, o in enumerate(combos(OPTS, full)):
        if i % parts != part:
            continue
        with rep.case([name, {k: repr(v) for k, v in o.items()}]):
            if G is None or i % 40 == part:
                G = fresh(name)
            kw = {k: v for k, v in o.items() if not (k == "dimensions" and v is None)}
            if kw.get("dimensions"):
                kw["dimensions"] = tuple(list(l) for l in kw["dimensions"])
            args = copy.deepcopy(kw)
            out = io.StringIO()
            with unchanged(G), contextlib.redirect_stdout(out):
                fig, ax = (G.draw(**kw) if i % 2 else viz.draw_EGraph(G, "matplotlib", **kw))
                need(kw == args, "drawing changed its arguments")
                need(ax in fig.axes, "the axes do not belong to the figure")
                missing = graph_drawn(G, ax, o["color_nodes"], o["color_edges"], o["label"])
                need(ax.get_title() == title_of(o["title"], o["label"]), lambda: f"title {ax.get_title()!r}")
                leg = ax.get_legend()
                want = isinstance(o["color_nodes"], tuple) and o["legend"]
                need((leg is not None) == bool(want), "legend")
                if want:
                    shown = {t.get_text(): rgb(h.get_color()) for t, h in zip(leg.get_texts(), leg.legend_handles)}
                    need(shown == {k: rgb(c) for k, c in o["color_nodes"][1].items()}, lambda: f"legend {shown}")
                need(getattr(ax, "_axis3don", ax.axison) == o["show_axes"], "axes shown or hidden against the option")
                box = o["dimensions"] or [[min(c), max(c)] for c in zip(*G.nodes)]
                for (lo, hi), lim in zip((box[0], box[2], box[1]), (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())):
                    need(min(lim) <= lo and max(lim) >= hi and (o["dimensions"] is None or sorted(lim) == sorted((lo, hi))), lambda: f"axis range {lim} for {lo}..{hi}")
                need([ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()] == ["x", "z", "y"], "axis names")
            said = out.getvalue()
            need(bool(missing) == bool(re.search(rf"\b{missing}\b", said)) and (missing or not said), lambda: f"{missing} labels missing, message {said!r}")
            rep.seen((name, missing))
    rep.sample([name, repr(o)])


def draw_plotly(rep, name, full, part, parts):
    mpl, plt, viz = mods()
    G = None
    for i, o in enumerate(combos(PLOTLY, full)):
        if i % parts != part:
            continue
        with rep.case([name, "plotly", {k: repr(v) for k, v in o.items()}]):
            if G is None or i % 40 == part:
                G = fresh(name)
            args = copy.deepcopy(o)
            with unchanged(G):
                fig = G.draw(backend="plotly", **o) if i % 2 else viz.draw_EGraph(G, "plotly", **o)
                need(o == args, "drawing changed its arguments")
                pl_check(G, fig, o)
            rep.seen((name, "plotly"))
    rep.sample([name, repr(o)])


def pl_color(c):
    return rgb(c) if c is not None else None


def pl_check(G, fig, o):
    marks = [t for t in fig.data if "markers" in (t.mode or "")]
    lines = [t for t in fig.data if "lines" in (t.mode or "")]
    got = {}
    for t in marks:
        cols = t.marker.color
        hover = t.hovertext
        for i, p in enumerate(zip(t.x, t.y, t.z)):
            c = cols if isinstance(cols, str) else cols[i]
            h = hover if isinstance(hover, str) or hover is None else hover[i]
            got.setdefault(tuple(round(float(v), 6) for v in p), []).append((c, h))
    need(set(got) == {tuple(round(float(v), 6) for v in n) for n in G.nodes} and all(len(v) == 1 for v in got.values()), "qubits drawn")
    lab = o["label"]
    for n in G.nodes:
        c, h = got[tuple(round(float(v), 6) for v in n)][0]
        want = node_color(G, n, o["color_nodes"])
        need(pl_color(c) == pl_color(want), lambda: f"qubit {n} has colour {c}, expected {want}")
        d = G.nodes[n]
        if lab is None:
            need(not h, lambda: f"qubit {n} says {h}")
        elif lab == "coordinates":
            need(h == str(n), lambda: f"qubit {n} says {h}")
        elif isinstance(lab, str) and lab != "all":
            v = value_of(G, n, lab)
            need(h == f"{lab}: {v}", lambda: f"qubit {n} says {h}")
        else:
            keys = ["index"] + sorted(d) if lab == "all" else lab
            want = [f"{k}: {value_of(G, n, k)}" for k in keys if value_of(G, n, k) is not None]
            need(h.split("<br />") == [str(n)] + want, lambda: f"qubit {n} says {h}, expected {want}")
    segs = {}
    for t in lines:
        cols = t.line.color
        pts = list(zip(t.x, t.y, t.z))
        for i in range(len(pts) - 1):
            if pts[i][0] is None or pts[i + 1][0] is None:
                continue
            k = frozenset(tuple(round(float(v), 6) for v in p) for p in pts[i : i + 2])
            cc = {cols} if isinstance(cols, str) else {cols[i], cols[i + 1]}
            segs.setdefault(k, []).append(cc)
    for e in G.edges:
        k = frozenset(tuple(round(float(v), 6) for v in p) for p in e)
        need(k in segs and len(segs[k]) == 1, lambda: f"bond {e} is drawn {len(segs.get(k, []))} times")
        want = edge_color(G, e, o["color_edges"])
        need({pl_color(c) for c in segs[k][0]} == {pl_color(want)}, lambda: f"bond {e} has colour {segs[k]}, expected {want}")
    need(len(segs) == G.number_of_edges(), "lines drawn")
    t = fig.layout.title.text
    want = None if not o["title"] or lab is None else (o["title"] if isinstance(o["title"], str) else TITLES.get(lab, lab) if isinstance(lab, str) else ", ".join(lab))
    if isinstance(lab, list) and len(lab) == 1 and t == TITLES.get(lab[0]):
        want = t if o["title"] else want  # the plain word for it
    if isinstance(o["title"], str):
        need(t == o["title"] or isinstance(lab, (list, tuple)), lambda: f"title {t}")
    else:
        need((t or None) == want, lambda: f"title {t}, expected {want}")
    need(bool(fig.layout.showlegend) == o["legend"], "legend")
    need(bool(fig.layout.scene.xaxis.showticklabels) == o["show_axes"], "axes")


def draw_others(rep, name):
    """code.draw, noise-layer drawings, matrices."""
    mpl, plt, viz = mods()
    from flamingpy.noise import CVLayer
    from flamingpy.codes import alternating_polarity
    import scipy.sparse as sps

    dims, ec, bd, noise = eval(name)
    def unit(*direction):
        return -1

    for pol in (None, alternating_polarity, unit):
        code = make_code(dims, ec, bd, polarity=pol)
        edges = "grey" if pol is not alternating_polarity else ("weight", {1: "b", -1: "r"})
        nodes = ("type", {"primal": "black", "dual": "grey"})
        for kw in ({}, {"color_nodes": "r"}, {"color_edges": "k"}, {"label": "index", "title": True, "legend": True}):
            for be in ("matplotlib", "plotly"):
                with rep.case([name, str(pol), be, str(kw)]):
                    with unchanged(code):
                        r = code.draw(backend=be, **kw)
                        cn, ce = kw.get("color_nodes", nodes), kw.get("color_edges", edges)
                        if be == "matplotlib":
                            graph_drawn(code.graph, r[1], cn, ce, kw.get("label"))
                        else:
                            pl_check(code.graph, r, dict(color_nodes=cn, color_edges=ce, label=kw.get("label", "all"), title=kw.get("title"), legend=kw.get("legend", False), show_axes=True))
        for seed in (1, 2):
            layer = CVLayer(code, delta=0.1, p_swap=0.3 * seed)
            layer.apply_noise(np.random.default_rng(seed))
            st = copy.deepcopy(layer.states)
            for kw in ({}, {"color_nodes": "r"}, {"label": "hom_val_p", "title": True}, {"backend": "plotly"}):
                with rep.case([name, "layer", seed, str(kw)]):
                    with unchanged(code):
                        r = layer.draw(**kw)
                        cn = kw.get("color_nodes", ("state", {"GKP": "gold", "p": "blue"}))
                        if "backend" in kw:
                            pl_check(code.graph, r, dict(color_nodes=cn, color_edges=False, label="all", title=None, legend=False, show_axes=True))
                        else:
                            graph_drawn(code.graph, r[1], cn, False, kw.get("label"))
                    need({k: list(v) for k, v in st.items()} == {k: list(v) for k, v in layer.states.items()}, "states of the layer changed")
            with rep.case([name, "SCZ", seed]):
                with unchanged(code):
                    fig, axs = layer.draw_SCZ(show=False)
                    heat(axs[0], dense(layer.SCZ()))
        for sparse in (None, True, False):
            for show in (True, False):
                for title in (None, "T"):
                    with rep.case([name, "adjacency", sparse, show, title]):
                        G = make_code(dims, ec, bd, polarity=pol).graph
                        if sparse is not None:
                            G.adj_generator(sparse=sparse)
                        with unchanged(G):
                            fig, axs = G.draw_adj(show=show, title=title)
                            import networkx as nx

                            heat(axs[0], nx.to_numpy_array(G, nodelist=[G.to_points[i] for i in sorted(G.to_points)]))
                            need(axs[0].get_title() == (title or ""), "title")
                        A = G.adj_generator(sparse=True)
                        need(not isinstance(A, np.ndarray), "sparse adjacency after drawing")
    M = np.arange(12.0).reshape(3, 4) - 5
    for m in (M, sps.csr_array(M), sps.coo_matrix(M), M.astype(int), M[:1], M[:, :1], np.zeros((2, 2))):
        with rep.case([name, "heat map", str(type(m)), m.shape]):
            with unchanged(m):
                fig, axs = viz.plot_mat_heat_map(m, show=False, title="x")
                heat(axs[0], dense(m))


def heat(ax, M):
    im = ax.images
    need(len(im) == 1, lambda: f"{len(im)} images drawn")
    A = np.ma.getdata(im[0].get_array())
    need(A.shape == M.shape and np.allclose(np.asarray(A, dtype=float), M), "the heat map shows another matrix")


# ------------------------------------------------------------------ decoding graphs
def dec_drawn(ax, cax, nodes, edges, labels, weights, label_edges, title):
    """edges: pairs of nodes; labels: {node: text} of distinct texts, or None."""
    pts = [tuple(np.round(p, 9)) for c in ax.collections if hasattr(c, "get_offsets") for p in np.asarray(c.get_offsets())]
    need(len(pts) == len(set(pts)) == len(nodes), lambda: f"{len(pts)} nodes drawn for {len(nodes)}")
    arrows = [t for t in ax.texts if getattr(t, "arrow_patch", None) is not None]
    plain = [t for t in ax.texts if getattr(t, "arrow_patch", None) is None]
    segs = [(tuple(np.round(t.xy, 9)), tuple(np.round(t.xyann, 9)), tuple(np.round(t.arrow_patch.get_edgecolor(), 6))) for t in arrows]
    need(len(segs) == len(edges), lambda: f"{len(segs)} edges drawn for {len(edges)}")
    need(all(a in pts and b in pts for a, b, _ in segs), "an edge does not end at nodes")
    texts = [(tuple(np.round(t.get_position(), 9)), t.get_text()) for t in plain]
    if labels is not None:
        at = {}
        for p, t in texts:
            if p in pts:
                need(p not in at, "two labels at one node")
                at[p] = t
        want = {n: str(labels[n]) for n in nodes if n in labels}
        need(sorted(at.values()) == sorted(want.values()), lambda: f"node labels {sorted(at.values())[:9]}, expected {sorted(want.values())[:9]}")
        if len(set(want.values())) == len(nodes):
            got = sorted(tuple(sorted((at[a], at[b]))) for a, b, _ in segs)
            exp = sorted(tuple(sorted((want[a], want[b]))) for a, b in edges)
            need(got == exp, "edges drawn between other nodes")
            col = {tuple(sorted((at[a], at[b]))): c for a, b, c in segs}
            byw = {}
            for (a, b), w in zip(edges, weights):
                byw.setdefault(round(float(w), 9), set()).add(col[tuple(sorted((want[a], want[b])))])
            need(all(len(c) == 1 for c in byw.values()), "equal weights in different colours")
            if len(byw) <= 11 and len(byw) > 1:
                need(len({next(iter(c)) for c in byw.values()}) == len(byw), "different weights in one colour")
        rest = [t for p, t in texts if p not in pts]
    else:
        rest = [t for p, t in texts]
    want = sorted(f"{float(w):.2f}" for w in weights) if label_edges else []
    need(sorted(rest) == want, lambda: f"edge labels {sorted(rest)[:6]}, expected {want[:6]}")
    need(ax.get_title() == title, lambda: f"title {ax.get_title()!r}")
    need(cax.get_ylabel() == "weight", "colour bar")
    if weights:
        lim = sorted(cax.get_ylim())
        need(lim[0] <= min(weights) + 1e-9 and lim[1] >= max(weights) - 1e-9, lambda: f"colour bar range {lim}")


def dec_graphs(rep, name, backend):
    mpl, plt, viz = mods()
    from flamingpy.decoders.decoder import assign_weights
    from flamingpy.decoders.mwpm.algos import build_match_graph

    dims, ec0, bd, noise = eval(name)
    code = make_code(dims, ec0, bd, backend=backend)
    ref = ref_of(dims, ec0, bd)
    syndromes = [()] + [(q,) for q in ref.qubits[:: max(1, len(ref.qubits) // 4)]] + [tuple(ref.qubits[::3]), tuple(ref.qubits)]
    for si, syn in enumerate(syndromes):
        for wk in ("uniform", "varied", "UF"):
            set_bits(code, syn)
            clear_states(code)
            if wk == "UF":
                set_states(code, ref.box.dual()[::2] if ec0 == "primal" else ref.box.primal()[::2])
                assign_weights(code, "UF", method="uniform")
                for ec in code.ec:
                    getattr(code, ec + "_stab_graph").assign_weights(code)
            else:
                set_weights(code, {q: 1 if wk == "uniform" else 1 + (i * 7 % 10) / 4 for i, q in enumerate(sorted(code.graph.nodes))})
            for ec in code.ec:
                g = getattr(code, ec + "_stab_graph")
                nodes = [n for n in g.nodes() if n not in ("low", "high")]
                edges = [e for e in g.edges() if not {"low", "high"} & {x for x in e if isinstance(x, str)}]
                ws = [g.edge_data(*e)["weight"] for e in edges]
                for le, nl, title, via in it.product((False, True), (None, "all", "some", "more"), ("", "T"), (0, 1, 2)):
                    if via == 2 and backend != "networkx":
                        continue
                    if si and (via, title) != (0, ""):
                        continue
                    labels = None if nl is None else {n: i for i, n in enumerate(nodes) if nl != "some" or i % 2}
                    if nl == "more":
                        labels.update({"low": -1, "high": -2, (99, 99, 99): 77})
                    with rep.case([name, backend, ec, "stabilizer graph", [syn, wk, le, nl, title, via]]):
                        keep = copy.copy(labels)
                        with unchanged(code, g):
                            kw = dict(label_edges=le, node_labels=labels, title=title)
                            fig, axs = (code.draw_stabilizer_graph(ec, **kw) if via == 0 else g.draw(**kw) if via == 1 else viz.draw_dec_graph(g, **kw))
                            need(labels == keep, "drawing changed the labels given to it")
                            dec_drawn(axs[0], axs[1], nodes, edges, labels, ws, le, title)
                if wk == "UF":
                    continue
                m = build_match_graph(code, ec, backend)
                if not len(m.graph):
                    continue
                nx_m = m if hasattr(m.graph, "edges") and not callable(getattr(m.graph, "weighted_edge_list", None)) else m.to_nx()
                nodes = list(nx_m.graph.nodes)
                edges = list(nx_m.graph.edges)
                ws = [nx_m.graph.edges[e]["weight"] for e in edges]
                for le, nl, title in it.product((False, True), (None, "all", "some"), ("", "T")):
                    labels = None if nl is None else {n: i for i, n in enumerate(nodes) if nl != "some" or i % 2}
                    with rep.case([name, backend, ec, "matching graph", [syn, wk, le, nl, title]]):
                        with unchanged(code, m):
                            fig, axs = m.draw(label_edges=le, node_labels=labels, title=title)
                            dec_drawn(axs[0], axs[1], nodes, edges, labels, ws, le, title)
                rep.seen((len(nodes), len(edges)))
    rep.sample([name, backend])


# ------------------------------------------------------------------ syndrome and decoding plots
def faces(ax):
    """[(centre of the face, rgb)] of all polygons."""
    res = []
    for c in ax.collections:
        if hasattr(c, "_vec") and hasattr(c, "_segslices"):
            V = np.asarray(c._vec)[:3].T
            col = np.atleast_2d(c._facecolor3d if getattr(c, "_facecolor3d", None) is not None else c.get_facecolor())
            for i, s in enumerate(c._segslices):
                res.append((V[s].mean(axis=0), tuple(round(float(x), 2) for x in col[i % len(col)][:3]), V[s]))
    return res


def syndrome_drawn(code, ref, ec, ax, bits, o, labels, extra_text=0):
    cubes = {}
    mids = [(swap(mid), c) for c, mid in ((c, c) for c in ref.check_list)]
    fs = faces(ax)
    need(len(fs) == 6 * len(ref.check_list), lambda: f"{len(fs)} faces drawn for {len(ref.check_list)} checks")
    for centre, col, V in fs:
        near = [c for m, c in mids if max(abs(a - b) for a, b in zip(centre, m)) < 1]
        need(len(near) == 1, lambda: f"a face at {centre} belongs to {len(near)} checks")
        need(all(max(abs(a - b) for a, b in zip(v, swap(near[0]))) < 1 for v in V), "a cube reaches beyond its check")
        cubes.setdefault(near[0], []).append((tuple(np.round(centre, 3)), col))
    for c in ref.check_list:
        par = sum(bits.get(q, 0) for q in ref.checks[c]) % 2
        need(c in cubes and len(cubes[c]) == 6, lambda: f"check {c} has {len(cubes.get(c, []))} faces")
        need(len({p for p, _ in cubes[c]}) == 6, lambda: f"the faces of check {c} coincide")
        want = (1.0, 0.0, 0.0) if par else (0.0, 1.0, 0.0)
        need({k for _, k in cubes[c]} == {want}, lambda: f"check {c} of parity {par} is drawn in {cubes[c][0][1]}")
    texts = texts3d(ax)
    if not (o.get("show_nodes") and o.get("label")):
        want = []
        if labels:
            if o["label_stabilizers"]:
                want += [(swap(s.midpoint()), str(labels[s])) for s in getattr(code, ec + "_stabilizers") if s in labels]
            if o["label_boundary"]:
                want += [(swap(p), str(labels[p])) for p in getattr(code, ec + "_bound_points")]
        got = sorted((tuple(round(x, 6) for x in p), t) for p, t in texts)
        need(got == sorted(want), lambda: f"labels {got[:3]}.. expected {sorted(want)[:3]}..")
    if o["label_boundary"] and labels:
        pts = {p[:3] for p in points3d(ax)}
        for p in getattr(code, ec + "_bound_points"):
            need(swap(p) in pts, lambda: f"boundary point {p} is not marked")
    if o["show_nodes"]:
        graph_drawn(code.graph, ax, o["color_nodes"], o["color_edges"], None, extra_points=None)
    else:
        need(len(points3d(ax)) == (len(getattr(code, ec + "_bound_points")) if o["label_boundary"] and labels else 0), "points drawn without being asked for")
    leg = ax.get_legend()
    need((leg is not None and [t.get_text() for t in leg.get_texts()] == ["even parity", "odd parity"]) if o["legend"] else True, "legend of the checks")
    need([ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()] == ["x", "z", "y"], "axis names")
    for lim, a in zip((ax.get_xlim(), ax.get_ylim(), ax.get_zlim()), (0, 2, 1)):
        vs = [c[a] for c in ref.check_list]
        need(min(lim) <= min(vs) and max(lim) >= max(vs), lambda: f"axis range {lim} hides checks at {min(vs)}..{max(vs)}")


SYN = {
    "show_nodes": (False, True), "label_stabilizers": (True, False), "label_boundary": (False, True), "legend": (True, False),
    "show_title": (True, False), "label": (None, "bit_val"),
    "color_nodes": (("state", {"p": None, "GKP": None}), ("type", {"primal": "k", "dual": "grey"}), "g"),
}


def some_flips(ref):
    n = len(ref.qubits)
    return [[], [ref.qubits[0]], ref.qubits[:: 3], [ref.qubits[n // 2], ref.qubits[n // 3], ref.qubits[-1]]]


def syndromes(rep, name, part, parts, full):
    mpl, plt, viz = mods()
    dims, ec0, bd, noise = eval(name)
    code = make_code(dims, ec0, bd)
    ref = ref_of(dims, ec0, bd)
    flips = some_flips(ref)
    for i, o in enumerate(combos(SYN, full)):
        if i % parts != part:
            continue
        o = dict(o, color_edges="k", show_axes=True)
        for with_index in (True, False):
            fl = flips[i % len(flips)]
            set_bits(code, fl)
            g = getattr(code, ec0 + "_stab_graph")
            labels = {n: k for k, n in enumerate(x for x in g.nodes() if x not in ("low", "high"))} if with_index else None
            opts = {k: v for k, v in o.items() if k not in ("color_edges", "show_axes")}
            with rep.case([name, {k: str(v) for k, v in opts.items()}, with_index, len(fl)]):
                keep, kl = copy.deepcopy(opts), copy.copy(labels)
                with unchanged(code):
                    fig, ax = viz.syndrome_plot(code, ec0, index_dict=labels, drawing_opts=opts)
                    need(opts == keep and labels == kl, "drawing changed its arguments")
                    syndrome_drawn(code, ref, ec0, ax, {q: 1 for q in fl}, o, labels)
                    need(ax.get_title() == (ec0.capitalize() + " syndrome" if o["show_title"] else ""), lambda: f"title {ax.get_title()!r}")
                rep.seen((name, len(fl)))
    with rep.case([name, "defaults"]):
        with unchanged(code):
            fig, ax = viz.syndrome_plot(code, ec0)
    rep.sample([name])


DEC = {
    "show_recovery": (True, False), "label_stabilizers": (False, True), "label_boundary": (False, True), "label_edges": (False, True),
    "show_nodes": (False, True), "show_title": (True, False), "legend": (True, False),
}


def decodings(rep, name, dec, backend, part, parts, full):
    """draw_decoding through the decoders: every combination of on/off options."""
    mpl, plt, viz = mods()
    from flamingpy.decoders import correct
    from flamingpy.decoders.decoder import assign_weights
    import flamingpy.decoders.mwpm.algos as ma
    import flamingpy.decoders.unionfind.algos as ua

    f = {"MWPM": ma.mwpm_decoder, "UF": ua.uf_decoder}[dec]
    dims, ec0, bd, noise = eval(name)
    cb = "networkx" if backend == "networkx" else "rustworkx"
    code, twin = (make_code(dims, ec0, bd, backend=cb) for _ in range(2))
    ref = ref_of(dims, ec0, bd)
    flips = some_flips(ref)
    for i, o in enumerate([None, {}] + list(combos(DEC, full))):
        if i % parts != part:
            continue
        for fl in flips[:: 1 if i % 3 == 0 else 3] if dec == "MWPM" else flips[i % 4 :][:1]:
            with rep.case([name, dec, backend, o, len(fl)], transitions=2):
                for c in (code, twin):
                    set_bits(c, fl)
                    clear_states(c)
                    assign_weights(c, dec, method="uniform")
                opts = copy.deepcopy(o)
                plain = f(twin, ec0, backend=backend)
                with unchanged(code):
                    rec = f(code, ec0, backend=backend, draw=True, drawing_opts=opts)
                    need(set(rec) == set(plain), "the recovery differs when the decoding is drawn")
                    need(opts == o, "drawing changed the options given to it")
                    check_decoding(code, ref, ec0, dec, plt, fl, rec, o or {})
                again = f(code, ec0, backend=backend)
                need(set(again) == set(plain), "the recovery differs after the decoding was drawn")
                need(correct(code, dec, draw=True, drawing_opts=opts, decoder_opts={"backend": backend}) == correct(twin, dec, decoder_opts={"backend": backend}), "verdict")
                need(get_bits(code) == get_bits(twin), "bits after a drawn correction")
                rep.seen((dec, len(fl), len(rec)))
    rep.sample([name, dec, backend])


def check_decoding(code, ref, ec, dec, plt, fl, rec, o):
    figs = [plt.figure(n) for n in plt.get_fignums()]
    three = [f for f in figs if any(hasattr(a, "get_zlim") for a in f.axes)]
    need(len(three) == 1, lambda: f"{len(three)} syndrome plots")
    ax = [a for a in three[0].axes if hasattr(a, "get_zlim")][0]
    odd = [c for c in ref.check_list if sum(q in set(fl) for q in ref.checks[c]) % 2]
    need(len(figs) == 2 + (dec == "MWPM" and bool(odd)), lambda: f"{len(figs)} figures for {len(odd)} odd checks")
    full = dict(show_nodes=False, color_nodes=("state", {"p": None, "GKP": None}), color_edges="k", label=None, legend=True, show_title=True, label_stabilizers=True, label_boundary=False)
    full.update(o)
    named = o.get("label_stabilizers") or o.get("label_boundary")
    g = getattr(code, ec + "_stab_graph")
    labels = {n: k for k, n in enumerate(x for x in g.nodes() if x not in ("low", "high"))} if named else None
    lines = lines3d(ax)
    syndrome_drawn(code, ref, ec, ax, {q: 1 for q in fl}, full, labels)
    want = "" if not o.get("show_title", True) else ("Syndrome and recovery" if o.get("show_recovery") and o.get("show_title") else ec.capitalize() + " syndrome")
    need(ax.get_title() == want, lambda: f"title {ax.get_title()!r}, expected {want!r}")
    dots = sorted(pts[0] for pts, c, l in lines if len(pts) == 1 and l is not None and l.get_marker() == "o" and c == (0.0, 0.0, 0.0))
    need(dots == (sorted(swap(q) for q in rec) if o.get("show_recovery") and dec == "UF" else []), lambda: f"recovery {sorted(rec)} drawn as {dots}")
    paths = [pts for pts, c, l in lines if l is not None and len(pts) > 1 and l.get_marker() == "o"]
    if not o.get("show_recovery") or dec == "UF":
        need(not paths, "paths drawn")
    else:
        # the paths join the odd checks in pairs or to boundary points, and flip exactly the recovery
        ends = [p for pts in paths for p in (pts[0], pts[-1])]
        mids = {swap(s.midpoint()) for s in getattr(code, ec + "_stabilizers")}
        oddm = sorted(swap(s.midpoint()) for s in getattr(code, ec + "_stabilizers") if s.parity)
        need(sorted(p for p in ends if p in mids) == oddm, lambda: f"paths end at {ends}, odd checks at {oddm}")
        at = {swap(c): c for c in ref.check_list}
        bound = {swap(q): q for q in ref.low + ref.high}
        flips, clear = {}, True
        for pts in paths:
            for a, b in zip(pts, pts[1:]):
                if a in bound or b in bound:
                    q = {bound[a] if a in bound else bound[b]}
                else:
                    need(a in at and b in at, lambda: f"a path goes through {a}, {b}")
                    q = ref.checks[at[a]] & ref.checks[at[b]]
                need(q, lambda: f"a path jumps from {a} to {b}")
                clear = clear and len(q) == 1
                for x in q:
                    flips[x] = flips.get(x, 0) ^ 1
        need(not clear or {q for q, v in flips.items() if v} == set(rec), lambda: f"the paths flip {flips}, the recovery is {rec}")


# ------------------------------------------------------------------ drawings inside a run
def drawings(backend):
    mpl, plt, viz = mods()
    return {
        "graph": lambda c: c.draw(),
        "graph labels": lambda c: c.graph.draw(label="index", color_nodes=("state", {"p": "b", "GKP": "gold"}), legend=True, title=True),
        "plotly": lambda c: c.draw(backend="plotly"),
        "adjacency": lambda c: c.graph.draw_adj(show=False),
        "stabilizer graph": lambda c: [c.draw_stabilizer_graph(ec, label_edges=True) for ec in c.ec] if weighted(c) else None,
        "syndrome": lambda c: [viz.syndrome_plot(c, ec, drawing_opts={"show_nodes": True, "label": "bit_val"}) for ec in c.ec] if bitted(c) else None,
        "decoding": lambda c: [viz.draw_decoding(c, ec, {}, {"label_stabilizers": True, "label_boundary": True}) for ec in c.ec] if weighted(c) and bitted(c) else None,
    }


def bitted(c):
    return all("bit_val" in d for n, d in c.graph.nodes(data=True) if any(n in getattr(c, ec + "_syndrome_coords") for ec in c.ec))


def weighted(c):
    return all("weight" in c.graph.nodes[q] for ec in c.ec for q in getattr(c, ec + "_syndrome_coords"))


def run(name, dec, noise, plan, backend):
    """Two trials with drawings at given points; the complete outcome."""
    mpl, plt, viz = mods()
    from flamingpy.decoders import correct
    from flamingpy.decoders.decoder import assign_weights
    from flamingpy.noise import CVLayer, IidNoise

    dims, ec0, bd, _ = eval(name)
    code = make_code(dims, ec0, bd, backend="networkx" if backend == "networkx" else "rustworkx")
    layer = CVLayer(code, delta=0.15, p_swap=0.4) if noise == "cv" else IidNoise(code, 0.3)
    wo = {"method": "blueprint", "integer": False, "delta": 0.15} if noise == "cv" and dec == "MWPM" else {"method": "uniform"}
    D = drawings(backend)
    step = 0
    res = []

    def point():
        nonlocal step
        for op in plan.get(step, ()):
            s = snap_code(code)
            D[op](code)
            same(s, snap_code(code))
        plt.close("all")
        step += 1

    point()
    for trial in (1, 2):
        layer.apply_noise(np.random.default_rng(trial))
        point()
        assign_weights(code, dec, **wo)
        for ec in code.ec:
            getattr(code, ec + "_stab_graph").assign_weights(code)
        point()
        v = correct(code, dec, weight_options=wo, decoder_opts={"backend": backend})
        point()
        s = snap_code(code)["graph"]
        res.append([bool(v), s["qubits"], s["bonds"]])
    return res, step


def history(rep, name, dec, noise, backend, first, deep):
    base, steps = run(name, dec, noise, {}, backend)
    names = list(drawings(backend))
    rest = [None] + [(s, o) for s in range(first[0], steps) for o in names if (s, o) > tuple(first)]
    plans = [{first[0]: [first[1]]}]
    for x in rest[1:]:
        p = {first[0]: [first[1]]}
        p.setdefault(x[0], []).append(x[1])
        plans.append(p)
    if deep:
        plans += [{s: [o1] if s % 2 else [o2] for s in range(steps)} for o1 in names for o2 in names]
    for plan in plans if deep else plans[:: 2]:
        with rep.case([name, dec, noise, backend, {str(k): v for k, v in plan.items()}], transitions=3):
            res, _ = run(name, dec, noise, plan, backend)
            need(res == base, lambda: f"the outcome of the run differs: {diff(base, res)}")
    rep.seen(str([r[0] for r in base]))
    rep.sample([name, dec, noise, first])


# ------------------------------------------------------------------ labels and plots of GKP quantities
PI2 = math.sqrt(math.pi) / 2


def stated(s, tex):
    if tex:
        if s == "0":
            return 0
        need(s.startswith("$") and s.endswith("$") and len(s) > 2, lambda: f"label {s!r} is not in math mode")
        s = s[1:-1]
    if s == "0":
        return 0
    m = re.fullmatch(r"(-?)(\d*)\\sqrt\{\\pi\}(/2)?", s)
    need(m, lambda: f"label {s!r} is not a multiple of the square root of pi")
    n = int(m.group(2)) if m.group(2) else 1
    need(m.group(2) not in ("0", "1"), lambda: f"label {s!r}")
    need(not m.group(3) or n % 2, lambda: f"label {s!r} is not in lowest terms")
    return (-1 if m.group(1) else 1) * n * (1 if m.group(3) else 2)


def labels(rep, lo, hi):
    mpl, plt, viz = mods()
    for k in range(lo, hi):
        for tex in (True, False):
            for d in (0, 2, 5):
                for eps in (0, 1e-10, -1e-10):
                    for typ in (float, np.float64):
                        with rep.case([k, tex, d, eps]):
                            x = typ(k * PI2 + eps)
                            s = viz.to_pi_string(x, tex=tex, d=d)
                            need(stated(s, tex) == k, lambda: f"{k} halves are labelled {s!r}")
                            need(viz.PiFormatter(tex=tex, d=d)(x, 3) == s, "formatter")
                            need(eps or d != 2 or not tex or viz.to_pi_string(x) == s, "default label")
    rep.seen((lo, hi))


def decimals(rep, lo, hi):
    mpl, plt, viz = mods()
    for i in range(lo, hi):
        x = i * 0.0123
        if abs(math.remainder(x, PI2)) < 1e-6:
            continue
        for d in (0, 1, 2, 3, 8):
            for tex in (True, False):
                with rep.case([x, d, tex]):
                    s = viz.to_pi_string(x, tex=tex, d=d)
                    need(re.fullmatch(r"-?\d+" + (r"\.\d{%d}" % d if d else ""), s), lambda: f"{x} is labelled {s!r} with {d} decimals")
                    need(abs(float(s) - x) <= 0.5 * 10.0**-d + 1e-12, lambda: f"{x} is labelled {s!r}")
                    need(viz.PiFormatter(tex=tex, d=d)(x) == s, "formatter")
    for k in range(-20, 21):  # next to a multiple
        for e in (1e-4, -1e-4, 0.01, -0.01):
            with rep.case([k, e]):
                x = k * PI2 + e
                s = viz.to_pi_string(x, d=6)
                need(abs(float(s) - x) <= 1e-6, lambda: f"{x} is labelled {s!r}")
    rep.seen((lo, hi))


def gkp_plots(rep, lo):
    mpl, plt, viz = mods()
    from flamingpy.cv import gkp

    alpha = math.sqrt(math.pi)
    for hi in range(lo + 1, 14):
        xs = np.linspace(lo * alpha + 0.1, hi * alpha - 0.1, 7 + hi - lo)
        ns, fs = gkp.integer_fractional(xs, alpha)
        bits = gkp.GKP_binner(xs)
        for which in ("integer", "fractional", "bins", "Z", "Z central"):
            for show in (False, True):
                with rep.case([lo, hi, which, show]):
                    with unchanged(xs, ns, fs, bits):
                        if which == "integer":
                            y, (fig, ax) = ns, viz.plot_integer_part(xs, ns, alpha, show)
                        elif which == "fractional":
                            y, (fig, ax) = fs, viz.plot_fractional_part(xs, fs, alpha, show)
                        elif which == "bins":
                            y, (fig, ax) = bits, viz.plot_GKP_bins(xs, bits, alpha, show)
                        else:
                            use = which == "Z"
                            y = gkp.Z_err_cond([0.1] * len(xs), xs, use_hom_val=use)
                            fig, ax = viz.plot_Z_err_cond(xs, y, alpha, use, show)
                        need(len(ax.lines) == 1, "curves drawn")
                        X, Y = ax.lines[0].get_data()
                        want = gkp.GKP_binner(xs, return_fraction=True)[1] if which == "Z central" else xs
                        need(np.array_equal(X, want) and np.array_equal(np.asarray(Y, dtype=float), np.asarray(y, dtype=float)), "other data are drawn")
                        ticks = np.asarray(ax.get_xticks())
                        first, last = (-0.5, 0.5) if which == "Z central" else (lo, hi)
                        exp = [(first + i) * alpha for i in range(int(last - first) + 1)]
                        need(len(ticks) == len(exp) and np.allclose(ticks, exp), lambda: f"ticks at {list(ticks / alpha)[:5]} bin widths instead of {first}..{last}")
                        fmt = ax.xaxis.get_major_formatter()
                        for t, e in zip(ticks, exp):
                            need(stated(fmt(t), True) == round(e / PI2), lambda: f"tick at {t} labelled {fmt(t)}")
                        if which == "bins":
                            need(list(ax.get_yticks()) == [0, 1], "ticks of the bit values")
                rep.seen((which, hi - lo))
    rep.sample([lo])


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for name in SMALL:
        full = True if deep else "looks" if name == "attributes" else False
        n = 8 if full else 2
        for part in range(n):
            J.append(("draw_mpl", dict(name=name, full=full, part=part, parts=n)))
        for part in range(2):
            J.append(("draw_plotly", dict(name=name, full=full, part=part, parts=2)))
    for name in CODES:
        n = 24 if deep else 4
        for part in range(n):
            if deep or name not in (CODES[2], CODES[3]):
                J.append(("draw_mpl", dict(name=name, full=deep and name in CODES[:2], part=part, parts=n)))
        J.append(("draw_plotly", dict(name=name, full=deep, part=0, parts=1)))
        J.append(("draw_others", dict(name=name)))
    for name in (CODES if deep else (CODES[0], CODES[1], CODES[3], CODES[5])):
        for backend in ("networkx", "rustworkx"):
            J.append(("dec_graphs", dict(name=name, backend=backend)))
    for name in (CODES if deep else (CODES[0], CODES[1], CODES[4])):
        for part in range(4):
            J.append(("syndromes", dict(name=name, part=part, parts=4, full=deep or name == CODES[0])))
        for dec, backend in (("MWPM", "rustworkx"), ("MWPM", "networkx"), ("MWPM", "lemon"), ("UF", "rustworkx"), ("UF", "networkx")):
            if not deep and backend in ("networkx", "lemon") and name != CODES[0]:
                continue
            for part in range(6):
                J.append(("decodings", dict(name=name, dec=dec, backend=backend, part=part, parts=6, full=deep or (name, backend) == (CODES[0], "rustworkx"))))
    for name in ((CODES[0], CODES[1], CODES[5]) if deep else CODES[:1]):
        for dec in ("MWPM", "UF"):
            for noise in ("iid", "cv"):
                for backend in ("networkx", "rustworkx") if deep else ("rustworkx" if noise == "iid" else "networkx",):
                    for s in range(7):
                        for op in ("graph", "graph labels", "plotly", "adjacency", "stabilizer graph", "syndrome", "decoding"):
                            J.append(("history", dict(name=name, dec=dec, noise=noise, backend=backend, first=[s, op], deep=deep)))
    for i, name in enumerate(LARGE):
        for part in (range(40) if deep else (3 + i, 17 + i, 30 - i)):
            J.insert(0, ("draw_mpl", dict(name=name, full=False, part=part, parts=40)))
            J.insert(0, ("draw_plotly", dict(name=name, full=False, part=part, parts=40)))
            J.insert(0, ("syndromes", dict(name=name, part=part, parts=40, full=False)))
            J.insert(0, ("decodings", dict(name=name, dec=("MWPM", "UF")[part % 2], backend="rustworkx", part=part, parts=40, full=False)))
        if deep or i == 1:
            J.insert(0, ("dec_graphs", dict(name=name, backend=("networkx", "rustworkx")[i % 2])))
    top = 10000 if deep else 3000
    for a, b in chunks(2 * top + 1, 600):
        J.append(("labels", dict(lo=a - top, hi=b - top)))
    for a, b in chunks(4000, 500):
        J.append(("decimals", dict(lo=a - 2000, hi=b - 2000)))
    for lo in range(-13, 13):
        J.append(("gkp_plots", dict(lo=lo)))
    return J
