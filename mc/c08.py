"""C08: a trial's outcome does not depend on earlier trials."""
import itertools as it

from mc.core import need
from mc.lib import *
from mc.c01 import prepare  # noqa: F401

PROPERTY = "C08"
BOUNDS = {
    "quick": "for independent, CV (both sampling orders, drawn and supplied swap-outs, custom translator) and macronode noise, and CV and macronode noise alternating on one code, on open, toric and periodic 2x2x2-type codes: every "
    "history of up to 3 operations (noise of 2-3 objects x seeds, corrections by every decoder/weighting, weight assignments, verdicts) followed "
    "by every final trial, against a fresh code; histories of up to 2 with drawing; every double decoding of the syndromes met; "
    "runs of up to 120 consecutive trials in three orders on one code",
    "thorough": "as quick with histories of up to 4 operations",
}
ASSUMPTIONS = ["independent noise is not mixed with the others on one code object (it does not set state labels)", "two noise samples per setting in the histories"]


def noises(kind):
    """Noise settings by name: constructor of a noise object on a code."""
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    if kind == "iid":
        return {"a": lambda c: IidNoise(c, 0.3), "b": lambda c: IidNoise(c, 0.05)}
    if kind == "cv":
        return {
            "a": lambda c: CVLayer(c, delta=0.1, p_swap=0.4),
            "b": lambda c: CVLayer(c, delta=0.5, states={"p": np.array([1, 4, 6])}),
            "c": lambda c: CVLayer(c, delta=0.2),
        }
    if kind == "cv2":
        return {
            "a": lambda c: CVLayer(c, delta=0.1, p_swap=0.3, sampling_order="two-step"),
            "b": lambda c: CVLayer(c, delta=0.4, states={"p": [0, 3]}, sampling_order="two-step"),
            "c": lambda c: CVLayer(c, delta=0.3, p_swap=1, translator=lambda v: [int(x > 0.1) for x in v]),
        }
    if kind == "mixed":
        return {
            "a": lambda c: CVLayer(c, delta=0.15, p_swap=0.4),
            "b": lambda c: CVMacroLayer(c, delta=0.1, p_swap=0.5),
            "c": lambda c: CVLayer(c, delta=0.3, sampling_order="two-step"),
        }
    return {"a": lambda c: CVMacroLayer(c, delta=0.1, p_swap=0.5), "b": lambda c: CVMacroLayer(c, delta=0.05)}


def corrections(kind):
    res = {
        "mwpm": ("MWPM", {}, {"backend": "rustworkx"}),
        "mwpm-nx": ("MWPM", None, {"backend": "networkx"}),
        "uf": ("UF", {}, {}),
    }
    if kind == "mixed":
        res.pop("mwpm-nx")
        res["blueprint"] = ("MWPM", {"method": "blueprint", "delta": 0.15}, {"backend": "rustworkx"})
        res["blueprint-m"] = ("MWPM", {"method": "blueprint", "prob_precomputed": True}, {"backend": "rustworkx"})
    if kind.startswith("cv"):
        res["blueprint"] = ("MWPM", {"method": "blueprint", "delta": 0.1, "integer": True, "multiplier": 10}, {"backend": "lemon"})
        res["blueprint-f"] = ("MWPM", {"method": "blueprint", "delta": 0.3}, {"backend": "rustworkx"})
    if kind == "macro":
        res["blueprint"] = ("MWPM", {"method": "blueprint", "prob_precomputed": True}, {"backend": "rustworkx"})
    return res


def trials(kind):
    """The (noise, correction) pairs which make sense together."""
    res = list(it.product(noises(kind), corrections(kind)))
    if kind == "mixed":  # only macronode noise comes with the phase error probabilities
        res = [(n, c) for n, c in res if not c.startswith("blueprint") or (c == "blueprint-m") == (n == "b")]
    return res


FIELDS = ("state", "bit_val", "hom_val_p", "hom_val_q", "p_phase_cond")


class World:
    """One code with its noise objects, and the operations on it."""

    def __init__(self, kind, dims, ec, b, sg):
        self.kind = kind
        self.code = make_code(dims, ec, b, sg)
        self.objs = {}
        self.last = None

    def noise(self, name, seed, fresh=False):
        if fresh or name not in self.objs:
            self.objs[name] = noises(self.kind)[name](self.code)
        self.objs[name].apply_noise(np.random.default_rng(seed))
        self.last = name

    def correct(self, name, **kw):
        from flamingpy.decoders.decoder import correct

        dec, wo, do = corrections(self.kind)[name]
        before = get_bits(self.code)
        res = correct(self.code, dec, wo, decoder_opts=do, **kw)
        after = get_bits(self.code)
        return bool(res), tuple(sorted(set(before) ^ set(after)))

    def snapshot(self):
        G = self.code.graph
        fields, pts = FIELDS, sorted(G.nodes)
        if self.kind == "mixed":  # what only the other noise model writes may be left from it
            fields = ("state", "bit_val") + (("p_phase_cond",) if self.last == "b" else ("hom_val_p", "hom_val_q"))
            pts = sorted(self.code.all_syndrome_coords)
        return tuple((p, tuple((f, plain(G.nodes[p][f])) for f in fields if f in G.nodes[p])) for p in pts)

    def weights(self):
        G = self.code.graph
        ec = self.code.ec[0]
        g = getattr(self.code, ec + "_stab_graph")
        e = []
        for a, b in g.edges():
            k = [x if isinstance(x, (str, tuple)) else tuple(sorted(x.coords())) for x in (a, b)]
            e.append((sorted(map(str, k)), str(g.edge_data(a, b)["common_vertex"]), plain(g.edge_data(a, b).get("weight"))))
        return sorted(e), [(p, plain(G.nodes[p].get("weight"))) for p in sorted(self.code.all_syndrome_coords)]


def plain(x):
    return x.item() if isinstance(x, np.generic) else x


def alphabet(kind):
    ops = [("noise", n, s) for n in noises(kind) for s in (1, 2)]
    ops = ops[:4] if kind != "macro" else ops[:3]
    if len(noises(kind)) > 2:
        ops[-1] = ("noise", "c", 1)
    ops += [("renew", "a", 3)]
    ops += [("correct", c) for c in corrections(kind) if c != "mwpm-nx" and not (kind == "mixed" and c.startswith("blueprint"))]
    ops += [("weights", "UF"), ("verdict",)]
    return ops


def apply(w, op):
    from flamingpy.decoders.decoder import assign_weights, check_correction

    if op[0] == "noise":
        w.noise(op[1], op[2])
    elif op[0] == "renew":
        w.noise(op[1], op[2], fresh=True)
    elif op[0] == "correct":
        w.correct(op[1])
    elif op[0] == "weights":
        assign_weights(w.code, op[1])
    elif op[0] == "verdict":
        check_correction(w.code, sanity_check=True)
    elif op[0] == "draw":
        draw(w, op[1])


def draw(w, what):
    import matplotlib.pyplot as plt

    ec = w.code.ec[0]
    if what == "code":
        w.code.draw()
    elif what == "stab":
        apply(w, ("weights", "MWPM"))  # the drawing shows weights, so some must be assigned
        w.code.draw_stabilizer_graph(ec)
    elif what == "correct":
        w.correct("mwpm", draw=True, drawing_opts={"show_title": True})
    elif what == "correct-uf":
        w.correct("uf", draw=True)
    plt.close("all")


def final(w, name, seed, corr):
    """One trial: everything it produces."""
    w.noise(name, seed)
    s0 = w.snapshot()
    out = w.correct(corr)
    s1 = w.snapshot()
    wts = w.weights()
    return s0, out, s1, wts


def compare(got, want, tail):
    for part, a, b in zip(("noise", "verdict/recovery", "bits after correction", "weights"), got, want):
        if a != b:
            if part == "weights":
                d = [(x, y) for x, y in zip(a[0] + a[1], b[0] + b[1]) if x != y][:2]
            elif isinstance(a, tuple) and len(a) == len(b):
                d = [(x, y) for x, y in zip(a, b) if x != y][:2]
            else:
                d = (a, b)
            need(False, f"{part} differs from a fresh code in the trial {tail}: (after history, fresh) {str(d)[:500]}")


def histories(rep, kind, dims, ec, b, sg, depth, part, parts, draws=False):
    ops = alphabet(kind)
    if draws:
        ops = ops[:2] + [("draw", d) for d in ("code", "stab", "correct", "correct-uf")] + ops[-3:-2]
    finals = [(n, s, c) for i, (n, c) in enumerate(trials(kind)) for s in (1 + i % 2,)]
    if kind == "macro":
        finals = finals[::2] + finals[1:2]
    fresh = {}
    for f in finals:
        fresh[f] = final(World(kind, dims, ec, b, sg), *f)
    k = 0
    for n in range(1, depth + 1):
        for h in it.product(ops, repeat=n):
            if h[0][0] not in ("noise", "renew") and not (draws and h[0][1] == "code"):
                continue  # nothing to decode yet
            if draws and not any(o[0] == "draw" for o in h):
                continue
            if draws and h[0][0] == "draw" and n > 1 and h[1][0] not in ("noise", "renew"):
                continue
            k += 1
            if k % parts != part:
                continue
            with rep.case([kind, dims, ec, b, sg, "history", h], transitions=n):
                w = World(kind, dims, ec, b, sg)
                for o in h:
                    apply(w, o)
                # the finals follow one another: a longer history still
                for f in finals if n < 3 else [finals[k % len(finals)], finals[(k // len(finals)) % len(finals)]]:
                    rep.transitions += 2
                    compare(final(w, *f), fresh[f], f)
                    rep.seen((kind, f[2], fresh[f][1][0]))
    if k:
        rep.sample([kind, dims, ec, b, h, f])


def twice(rep, kind, dims, ec, b, sg):
    """Decoding the same bits again gives the same answer."""
    w = World(kind, dims, ec, b, sg)
    for n in noises(kind):
        for seed in range(4):
            w.noise(n, seed)
            bits = {p: d.get("bit_val") for p, d in w.code.graph.nodes.data()}
            for c1, c2 in it.product([c for m, c in trials(kind) if m == n], repeat=2):
                with rep.case([kind, dims, ec, b, sg, n, seed, c1, c2], transitions=3):
                    outs = []
                    for c in (c1, c2, c1):
                        for p, v in bits.items():
                            if v is not None:
                                w.code.graph.nodes[p]["bit_val"] = v
                        outs.append((w.correct(c), w.weights()))
                    need(outs[0] == outs[2], lambda: f"decoding again gives {outs[2][0]}, first {outs[0][0]}")


def long_run(rep, kind, dims, ec, b, sg, seeds, order):
    """One code for a long sequence of trials, each compared with a fresh code."""
    w = World(kind, dims, ec, b, sg)
    run = [(n, s, c) for s in range(seeds) for n, c in trials(kind)]
    run = [t for k in range(order) for t in run[k::order]]
    if order % 2 == 0:
        run.reverse()
    fresh = {}
    for i, f in enumerate(run + run[::-1]):
        with rep.case([kind, dims, ec, b, sg, "long run", order, "trial", i, f], transitions=2):
            if f not in fresh:
                fresh[f] = final(World(kind, dims, ec, b, sg), *f)
            compare(final(w, *f), fresh[f], f)


def jobs(tier):
    deep = tier == "thorough"
    J = []
    confs = [
        ("cv", (2, 2, 2), "primal", "open", "rustworkx"), ("cv2", (2, 2, 2), "dual", "open", "networkx"),
        ("iid", (2, 2, 2), "primal", "open", "networkx"), ("macro", (2, 2, 2), "primal", "open", "rustworkx"),
        ("iid", (2, 2, 2), "dual", "toric", "rustworkx"), ("cv", (2, 2, 2), "dual", "periodic", "rustworkx"),
        ("macro", (2, 2, 2), "dual", "periodic", "rustworkx"), ("cv2", (3, 2, 2), "primal", "toric", "rustworkx"),
        ("macro", (2, 2, 2), "primal", "toric", "networkx"),
        ("mixed", (2, 2, 2), "primal", "open", "rustworkx"), ("mixed", (2, 2, 2), "dual", "toric", "networkx"),
    ]
    for i, (kind, dims, ec, b, sg) in enumerate(confs):
        depth = (3 if b == "open" or kind == "iid" else 2) + deep
        parts = 16 if b == "open" else 8
        for part in range(parts):
            J.append(("histories", dict(kind=kind, dims=dims, ec=ec, b=b, sg=sg, depth=depth, part=part, parts=parts)))
        for order in (1, 2, 5):
            J.append(("long_run", dict(kind=kind, dims=dims, ec=ec, b=b, sg=sg, seeds=6 if not deep else 20, order=order)))
            if b == "open" and order < 5:
                J.append(("long_run", dict(kind=kind, dims=(3, 3, 3) if kind not in ("macro", "mixed") else (2, 3, 2), ec=ec, b=b, sg=sg, seeds=2 if not deep else 10, order=order)))
        J.append(("twice", dict(kind=kind, dims=dims, ec=ec, b=b, sg=sg)))
        if i < 4 or deep:
            for part in range(4):
                J.append(("histories", dict(kind=kind, dims=dims, ec=ec, b=b, sg=sg, depth=2, part=part, parts=4, draws=True)))
    return J
