"""C18: decoder weights follow the stated rules for every configuration."""
import sys

from mc.core import need
from mc.lib import *
from mc.c16 import exact_conditional

PROPERTY = "C18"
BOUNDS = {
    "quick": "20 codes of every complex and boundary x both backends: for every syndrome qubit all states of it and its neighbours (and all state labellings of "
    "2x2x2 codes), with every method; 40 precomputed probabilities x 9 rounding options; 13 noise strengths x outcomes to 40 bins x 16 positions for corner, edge and bulk "
    "qubits; every sequence of 3 assignments out of 8 on one code object; every refused combination; weights after whole corrections, also on codes to 5x5x5 and 13x2x2",
    "thorough": "as quick with labellings of 18 sites, sequences of 4 and a grid four times denser",
}
ASSUMPTIONS = ["states are given as 'GKP' or 'p'; outcomes at bin edges excluded", "delta times five up to 10 (the range of the truncated sums)",
               "natural logarithms; weights to relative accuracy 1e-6"]
TINY = sys.float_info.min
SWAPPED = {2: 1 / 4, 3: 1 / 3, 4: 2 / 5}
CODES = [((2, 2, 2), "open"), ((3, 3, 3), "open"), ((2, 3, 2), "open"), ((4, 2, 3), "open"), ((2, 2, 4), "open"), ((3, 2, 2), "toric"), ((3, 3, 3), "toric"),
         ((4, 3, 2), "toric"), ((2, 2, 2), "toric"), ((3, 3, 3), "periodic"), ((3, 4, 3), "periodic")]


def neighbours(ref, q):
    return [v for v in ref.box.around(q) if v in ref.sites]


def log_weight(p):
    return -math.log(max(min(p, 0.5), TINY))


def analog(ref, q, p_points, prob=None, delta=None, hom=None):
    """Blueprint weight of q, or None where the exact sums underflow."""
    nb = neighbours(ref, q)
    k = sum(v in p_points for v in nb)
    if k >= 2:
        return -math.log(SWAPPED[k])
    if prob is not None:
        return None if 0 < prob < TINY else log_weight(prob)  # subnormal: any large weight
    v = (len(nb) + 1) * delta
    p, safe = exact_conditional(v, hom, "frac")
    r = hom / math.sqrt(math.pi)
    r = abs(r - math.floor(r + 0.5)) * math.sqrt(math.pi)
    if not safe:
        return -math.log(TINY) if r * r / v > 760 else None
    if p and p < 1e-300:
        return None
    return log_weight(p)


def uniform(ref, q, p_points, decoder):
    if decoder == "UF":
        return -1 if sum(v in p_points for v in neighbours(ref, q)) >= 2 else 2
    return 1


def rounded(w, opts):
    """Set of acceptable weights under the rounding options."""
    if not opts.get("integer"):
        return None
    x = opts.get("multiplier", 1) * w
    return {round(x - 1e-6 * (1 + abs(x))), round(x), round(x + 1e-6 * (1 + abs(x)))}


def compare(code, ref, want, opts, what):
    """Every qubit has its weight, on the lattice and on the decoding graph."""
    nodes = code.graph.nodes
    g = getattr(code, ref.ec + "_stab_graph")
    for q in ref.qubits:
        w = nodes[q].get("weight")
        x = want(q)
        need(w is not None, lambda: f"{what}: no weight on {q}")
        need(isinstance(w, (int, float, np.integer, np.floating)) and math.isfinite(w), lambda: f"{what}: weight {w!r} on {q}")
        need(w >= 0 or w == -1 == x, lambda: f"{what}: weight {w} on {q}")
        if x is None:
            continue
        ok = rounded(x, opts)
        if ok and opts.get("method") == "blueprint":
            need(isinstance(w, (int, np.integer)), lambda: f"{what}: weight {w!r} on {q} is not an integer")
            need(w in ok, lambda: f"{what}: weight {w} on {q}, stated {x} times {opts.get('multiplier', 1)}")
        else:
            need(abs(w - x) <= 1e-6 * (1e-3 + abs(x)), lambda: f"{what}: weight {w} on {q}, stated {x}")
    for a, b in g.edges():
        d = g.edge_data(a, b)
        v = d["common_vertex"]
        if v is None:
            need(d["weight"] == 0, lambda: f"{what}: connector edge weighs {d['weight']}")
        else:
            need(d["weight"] == nodes[v]["weight"], lambda: f"{what}: edge of {v} weighs {d['weight']}, its qubit {nodes[v]['weight']}")


def others(code, ref):
    """All the attributes that weight assignment has no business with."""
    res = {}
    for p, d in code.graph.nodes.data():
        res[p] = {k: v for k, v in d.items() if not (k == "weight" and p in ref.index)}
    return repr(res), [repr(e) for e in code.graph.edges(data=True)]


def put(code, ref, p_points, prob=None, hom=None):
    set_states(code, p_points)
    for i, (p, d) in enumerate(sorted(code.graph.nodes.data())):
        d["bit_val"] = i % 2
        d.pop("weight", None)
        if prob is not None:
            d["p_phase_cond"] = prob(p)
        if hom is not None:
            d["hom_val_p"] = hom(p)


METHODS = [("UF", {}), ("MWPM", {}), ("MWPM", {"method": "uniform", "integer": True, "multiplier": 7}), ("UF", {"method": "uniform", "multiplier": 3}),
           ("MWPM", {"method": "blueprint", "prob_precomputed": True}), ("MWPM", {"method": "blueprint", "delta": 0.09}),
           ("MWPM", {"method": "blueprint", "prob_precomputed": True, "integer": True, "multiplier": 100}),
           ("MWPM", {"method": "blueprint", "prob_precomputed": False, "delta": 0.02, "integer": True})]


def rule(ref, decoder, opts, p_points, prob, hom):
    if opts.get("method", "uniform") == "uniform":
        return lambda q: uniform(ref, q, p_points, decoder)
    if opts.get("prob_precomputed"):
        return lambda q: analog(ref, q, p_points, prob=prob(q))
    return lambda q: analog(ref, q, p_points, delta=opts["delta"], hom=hom(q))


def h(p, k=0):
    return (sum(c * m for c, m in zip(p, (31, 17, 7))) + 13 * k) % 64


def prob_of(p, k=0):
    return [0.0, 1e-12, 0.003, 0.2, 0.49, 0.5, 0.6, 1.0, 1e-310, 0.0317][h(p, k) % 10]


def hom_of(p, k=0):
    return (h(p, k) - 30.3) * 0.29


def one(rep, code, ref, p_points, menu, what, salt=0):
    from flamingpy.decoders.decoder import assign_weights

    prob, hom = (lambda q: prob_of(q, salt)), (lambda q: hom_of(q, salt))
    put(code, ref, p_points, prob, hom)
    before = others(code, ref)
    for decoder, opts in menu:
        keep = dict(opts)
        assign_weights(code, decoder, **opts)
        need(opts == keep, "the options were changed")
        rep.transitions += 1
        compare(code, ref, rule(ref, decoder, opts, p_points, prob, hom), opts, f"{decoder} {opts}")
    need(others(code, ref) == before, "something other than the weights of syndrome qubits changed")


def patterns(rep, dims, ec, b, backend):
    """Every state pattern of each qubit's neighbourhood, including the qubit itself."""
    ref = ref_of(dims, ec, b)
    code = cached_code(dims, ec, b, backend)
    tall = {}
    for q in ref.qubits:
        nb = neighbours(ref, q)
        for own in (0, 1):
            for pat in subsets(nb, 0, len(nb)):
                pts = set(pat) | ({q} if own else set())
                if own:  # swapped-out syndrome qubits have no influence
                    pts |= set(ref.qubits)
                with rep.case([dims, ec, b, backend, q, sorted(pat), own]):
                    one(rep, code, ref, pts, METHODS[:2] + METHODS[4:6] if len(ref.qubits) < 25 or len(pat) < 3 else (METHODS[0], METHODS[4]), "", len(pat))
                rep.seen((len(nb), len(pat)))
    rep.sample([dims, ec, b, ref.qubits[0]])


def labellings(rep, dims, ec, b, backend, part, parts, cap):
    """Every labelling of the other complex of a small code."""
    ref = ref_of(dims, ec, b)
    code = cached_code(dims, ec, b, backend)
    other = sorted(p for p in ref.sites if p not in ref.index)[:cap]
    for m in range(part, 1 << len(other), parts):
        pts = {p for i, p in enumerate(other) if m >> i & 1}
        with rep.case([dims, ec, b, backend, m]):
            one(rep, code, ref, pts, METHODS[:2] + METHODS[4:5], "", m % 11)
    rep.seen((dims, ec, b, len(other)))


def probabilities(rep, dims, ec, b, backend, part, parts):
    """Precomputed probabilities of every size, under every rounding option."""
    from flamingpy.decoders.decoder import assign_weights

    ref = ref_of(dims, ec, b)
    code = cached_code(dims, ec, b, backend)
    ps = [0, 0.0, 5e-324, 1e-320, TINY, 2 * TINY, 1e-300, 1e-100, 1e-15, 1e-6, 0.5, math.nextafter(0.5, 0), math.nextafter(0.5, 1), 0.75, 1.0, 1]
    ps += [k / 25 for k in range(1, 25)]
    opts = [{}, {"integer": False, "multiplier": 50}, {"integer": True}] + [{"integer": True, "multiplier": m} for m in (1, 2, 10, 0.5, 1000, 123.4)]
    for k, p in enumerate(ps):
        if k % parts != part:
            continue
        for cast in (float, np.float64):
            for n, o in enumerate(opts):
                for npt in (0, 1, 2):
                    o2 = {"method": "blueprint", "prob_precomputed": True, **o}
                    pts = {v for i, v in enumerate(sorted(ref.sites - set(ref.index))) if npt and (i * 7 + n) % (5 - npt) == 0}
                    with rep.case([dims, ec, b, p, o, npt, cast.__name__]):
                        put(code, ref, pts, lambda q: cast(p))
                        assign_weights(code, "MWPM", **o2)
                        compare(code, ref, lambda q: analog(ref, q, pts, prob=p), o2, f"probability {p}, options {o}")
        rep.seen(p)


def outcomes(rep, dims, ec, b, delta, npos, kmax):
    """Outcomes of every size for every kind of neighbourhood."""
    from flamingpy.decoders.decoder import assign_weights

    ref = ref_of(dims, ec, b)
    code = cached_code(dims, ec, b)
    rt = math.sqrt(math.pi)
    xs = [(k + (2 * j + 1 - npos) / (2 * npos)) * rt for k in range(-kmax, kmax + 1) for j in range(npos)]
    by_deg = {}
    for q in ref.qubits:
        by_deg.setdefault(len(neighbours(ref, q)), []).append(q)
    rounds = max(math.ceil(len(xs) / len(v)) for v in by_deg.values())
    rank = {q: i for v in by_deg.values() for i, q in enumerate(v)}
    for r in range(rounds):
        hom = lambda q: xs[(r * len(by_deg[len(neighbours(ref, q))]) + rank[q]) % len(xs)] if q in rank else 0.1
        for o in ({}, {"integer": True, "multiplier": 20}) if r % 4 == 0 else ({},):
            with rep.case([dims, ec, b, delta, r, o], states=len(ref.qubits)):
                put(code, ref, (), hom=hom)
                o2 = {"method": "blueprint", "delta": delta, **o}
                assign_weights(code, "MWPM", **o2)
                compare(code, ref, lambda q: analog(ref, q, (), delta=delta, hom=hom(q)), o2, f"delta {delta}, outcomes {r}")
    rep.seen((delta, sorted(by_deg)))


def histories(rep, dims, ec, b, backend, first, depth):
    """Sequences of assignments, with changes of state between, on one code object."""
    from flamingpy.decoders.decoder import assign_weights

    ref = ref_of(dims, ec, b)
    code = make_code(dims, ec, b, backend)
    rest = sorted(ref.sites - set(ref.index))
    sets = [set(), set(rest), set(rest[::2])]
    for seq in it.product(range(len(METHODS)), repeat=depth - 1):
        seq = (first,) + seq
        with rep.case([dims, ec, b, backend, seq], transitions=depth):
            for i, m in enumerate(seq):
                pts = sets[(i + seq[-1]) % 3]
                prob, hom = (lambda q: prob_of(q, i)), (lambda q: hom_of(q, i))
                set_states(code, pts)
                for p, d in code.graph.nodes.data():
                    d["p_phase_cond"], d["hom_val_p"] = prob(p), hom(p)
                assign_weights(code, METHODS[m][0], **METHODS[m][1])
                compare(code, ref, rule(ref, *METHODS[m], pts, prob, hom), METHODS[m][1], f"step {i} of {seq}")
        rep.seen(seq[:2])


def refused(rep, ec, b):
    from flamingpy.decoders.decoder import assign_weights, correct

    dims = (3, 3, 3)
    ref = ref_of(dims, ec, b)
    for backend in ("rustworkx", "networkx"):
        for pts in (set(), set(ref.sites)):
            for extra in ({}, {"prob_precomputed": True}, {"delta": 0.1}, {"integer": True, "multiplier": 3}, {"prob_precomputed": True, "delta": 0.1, "integer": False}):
                for call in ("assign", "correct"):
                    with rep.case([ec, b, backend, len(pts), extra, call]):
                        code = cached_code(dims, ec, b, backend)
                        put(code, ref, pts, lambda q: 0.1, lambda q: 0.1)
                        before = get_bits(code)
                        try:
                            if call == "assign":
                                assign_weights(code, "UF", method="blueprint", **extra)
                            else:
                                correct(code, decoder="UF", weight_options={"method": "blueprint", **extra})
                        except Exception:
                            need(get_bits(code) == before, "refused, but bits were changed")
                            continue
                        need(False, "union-find with analog weights was not refused")
                rep.seen((call, backend))


def corrections(rep, dims, ec, b, backend):
    """After a whole correction with some options, the weights are those of the rules."""
    from flamingpy.decoders.decoder import correct

    ref = ref_of(dims, ec, b)
    code = make_code(dims, ec, b, backend)
    rest = sorted(ref.sites - set(ref.index))
    for n, pts in enumerate([set(), set(rest), set(rest[::3]), set(rest[1::2]), set(rest[:1])]):
        for decoder, opts in METHODS:
            for none in (False, True) if not opts else (False,):
                with rep.case([dims, ec, b, backend, n, decoder, opts, none]):
                    prob, hom = (lambda q: prob_of(q, n)), (lambda q: hom_of(q, n))
                    put(code, ref, pts, prob, hom)
                    keep = dict(opts)
                    correct(code, decoder=decoder, weight_options=None if none else opts)
                    need(opts == keep, "the options were changed")
                    compare(code, ref, rule(ref, decoder, opts, pts, prob, hom), opts, f"correct {decoder} {opts}")
    rep.seen((dims, ec, b, backend))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for k, (dims, b) in enumerate((((5, 5, 5), "open"), ((5, 5, 5), "toric"), ((4, 6, 5), "periodic"), ((13, 2, 2), "open"), ((3, 7, 4), "open"), ((2, 2, 9), "toric"))):
        for ec in ("primal", "dual"):
            J.append(("corrections", dict(dims=dims, ec=ec, b=b, backend=("rustworkx", "networkx")[(k + (ec == "dual")) % 2])))
    for dims, b in CODES:
        for ec in ("primal", "dual"):
            for n, backend in enumerate(("rustworkx", "networkx")):
                if not deep and (n and max(dims) > 3 or dims == (3, 4, 3) or n and b == "periodic"):
                    continue
                J.append(("patterns", dict(dims=dims, ec=ec, b=b, backend=backend)))
                J.append(("corrections", dict(dims=dims, ec=ec, b=b, backend=backend)))
    for ec in ("primal", "dual"):
        for part in range(4 if not deep else 16):
            J.append(("labellings", dict(dims=(2, 2, 2), ec=ec, b="open", backend="rustworkx", part=part, parts=4 if not deep else 16, cap=12 if not deep else 18)))
        for b in ("open", "toric", "periodic"):
            J.append(("refused", dict(ec=ec, b=b)))
            for part in range(2):
                J.append(("probabilities", dict(dims=(3, 3, 3) if b == "periodic" else (2, 3, 3), ec=ec, b=b, backend=("rustworkx", "networkx")[part], part=part, parts=2)))
        for first in range(len(METHODS)):
            J.append(("histories", dict(dims=(2, 2, 3), ec=ec, b="open", backend="rustworkx" if ec == "primal" else "networkx", first=first, depth=4 if deep else 3)))
    for n, delta in enumerate([1e-4, 1e-3, 3e-3, 0.01, 0.03, 0.06, 0.09, 0.12, 0.2, 0.35, 0.6, 1.0, 1.9]):
        J.append(("outcomes", dict(dims=(3, 3, 3), ec=("primal", "dual")[n % 2], b="open", delta=delta, npos=64 if deep else 16, kmax=40)))
        J.append(("outcomes", dict(dims=(3, 3, 3), ec=("dual", "primal")[n % 2], b=("periodic", "toric")[n % 2], delta=delta, npos=16, kmax=40 if deep else 20)))
    return J
