"""C09: continuous-variable noise follows the model for any random draws."""
import itertools as it

from mc.core import need
from mc.lib import *

PROPERTY = "C09"
BOUNDS = {
    "quick": "graph states on <= 5 modes (all connected weighted shapes listed, bonds 1, +-1, or fractional and large): every swap-out pattern x perfect-qubit pattern of size <= 2 x both sampling orders x both "
    "quadratures, response to every unit draw; every ordered set of <= 3 measured modes; codes of every boundary: swap-out patterns of size <= 2 and "
    "complements (supplied), every binomial outcome x structured choices (drawn), every unit draw, 1-3 applications, bits under both translators; "
    "3x4x4 codes with 8 structured swap-out patterns, every unit draw",
    "thorough": "as quick with 4x4x4 codes, 6-mode graphs, swap-out patterns of size <= 3 on codes and more sizes",
}
ASSUMPTIONS = ["outcomes are linear in the draws (checked on unit draws and one generic draw)", "bin edges aside"]
RT = math.sqrt(math.pi)
ORDERS = ("initial", "two-step")


class Stream:
    """A random generator whose normals, uniforms and integers are scripted streams."""

    def __init__(self, normals=(), uniforms=(), ints=(), binomial=None, choice=None, expect=None):
        self.z, self.u, self.i = normals, uniforms, ints
        self.nz = self.nu = self.ni = 0
        self.bino, self.ch, self.expect = binomial, choice, expect
        self.log = []

    @staticmethod
    def _take(src, pos, n):
        if callable(src):
            return [src(pos + k) for k in range(n)]
        return [src.get(pos + k, 0) for k in range(n)] if isinstance(src, dict) else [0] * n

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        shape = np.broadcast_shapes(loc.shape, scale.shape) if size is None else tuple(np.atleast_1d(size))
        n = int(np.prod(shape))
        v = self._take(self.z, self.nz, n)
        self.nz += n
        out = loc + scale * np.array(v, dtype=float).reshape(shape)
        return float(out) if np.ndim(out) == 0 else out

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def random(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        v = self._take(self.u, self.nu, n)
        self.nu += n
        return float(v[0]) if size is None else np.array(v, dtype=float).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def integers(self, low, high=None, size=None, **kw):
        if high is None:
            low, high = 0, low
        need((low, high) == (0, 2), f"integers drawn from [{low}, {high})")
        n = 1 if size is None else int(np.prod(size))
        v = self._take(self.i, self.ni, n)
        self.ni += n
        return int(v[0]) if size is None else np.array(v, dtype=int).reshape(size)

    def binomial(self, n, p, size=None):
        self.log.append(("binomial", n, p))
        return self.bino

    def choice(self, a, size=None, replace=True, p=None, **kw):
        a = list(range(a)) if np.isscalar(a) else list(a)
        self.log.append(("choice", sorted(a), int(size), replace, p))
        return np.array(self.ch(a, int(size)), dtype=int)


def std(state, quad, delta):
    return 1 / math.sqrt(2 * delta) if (state, quad) == ("p", "q") else math.sqrt(delta / 2)


def adjacency(G, order):
    ix = {p: i for i, p in enumerate(order)}
    A = np.zeros((len(order),) * 2)
    for u, v, d in G.edges(data=True):
        A[ix[u], ix[v]] = A[ix[v], ix[u]] = d.get("weight", 1)
    return A


def outcomes(layer, order, quad):
    return {i: layer.egraph.nodes[p].get("hom_val_" + quad) for i, p in enumerate(order) if "hom_val_" + quad in layer.egraph.nodes[p]}


def clear(layer):
    for _, d in layer.egraph.nodes.data():
        for k in ("hom_val_p", "hom_val_q", "bit_val", "state"):
            d.pop(k, None)


def check_response(run, layer, order, A, states, delta, sampling, quad, inds, perfect):
    """Mean and covariance of the outcomes from unit draws.

    run(rng) applies the operation measured; inds: the modes that must get outcomes.
    """
    N = len(order)
    inds = sorted(set(inds))
    sel = lambda out: np.array([out[i] for i in inds], dtype=float)

    def go(**kw):
        clear(layer)
        r = Stream(**kw)
        run(r)
        out = outcomes(layer, order, quad)
        need(set(out) == set(inds), lambda: f"outcomes recorded for {sorted(out)}, measured {inds}")
        return sel(out), r

    base, r0 = go()
    need(np.allclose(base, 0, atol=1e-6), lambda: f"outcomes without any noise are {base}")
    cols = [go(normals={t: 1.0})[0] for t in range(r0.nz)]
    M = np.array(cols).T.reshape(len(inds), -1)
    q = np.array([0 if i in perfect else std(states[i], "q", delta) for i in range(N)])
    p = np.array([0 if i in perfect else std(states[i], "p", delta) for i in range(N)])
    if sampling == "initial":
        full = np.hstack([np.diag(q), np.zeros((N, N))]) if quad == "q" else np.hstack([A @ np.diag(q), np.diag(p)])
    else:
        full = np.diag([0 if i in perfect else math.sqrt(delta / 2) for i in range(N)])
    want = full[inds]
    C, W = M @ M.T, want @ want.T
    need(np.allclose(C, W, rtol=1e-4, atol=1e-5 * (1 + abs(W).max())), lambda: f"covariance of the outcomes\n{np.round(C, 4).tolist()}\nexpected\n{np.round(W, 4).tolist()}")
    gen, _ = go(normals=lambda t: 0.3 + 0.17 * t)
    lin = M @ np.array([0.3 + 0.17 * t for t in range(r0.nz)])
    need(np.allclose(gen, lin, rtol=1e-4, atol=1e-4 * (1 + abs(lin).max())), "outcomes are not linear in the draws")
    if sampling == "two-step":
        ucols = sorted(tuple(np.round(go(uniforms={t: 1.0})[0], 4) + 0.0) for t in range(r0.nu))
        icols = sorted(tuple(np.round(go(ints={t: 1})[0], 4) + 0.0) for t in range(r0.ni))
        R = np.eye(N) if quad == "q" else A
        wu = sorted(tuple(np.round(2 * RT * R[inds, j], 4) + 0.0) for j in range(N) if states[j] == "p")
        wi = sorted(tuple(np.round(RT * R[inds, j], 4) + 0.0) for j in range(N) if states[j] == "GKP")
        near = lambda x, y: len(x) == len(y) and all(np.allclose(a, b, atol=1e-3) for a, b in zip(x, y))
        need(near(ucols, wu), lambda: f"effect of the uniform draws of p states {ucols}, expected {wu}")
        need(near(icols, wi), lambda: f"effect of the bits drawn for GKP states {icols}, expected {wi}")
        both, _ = go(uniforms=lambda t: 0.25, ints=lambda t: t % 2)
    else:
        need(r0.nu == 0 and r0.ni == 0, "draws of other kinds in the initial order")


def check_labels(layer, order, pset):
    for i, pt in enumerate(order):
        s = layer.egraph.nodes[pt].get("state")
        need(s == ("p" if i in pset else "GKP"), lambda: f"mode {i} is labelled {s!r}, swapped out: {sorted(pset)}")
    a, b = list(map(int, layer.p_inds)), list(map(int, layer.gkp_inds))
    need(sorted(a) == sorted(pset), lambda: f"p_inds {a}, swapped out {sorted(pset)}")
    need(sorted(b) == [i for i in range(len(order)) if i not in pset], lambda: f"gkp_inds {b}, swapped out {sorted(pset)}")


def graphs(n):
    """Small weighted graphs on points whose sorted order differs from insertion order."""
    from flamingpy.codes.graphs import EGraph

    pts = [((k * 3) % 5 - (k // 5), k % 2, -k) for k in range(n)]
    E = {
        2: [[(0, 1)]], 3: [[(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)]],
        4: [[(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 1)]],
        5: [[(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], [(0, 1), (0, 2), (2, 3), (2, 4)]],
        6: [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5), (1, 4)]],
    }[n]
    for es in E:
        for signs in (0, 1, 2):
            G = EGraph()
            for p in pts:
                G.add_node(p)
            for k, (a, b) in enumerate(es):
                if signs == 1:
                    G.add_edge(pts[a], pts[b], weight=-1 if k % 2 else 1)
                elif signs:
                    G.add_edge(pts[a], pts[b], weight=(0.5, -1.25, 300, 3, -0.1)[k % 5])
                else:
                    G.add_edge(pts[a], pts[b])
            yield G


def small(rep, n, gi, sampling, pmax):
    """Every swap-out and perfect pattern of a small graph state, both quadratures."""
    from flamingpy.noise import CVLayer

    base = list(graphs(n))[gi]
    order = sorted(base.nodes)
    A = adjacency(base, order)
    for sub in subsets(range(n), 0, n):
        for perf in subsets(range(n), 0, pmax):
            for delta in (0.04, 0.5, 2) if not perf else (0.1,):
                with rep.case([n, gi, sampling, {"swapped": sub, "perfect": perf, "delta": delta}], transitions=4 * n):
                    G = base.copy()
                    if perf:
                        G.graph["perfect_points"] = [order[i] for i in perf]
                    given = [list(sub), np.array(sub, dtype=int), tuple(sub)][(len(sub) + len(perf)) % 3]
                    arg = {"p": given}
                    L = CVLayer(G, delta=delta, states=arg if sub or len(perf) % 2 else None, sampling_order=sampling)
                    st = ["p" if i in sub else "GKP" for i in range(n)]
                    L.populate_states(rng=Stream())
                    check_labels(L, order, set(sub))
                    need(set(arg) == {"p"} and list(arg["p"]) == list(sub), "the states argument was changed")
                    for quad in "pq":
                        L.populate_states(rng=Stream())

                        def run(r):
                            L.populate_states(rng=r)
                            L.measure_hom(quad, rng=r)

                        check_response(run, L, order, A, st, delta, sampling, quad, range(n), set(perf))
                        got = L.hom_outcomes(quad=quad)
                        need(list(got) == [outcomes(L, order, quad)[i] for i in range(n)], "hom_outcomes disagree with the nodes")
                    rep.seen((n, len(sub), len(perf), sampling))
    rep.sample({"graph": [sorted(map(str, e)) for e in base.edges], "swapped": sub})


def selected(rep, n, gi, sampling, kmax):
    """Every ordered selection of modes to measure."""
    from flamingpy.noise import CVLayer

    G = list(graphs(n))[gi]
    order = sorted(G.nodes)
    A = adjacency(G, order)
    for sub in [(), (0,), (1, n - 1), tuple(range(n))]:
        for perf in [(), (n - 1,), (0, 1)]:
            H = G.copy()
            if perf:
                H.graph["perfect_points"] = [order[i] for i in perf]
            L = CVLayer(H, delta=0.2, states={"p": list(sub)}, sampling_order=sampling)
            st = ["p" if i in sub else "GKP" for i in range(n)]
            for k in range(1, kmax + 1):
                for inds in it.permutations(range(n), k):
                    for quad in "pq":
                        with rep.case([n, gi, sampling, {"swapped": sub, "perfect": perf, "measured": inds, "quad": quad}], transitions=4 * n):
                            form = [list(inds), np.array(inds)][k % 2]

                            def run(r):
                                L.populate_states(rng=r)
                                L.measure_hom(quad, inds=form, rng=r)

                            check_response(run, L, order, A, st, 0.2, sampling, quad, inds, set(perf))
                            other = "hom_val_q" if quad == "p" else "hom_val_p"
                            need(not any(other in d for _, d in H.nodes.data()), "the other quadrature was recorded")
                            got = L.hom_outcomes(inds=list(inds), quad=quad)
                            need(list(got) == [H.nodes[order[i]]["hom_val_" + quad] for i in inds], "hom_outcomes out of order")


def supplied(rep, n, gi):
    """Supplied means and deviations are used mode by mode (two-step order)."""
    from flamingpy.noise import CVLayer

    G = list(graphs(n))[gi]
    order = sorted(G.nodes)
    L = CVLayer(G, delta=0.2, states={"p": [0]}, sampling_order="two-step")
    L.populate_states(rng=Stream())
    means = np.array([1.5 * i - 2 for i in range(2 * n)])
    covs = np.array([0.25 * i + 0.5 for i in range(2 * n)])
    for k in range(1, n + 1):
        for inds in it.permutations(range(n), k) if k < 4 else [tuple(range(n))[::-1]]:
            for quad in "pq":
                for uc in (None, covs):
                    with rep.case([n, gi, "supplied", inds, quad, uc is not None]):
                        clear(L)
                        L.measure_hom(quad, inds=list(inds), updated_means=means.copy(), updated_covs=uc, rng=Stream(normals=lambda t: t + 1.0))
                        off = 0 if quad == "q" else n
                        for j, i in enumerate(inds):
                            s = covs[i + off] if uc is not None else math.sqrt(0.1)
                            want = means[i + off] + s * (j + 1)
                            got = G.nodes[order[i]]["hom_val_" + quad]
                            need(close(got, want, 1e-6), lambda: f"mode {i}: outcome {got}, expected {want}")


def draws(rep, dims, ec, b, p_swap):
    """Swap-outs drawn by the layer: every count, structured selections, repeated."""
    from flamingpy.noise import CVLayer

    code = make_code(dims, ec, b)
    order = sorted(code.graph.nodes)
    N = len(order)
    for sampling in ORDERS:
        L = CVLayer(code, delta=0.1, p_swap=p_swap, sampling_order=sampling)
        # every count, each also followed by its complement and by none
        for ni, num in enumerate(x for a in range(N + 1) for x in (a, N - a, 0)):
            for ci, ch in enumerate((lambda a, k: a[:k], lambda a, k: a[len(a) - k:], lambda a, k: sorted(a, key=lambda i: (i * 7 + num) % N)[:k])):
                if ni % 3 and ci != 1:
                    continue
                with rep.case([dims, ec, b, sampling, {"p_swap": p_swap, "step": ni, "drawn": num, "choice": ci}]):
                    r = Stream(binomial=num, choice=ch, normals=lambda t: 0.1)
                    L.apply_noise(r)
                    if p_swap == 0:
                        pset = set()
                        need(not r.log, "swap-outs drawn at zero probability")
                    elif p_swap == 1:
                        pset = set(range(N))
                    else:
                        pset = set(ch(list(range(N)), num))
                        need(r.log[0] == ("binomial", N, p_swap), f"number of swap-outs drawn as {r.log[0]}")
                        need(len(r.log) == 2 and r.log[1][0] == "choice" and r.log[1][1] == list(range(N)) and r.log[1][2] == num and not r.log[1][3] and r.log[1][4] is None,
                             f"swap-outs chosen by {r.log[1:]}")
                    check_labels(L, order, pset)
                    check_bits(code, L, None)
                    rep.seen((sampling, len(pset)))


def refbin(x):
    return int(math.floor(x / RT + 0.5)) % 2


def check_bits(code, L, translator):
    own = set(code.all_syndrome_coords)
    for p, d in code.graph.nodes.data():
        if p in own:
            h = d["hom_val_p"]
            want = refbin(h) if translator is None else translator([h])[0]
            need(d.get("bit_val") == want, lambda: f"bit of {p} is {d.get('bit_val')} for outcome {h}, its translation {want}")
    inds = code.all_syndrome_inds
    bits = L.bit_values(list(inds))
    need(list(bits) == [code.graph.nodes[code.graph.to_points[i]]["bit_val"] for i in inds], "bit_values disagree with the nodes")
    allb = L.bit_values()
    need(len(allb) == len(code.graph), "bit_values() has another length")


def odd_translator(vals):
    return [3 if v > 0.2 else 2 for v in vals]


def on_code(rep, dims, ec, b, sampling, kmax, part, parts, pol=False, response=True):
    """Codes: supplied swap-outs, responses, bits, several applications on one layer."""
    from flamingpy.noise import CVLayer

    from flamingpy.codes.surface_code import alternating_polarity

    kw = {"polarity": alternating_polarity} if pol else {}
    code = make_code(dims, ec, b, **kw)
    order = sorted(code.graph.nodes)
    N = len(order)
    ix = {p: i for i, p in enumerate(order)}
    A = adjacency(code.graph, order)
    own = [ix[p] for p in ref_of(dims, ec, b).qubits]
    k = 0
    for sub in subsets(range(N), 0, kmax):
        for comp in (False, True) if len(sub) < 2 else (False,):
            s = set(range(N)) - set(sub) if comp else set(sub)
            k += 1
            if k % parts != part:
                continue
            with rep.case([dims, ec, b, sampling, {"swapped": sorted(s)}], transitions=3):
                tr = odd_translator if k % 5 == 0 else None
                L = CVLayer(code, delta=0.3, states={"p": np.array(sorted(s), dtype=int)}, sampling_order=sampling, translator=tr)
                for t in range(3):
                    clear(L)
                    L.apply_noise(Stream(normals=lambda i: ((i * 29 + 7 * t) % 41) / 7 - 2.9, uniforms=lambda i: (i % 9) / 9, ints=lambda i: i % 2))
                    check_labels(L, order, s)
                    check_bits(code, L, tr)
                    need(set(outcomes(L, order, "p")) == set(own), "outcomes are not those of the syndrome qubits")
                    # the label of each outcome: recompute from the draws in the initial order
                st = ["p" if i in s else "GKP" for i in range(N)]
                if response and k % 7 == part % 7:
                    check_response(L.apply_noise, L, order, A, st, 0.3, sampling, "p", own, set())
                rep.seen((sampling, len(s)))
    rep.sample([dims, ec, b, sampling, {"swapped": sorted(s)}])


def large(rep, dims, ec, b, sampling, part, parts):
    """Codes with hundreds of qubits: structured swap-outs, responses to every unit draw."""
    from flamingpy.noise import CVLayer

    code = make_code(dims, ec, b)
    order = sorted(code.graph.nodes)
    N = len(order)
    ix = {p: i for i, p in enumerate(order)}
    A = adjacency(code.graph, order)
    own = [ix[p] for p in ref_of(dims, ec, b).qubits]
    sets = [set(), set(range(N)), set(range(N // 2)), set(range(N // 2, N)), set(range(0, N, 2)), set(range(N)) - {N - 1}, {N - 1}, {i for i in range(N) if i * i % 7 < 3}]
    for k, s in enumerate(sets):
        if k % parts != part:
            continue
        with rep.case([dims, ec, b, sampling, "structured", {"pattern": k, "swapped": len(s)}], transitions=3 * N, limit=400):
            given = [sorted(s), sorted(s, reverse=True), np.array(sorted(s), dtype=int), tuple(sorted(s))][k % 4]
            L = CVLayer(code, delta=0.3, states={"p": given}, sampling_order=sampling)
            for t in range(2):
                clear(L)
                L.apply_noise(Stream(normals=lambda i: ((i * 29 + 7 * t) % 41) / 7 - 2.9, uniforms=lambda i: (i % 9) / 9, ints=lambda i: i % 2))
                check_labels(L, order, s)
                check_bits(code, L, None)
                need(set(outcomes(L, order, "p")) == set(own), "outcomes are not those of the syndrome qubits")
            check_response(L.apply_noise, L, order, A, ["p" if i in s else "GKP" for i in range(N)], 0.3, sampling, "p", own, set())
        rep.seen((sampling, "large", len(s)))


def edge_cases(rep):
    """Both ways of choosing swap-outs at once are refused; empty ones are not."""
    from flamingpy.noise import CVLayer

    code = make_code(2)
    with rep.case("p_swap and states"):
        try:
            CVLayer(code, delta=0.1, p_swap=0.2, states={"p": [1]})
        except Exception:
            pass
        else:
            need(False, "p_swap and states accepted together")
    with rep.case("p_swap and no states"):
        L = CVLayer(code, delta=0.1, p_swap=0.2, states={"p": []})
        L.apply_noise(Stream(binomial=1, choice=lambda a, k: a[3:4]))
        check_labels(L, sorted(code.graph.nodes), {3})
    with rep.case("SCZ of the layer"):
        L = CVLayer(code, delta=0.1)
        order = sorted(code.graph.nodes)
        A = adjacency(code.graph, order)
        N = len(order)
        want = np.block([[np.eye(N), np.zeros((N, N))], [A, np.eye(N)]])
        need((L.SCZ(sparse=False) == want).all() and (L.SCZ().toarray() == want).all(), "SCZ of the layer")


def jobs(tier):
    deep = tier == "thorough"
    J = [("edge_cases", {})]
    for n in (2, 3, 4, 5) + ((6,) if deep else ()):
        ng = {2: 1, 3: 2, 4: 4, 5: 2, 6: 1}[n] * 3
        for gi in range(ng):
            for sampling in ORDERS:
                J.append(("small", dict(n=n, gi=gi, sampling=sampling, pmax=2 if (n < 5 and gi % 3 < 2) or deep else 1)))
                if n in (3, 4):
                    J.append(("selected", dict(n=n, gi=gi, sampling=sampling, kmax=3)))
            if n in (3, 4):
                J.append(("supplied", dict(n=n, gi=gi)))
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for p in (0, 0.3, 1):
                J.append(("draws", dict(dims=(2, 2, 2), ec=ec, b=b, p_swap=p)))
            J.append(("draws", dict(dims=(2, 3, 2), ec=ec, b=b, p_swap=0.01)))
            for sampling in ORDERS:
                for part in range(8):
                    if deep or part % 4 == 3 * (b == "open") - (ec == "dual") % 3 or part == 7:
                        J.append(("large", dict(dims=(4, 4, 4) if deep else (3, 4, 4), ec=ec, b=b, sampling=sampling, part=part, parts=8)))
                for i, dims in enumerate([(2, 2, 2), (3, 2, 2)] + ([(2, 3, 2), (2, 2, 3), (3, 3, 3)] if deep else [])):
                    J.append(("on_code", dict(dims=dims, ec=ec, b=b, sampling=sampling, kmax=2 if dims == (2, 2, 2) and b == "open" or deep else 1, part=0, parts=1, pol=bool(i % 2), response=dims != (3, 3, 3))))
                J.append(("on_code", dict(dims=(2, 2, 2), ec=ec, b=b, sampling=sampling, kmax=1, part=0, parts=1, pol=True)))
    return J
