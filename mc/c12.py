"""C12: macronode reduction yields the right effective lattice data."""
import functools

from mc.core import need
from mc.lib import *
from mc.c09 import Stream, adjacency

PROPERTY = "C12"
BOUNDS = {
    "quick": "2x2x2 codes of every boundary and complex (21-48 macronodes, 84-192 micronodes): every set of at most 2 swapped-out (and at most 2 GKP) micronodes of "
    "the open primal code, at most 1 elsewhere; around one bulk macronode all 16 patterns of its own states x all 16 of each neighbour x 3 surroundings; every "
    "macronode-class pattern pair (256) on primal/dual macronodes; at zero noise and 4 noise levels, two draw streams each, consecutive applications on one "
    "layer; whole macronodes swapped out and class patterns on 3x3x3 and 2x3x4 codes (up to 648 micronodes; quick: every 11th); response to every unit draw for 10-40 patterns per code, default and four other splitter networks, perfect qubits",
    "thorough": "as quick with at most 2 everywhere, joint patterns of pairs of neighbours, 3x2x2 and 2x3x3 codes",
}
ASSUMPTIONS = [
    "draws are structured streams of generic values and unit draws (outcomes are linear in the draws, checked)",
    "outcomes within 1e-4 of a bin edge are not compared", "which GKP state of a macronode is its star is left to the code (body_index)",
]
RT = math.sqrt(math.pi)
# published four-splitter, rows: star and planets
SPLIT = np.array([[1, 1, 1, 1], [-1, 1, -1, 1], [-1, -1, 1, 1], [1, -1, -1, 1]]) / 2


def phase_error(var, x):
    """Probability that the outcome x came from a bin of the other parity (exact sums)."""
    c = round(x / RT)
    ns = range(c - 60, c + 61)
    ex = [-((x - n * RT) ** 2) / var for n in ns]
    m = max(ex)
    t = [math.exp(e - m) for e in ex]
    return math.fsum(v for n, v in zip(ns, t) if (n - c) % 2) / math.fsum(t)


@functools.lru_cache(200000)
def phase_error_c(var, x):
    return phase_error(var, x)


def bin_of(x):
    """(bit, distance to the nearest bin edge)"""
    y = x / RT + 0.5
    return int(math.floor(y)) % 2, abs(y - round(y))


class World:
    """A layer on a code, with the macronode structure read off the expansion once."""

    def __init__(self, dims, ec, b, delta, perfect=(), pol=False, **kw):
        from flamingpy.noise import CVMacroLayer

        self.delta, self.pol = delta, pol
        if pol:
            from flamingpy.codes.surface_code import alternating_polarity

            self.code = make_code(dims, ec, b, polarity=alternating_polarity)
        else:
            self.code = make_code(dims, ec, b)
        if perfect:
            self.code.graph.graph["perfect_points"] = list(perfect)
        kw.setdefault("p_swap", 0.5) if "states" not in kw else None
        self.L = CVMacroLayer(self.code, delta=delta, **kw)
        self.M = self.L.egraph
        self.order = [self.M.to_points[i] for i in range(len(self.M))]
        self.ix = {p: i for i, p in enumerate(self.order)}
        self.macro = {v: [self.ix[m] for m in ms] for v, ms in self.M.macro_to_micro.items()}
        self.owner = {i: v for v, ms in self.macro.items() for i in ms}
        self.partner, self.weight = {}, {}
        for a, c in self.M.edges:
            self.partner[self.ix[a]], self.partner[self.ix[c]] = self.ix[c], self.ix[a]
            self.weight[self.ix[a]] = self.weight[self.ix[c]] = self.M.edges[a, c].get("weight", 1)
        self.N = len(self.order)
        self.ref = ref_of(dims, ec, b)

    def run(self, pset, rng):
        rng.bino, rng.ch = len(pset), lambda a, k: sorted(pset)
        self.L.apply_noise(rng)

    def bodies(self, pset):
        """Micronodes of each macronode, star first."""
        res = {}
        for v, ms in self.macro.items():
            tag = [self.M.nodes[self.order[i]].get("body_index") for i in ms]
            if None in tag:
                b = [i for i in ms if i not in pset] + [i for i in ms if i in pset]
            else:
                need(sorted(tag) == [1, 2, 3, 4], lambda: f"body indices of macronode {v} are {tag}")
                b = [i for _, i in sorted(zip(tag, ms))]
            need(b[0] not in pset or all(i in pset for i in ms), lambda: f"the star of {v} is swapped out although the macronode has a GKP state")
            res[v] = b
        return res


def check_reduction(W, pset):
    """Labels, bits and probabilities of the reduced lattice from the recorded outcomes."""
    G, M, d = W.code.graph, W.M, W.delta
    for i, p in enumerate(W.order):
        s = M.nodes[p].get("state")
        need(s == ("p" if i in pset else "GKP"), lambda: f"micronode {i} is labelled {s!r}")
    body = W.bodies(pset)
    place = {i: k for v, b in body.items() for k, i in enumerate(b)}
    q = lambda i: float(M.nodes[W.order[i]]["hom_val_q"])
    skipped = 0
    for v, b in body.items():
        want = "p" if all(i in pset for i in b) else "GKP"
        got = G.nodes[v].get("state")
        need(got == want, lambda: f"reduced qubit {v} is labelled {got!r}, its micronodes: {['p' if i in pset else 'GKP' for i in W.macro[v]]}")
        out = 2 * float(M.nodes[W.order[b[0]]]["hom_val_p"])
        nump, gkp = 0, []
        for i in b:
            j = W.partner.get(i)
            if j is None:
                continue
            nb = body[W.owner[j]]
            Z = [0, 0, 0, 0]
            if place[j]:
                q2, q3, q4 = (q(m) for m in nb[1:])
                Z = [0, q2 - q4, q3 - q4, q2 + q3]
            z = Z[place[j]]
            if j in pset:
                nump += 1
                out -= z * W.weight[i]
            else:
                gkp.append(z)
        bits = [bin_of(x) for x in [out] + gkp]
        if min(e for _, e in bits) > 1e-4:
            bit = sum(x for x, _ in bits) % 2
            have = G.nodes[v].get("bit_val")
            need(have == bit, lambda: f"reduced qubit {v} has bit {have}, its outcomes {out:.4f}, {gkp} give {bit}")
        else:
            skipped += 1
        if d > 0:
            p = phase_error_c(2 * (2 + nump) * d, out) + sum(phase_error_c(2 * d, z) for z in gkp)
        else:
            p = 0
        p = min(p, 0.5)
        have = G.nodes[v].get("p_phase_cond")
        need(have is not None and 0 <= have <= 0.5 and abs(have - p) < 1e-7 + 1e-5 * p,
             lambda: f"reduced qubit {v} has phase error probability {have}, the rules give {p} (outcome {out:.4f}, {nump} swapped-out neighbours, GKP neighbours {gkp})")
    return skipped


def check_parities(W, pset):
    """Zero noise: every check without swapped-out qubits around it is satisfied."""
    gone = [v for v, ms in W.macro.items() if all(i in pset for i in ms)]
    bad = {c for v in gone for q in W.ref.box.around(v) for c in W.ref.of.get(q, ())}
    if W.pol and len(gone) == 1:
        bad = ()  # opposite contributions to both ends
    for c, qs in W.ref.checks.items():
        if c in bad:
            continue
        s = sum(int(W.code.graph.nodes[x]["bit_val"]) for x in qs) % 2
        need(s == 0, lambda: f"noiseless, yet check {c} is odd with swap-outs {sorted(pset)[:20]}")


def stream(k):
    """Generic structured draws; k selects the stream."""
    g = 0.6180339887498949 * (1 + 0.37 * (k % 7))
    return dict(
        normals=lambda t: 2.4 * math.sin(1.7 * (k + 1) + 2.399963 * t),
        uniforms=lambda t: (0.123 * k + g * (t + 1)) % 1.0,
        ints=lambda t: (t * (2 * k + 3) // 4 + (t * t + k) // 3) % 2,
    )


DELTAS = (0, 0.1, 0.01, 0.3, 1)


def pset_family(W, kind, arg):
    N = W.N
    full = frozenset(range(N))
    if kind == "weight":
        for s in subsets(range(N), 0, arg):
            yield frozenset(s)
            yield full - set(s)
    elif kind == "macros":  # whole macronodes swapped out, on different surroundings
        for t, vs in enumerate(subsets(sorted(W.macro), 0, arg)):
            gone = {i for v in vs for i in W.macro[v]}
            for bg in (lambda i: False, lambda i: i % 4 != (i // 4) % 4, lambda i: i % 4 == 0, lambda i: i % 3 == 1):
                yield frozenset(gone | {i for i in full if bg(i)})
    elif kind == "classes":  # one pattern on primal macronodes, one on dual ones, rotated from macronode to macronode
        types = {v: W.code.graph.nodes[v]["type"] for v in W.macro}
        for a in range(16):
            for b in range(16):
                s = set()
                for k, v in enumerate(sorted(W.macro)):
                    m = a if types[v] == "primal" else b
                    r = k * (arg % 2)
                    s |= {i for t, i in enumerate(W.macro[v]) if m >> ((t + r) % 4) & 1}
                yield frozenset(s)
    elif kind == "local":
        v = max(sorted(W.macro), key=lambda x: sum(i in W.partner for i in W.macro[x]))
        nb = [W.owner[W.partner[i]] for i in W.macro[v] if i in W.partner]
        bg = [set(), set(full), {i for i in full if i % 3 == 0}]
        near = set(W.macro[v]) | {i for u in nb for i in W.macro[u]}
        pairs = [(n, None) for n in nb] if arg == 1 else [(a, b) for i, a in enumerate(nb) for b in nb[i + 1:]]
        for base in bg if arg == 1 else bg[2:]:
            for own in range(16):
                for a, b in pairs:
                    for x in range(16):
                        for y in range(16) if b else (None,):
                            s = set(base)
                            for u, m in ((v, own), (a, x), (b, y)):
                                if u is not None and m is not None:
                                    s -= set(W.macro[u])
                                    s |= {i for t, i in enumerate(W.macro[u]) if m >> t & 1}
                            yield frozenset(s)


def enumerate_patterns(rep, dims, ec, b, kind, arg, part, parts, pol=False):
    """Swap-out patterns one after another on layers at several noise levels."""
    Ws = [World(dims, ec, b, d, pol=pol) for d in DELTAS]
    skipped = 0
    for k, pset in enumerate(pset_family(Ws[0], kind, arg)):
        if k % parts != part:
            continue
        with rep.case([dims, ec, b, kind, {"swapped": sorted(pset) if len(pset) <= len(Ws[0].order) // 2 else ["all but"] + sorted(set(range(Ws[0].N)) - pset), "stream": k}], transitions=3):
            Z = Ws[0]
            for kk in (k,) if kind == 'weight' else (k, k + 1):
                # normals of size zero deviation do nothing
                Z.run(pset, Stream(**stream(kk)))
                skipped += check_reduction(Z, pset)
                check_parities(Z, pset)
            W = Ws[1 + k // parts % (len(Ws) - 1)]
            W.run(pset, Stream(**stream(k)))
            skipped += check_reduction(W, pset)
        rep.seen((b, ec, len(pset)))
    rep.sample([dims, ec, b, kind, len(pset)])


def structured(rep, dims, ec, b, kind, step):
    """Larger codes: whole macronodes swapped out on four surroundings; one pattern per class of macronodes."""
    Ws = [World(dims, ec, b, d) for d in DELTAS]
    for k, pset in enumerate(pset_family(Ws[0], kind, 1)):
        if k % step:
            continue
        with rep.case([dims, ec, b, kind, {"case": k, "swapped": len(pset)}], transitions=2):
            for W in (Ws[0], Ws[1 + k // step % (len(Ws) - 1)]):
                W.run(pset, Stream(**stream(k)))
                check_reduction(W, pset)
                if W.delta == 0:
                    check_parities(W, pset)
        rep.seen(("large", b, ec, len(pset)))


def response(rep, dims, ec, b, npat, part, parts, net=None, perfect=0):
    """Outcomes as a linear function of the draws: every unit draw."""
    S = {None: SPLIT, "identity": np.eye(4), "swap": np.eye(4)[[2, 0, 3, 1]], "signs": SPLIT * np.array([1, -1, 1, -1]), "other": SPLIT.T[[1, 0, 3, 2]]}[net]
    kw = {}
    if net:
        from scipy.linalg import block_diag

        Sp = S if net != "other" else S[[1, 0, 2, 3]]
        kw["bs_network"] = block_diag(S, Sp)
    else:
        Sp = S
    ref = ref_of(dims, ec, b)
    pp = sorted(ref.sites)[:: len(ref.sites) // perfect][:perfect] if perfect else ()
    W = World(dims, ec, b, 0.18, perfect=pp, **kw)
    A = adjacency(W.M, W.order)
    N = W.N
    pats = [set(), set(range(N)), {i for i in range(N) if i % 4 == 0}, {i for i in range(N) if i % 4 != 2}]
    pats += [{i for i in range(N) if (i * (2 * j + 3) + j * i * i // 5) % (2 + j % 3) == 0} for j in range(npat - 4)]
    pidx = {W.ix[m] for p in pp for m in W.M.macro_to_micro[p]}
    for k, pset in enumerate(pats):
        if k % parts != part:
            continue
        with rep.case([dims, ec, b, "response", {"network": net, "perfect": perfect, "pattern": k}], transitions=3 * N, limit=300):

            def go(**streams):
                for _, d in W.M.nodes.data():
                    d.pop("hom_val_p", None)
                    d.pop("hom_val_q", None)
                r = Stream(**streams)
                W.run(pset, r)
                return r

            r0 = go()
            body = W.bodies(pset)
            want = [(bd[0], "p") for bd in body.values()] + [(i, "q") for bd in body.values() for i in bd[1:]]

            def read():
                have = {(W.ix[p], x[-1]): d[x] for p, d in W.M.nodes.data() for x in ("hom_val_p", "hom_val_q") if x in d}
                need(set(have) == set(want), lambda: f"measured {sorted(set(have) ^ set(want))[:6]} (star momenta and planet positions expected)")
                return np.array([have[w] for w in want], dtype=float)

            need(np.allclose(read(), 0, atol=1e-6), "outcomes without any draw are not zero")
            R = np.zeros((N, N))
            for row, (i, x) in enumerate(want):
                bd = body[W.owner[i]]
                if x == "p":
                    for m in range(4):
                        R[row] += Sp[0, m] * A[bd[m]]
                else:
                    for m in range(4):
                        R[row, bd[m]] += S[bd.index(i), m]
            cols = {"uniforms": [], "ints": [], "normals": []}
            for kind, n in (("uniforms", r0.nu), ("ints", r0.ni), ("normals", r0.nz)):
                for t in range(n):
                    go(**{kind: {t: 1.0 if kind != "ints" else 1}})
                    cols[kind].append(read())
            s = math.sqrt(W.delta / 2)

            def match(have, expected, what):
                f = lambda c: tuple(np.round(np.asarray(c) + 1e-7, 3) + 0.0)
                h, e = sorted(map(f, have)), sorted(map(f, expected))
                need(len(h) == len(e) and np.allclose(h, e, atol=3e-3), lambda: f"the effect of the {what} differs from the model in {sum(not np.allclose(a, c, atol=3e-3) for a, c in zip(h, e))} of {len(e)} draws ({len(h)} made)")

            match(cols["uniforms"], [2 * RT * R[:, j] for j in range(N) if j in pset], "positions of swapped-out states")
            match(cols["ints"], [RT * R[:, j] for j in range(N) if j not in pset], "bits of GKP states")
            match(cols["normals"], [s * np.eye(N)[row] * (want[row][0] not in pidx) for row in range(N)], "finite-squeezing noise")
            st = stream(k)
            go(**st)
            got = read()
            lin = sum(st[kind](t) * c for kind in cols for t, c in enumerate(cols[kind]))
            need(np.allclose(got, lin, rtol=1e-4, atol=1e-3), "outcomes are not linear in the draws")
        rep.seen(("response", b, ec, net, perfect))


def supplied(rep, dims, ec, b, kmax, part, parts):
    """Swap-outs supplied to the layer, one fresh layer each, applied twice."""
    base = World(dims, ec, b, 0)
    for k, s in enumerate(subsets(range(base.N), 0, kmax)):
        if k % parts != part:
            continue
        for pset in (set(s), set(range(base.N)) - set(s)):
            with rep.case([dims, ec, b, "supplied", {"swapped": len(pset), "set": s, "k": k}], transitions=2):
                arg = [sorted(pset), np.array(sorted(pset), dtype=int), tuple(sorted(pset, reverse=True))][k % 3]
                W = World(dims, ec, b, DELTAS[k % len(DELTAS)], states={"p": arg})
                for t in range(2):
                    W.L.apply_noise(Stream(**stream(k + t)))
                    check_reduction(W, pset)
                    if W.delta == 0:
                        check_parities(W, pset)


def edge(rep, dims, ec, b):
    """Swap-out probabilities zero, one and absent; generators from numpy; default network kept intact."""
    from flamingpy.cv.ops import splitter_symp

    for name, kw, f in (("none", {"p_swap": None}, lambda N: set()), ("zero", {"p_swap": 0}, lambda N: set()), ("one", {"p_swap": 1}, lambda N: set(range(N)))):
        for d in DELTAS:
            with rep.case([dims, ec, b, name, d], transitions=5):
                W = World(dims, ec, b, d, **kw)
                for k in range(5):
                    W.L.apply_noise(Stream(**stream(k)))
                    check_reduction(W, f(W.N))
                    if d == 0:
                        check_parities(W, f(W.N))
    for p in (0.1, 0.5, 0.9):
        for d in DELTAS:
            W = World(dims, ec, b, d, p_swap=p)
            for seed in range(6):
                with rep.case([dims, ec, b, {"p_swap": p, "delta": d, "seed": seed}]):
                    W.L.apply_noise(np.random.default_rng(seed))
                    pset = {i for i, pt in enumerate(W.order) if W.M.nodes[pt]["state"] == "p"}
                    check_reduction(W, pset)
                    if d == 0:
                        check_parities(W, pset)
    with rep.case([dims, ec, b, "default network"]):
        need(np.allclose(splitter_symp(), np.kron(np.eye(2), SPLIT), atol=1e-6), "the four-splitter was changed")


def jobs(tier):
    deep = tier == "thorough"
    J = []
    confs = [(e, b) for e in ("primal", "dual") for b in ("open", "toric", "periodic")]
    for ec, b in confs:
        main = (ec, b) == ("primal", "open")
        parts = 16 if main or deep else 2
        for part in range(parts):
            J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="weight", arg=2 if main or deep else 1, part=part, parts=parts)))
        for part in range(8):
            J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="local", arg=1, part=part if b == "open" or deep else part * 5, parts=8 if b == "open" or deep else 40)))
        for arg in (0, 1):
            J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="classes", arg=arg, part=0, parts=1, pol=False)))
        for part in range(2):
            J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="macros", arg=2 if deep or main else 1, part=part, parts=2, pol=True)))
        J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="weight", arg=1, part=0, parts=1 if deep else 4, pol=True)))
        J.append(("edge", dict(dims=(2, 2, 2), ec=ec, b=b)))
        J.append(("supplied", dict(dims=(2, 2, 2), ec=ec, b=b, kmax=1, part=0, parts=1 if deep or b == "open" else 3)))
        npat = 8 if b == "open" else 6 if b == "toric" else 4
        for part in range(4):
            J.append(("response", dict(dims=(2, 2, 2), ec=ec, b=b, npat=npat * (4 if deep else 1), part=part, parts=4)))
        for net in ("identity", "swap", "signs", "other"):
            if b == "open" or deep or net == "other":
                J.append(("response", dict(dims=(2, 2, 2), ec=ec, b=b, npat=5, part=4, parts=5, net=net)))
        if b == "open" or deep:
            J.append(("response", dict(dims=(2, 2, 2), ec=ec, b=b, npat=5, part=4, parts=5, perfect=3)))
        if deep:
            for part in range(32):
                J.append(("enumerate_patterns", dict(dims=(2, 2, 2), ec=ec, b=b, kind="local", arg=2, part=part, parts=32)))
            for dims in ((3, 2, 2), (2, 3, 3)):
                for part in range(4):
                    J.append(("enumerate_patterns", dict(dims=dims, ec=ec, b=b, kind="weight", arg=1, part=part, parts=4)))
                J.append(("edge", dict(dims=dims, ec=ec, b=b)))
        for fam in ("macros", "classes"):
            J.append(("structured", dict(dims=(3, 3, 3) if ec == "primal" else (2, 3, 4), ec=ec, b=b, kind=fam, step=1 if deep else 11)))
        if not deep:
            J.append(("edge", dict(dims=(3, 2, 2) if ec == "primal" else (2, 2, 3), ec=ec, b=b)))
    return sorted(J, key=lambda j: -(j[0] == "response"))
