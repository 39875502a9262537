"""C10: independent flip noise follows the given probability."""
import copy

from mc.core import need
from mc.lib import *
from mc.c09 import Stream

PROPERTY = "C10"
BOUNDS = {
    "quick": "every pattern of below/above-threshold draws on the 2x2x2 open codes (2^19 patterns each complex, draws next to the threshold); patterns of "
    "weight <= 2 and complements on codes of every boundary (<= 1 on 4x5x4 codes); every pair (earlier, later) of patterns of weight <= 1 or complement; probabilities 0, 1, "
    "extremes and their float neighbours, numpy and integer forms; invalid probabilities; seeded generators",
    "thorough": "as quick with weight <= 3, 3x3x3 codes at weight <= 2, pairs of patterns of weight <= 2",
}
ASSUMPTIONS = ["draws are taken from the generator's random/uniform methods; which draw belongs to which qubit is learnt from single low draws"]
KEEP = ("bit_val",)


class Threshold(Stream):
    """Draw t is below the threshold for t in the pattern (bit mask), else not below."""

    def __init__(self, pattern, below, above):
        super().__init__()
        self.pattern, self.below, self.above = pattern, below, above

    def _take(self, src, pos, n):
        return [self.below if self.pattern >> (pos + k) & 1 else self.above for k in range(n)]


def around(p):
    """Draws just below and at/above the threshold p (draws lie in [0, 1))."""
    top = math.nextafter(1.0, 0.0)
    below = [x for x in (0.0, p / 2, math.nextafter(p, 0.0)) if x < p]
    above = [x for x in (p, math.nextafter(p, 1.0), (1 + p) / 2, top) if p <= x < 1]
    return sorted(set(below)), sorted(set(above))


def other(code):
    """Everything the noise must leave alone."""
    G = code.graph
    return (
        [(p, sorted((k, str(v)) for k, v in d.items() if k != "bit_val")) for p, d in G.nodes(data=True)],
        [(u, v, sorted(map(str, d.items()))) for u, v, d in G.edges(data=True)],
        dict(G.to_points), sorted(G.graph), code.all_syndrome_inds, len(G),
    )


def bits_of(code, order):
    return [code.graph.nodes[p].get("bit_val") for p in order]


def learn(code, order, p=0.5):
    """Which qubit each draw decides."""
    from flamingpy.noise import IidNoise

    N = len(order)
    L = IidNoise(code, p)
    where = []
    for t in range(N):
        r = Threshold(1 << t, p / 2, (1 + p) / 2)
        L.apply_noise(r)
        b = bits_of(code, order)
        need(r.nu == N, f"{r.nu} uniform draws for {N} qubits")
        need(sorted(map(int, b)) == [0] * (N - 1) + [1], lambda: f"draw {t} alone below the threshold gives bits {b}")
        where.append(b.index(1))
    need(sorted(where) == list(range(N)), lambda: f"draws decide the qubits {where}")
    return where


def expect(where, pattern):
    b = [0] * len(where)
    for t, i in enumerate(where):
        if pattern >> t & 1:
            b[i] = 1
    return b


def check(L, code, order, where, pattern, below, above):
    r = Threshold(pattern, below, above)
    L.apply_noise(r)
    need(r.nu == len(order) and r.nz == r.ni == 0 and not r.log, lambda: f"draws {r.nu}/{r.nz}/{r.ni}/{r.log} for {len(order)} qubits")
    got, want = bits_of(code, order), expect(where, pattern)
    need(got == want, lambda: f"bits differ from the draws at {[(order[i], got[i], want[i]) for i in range(len(order)) if got[i] != want[i]][:4]}")
    need(not any(isinstance(b, float) for b in got), "bits are not integers")


def exhaustive(rep, dims, ec, b, part, parts, p):
    """Every pattern of draws, one after another on the same code."""
    from flamingpy.noise import IidNoise

    code = make_code(dims, ec, b)
    order = list(code.graph.nodes)
    N = len(order)
    with rep.case([dims, ec, b, p, "which draw decides which qubit"], transitions=N):
        where = learn(code, order)
    L = IidNoise(code, p)
    bel, abv = around(p)
    o0 = other(code)
    size = 1024
    for lo in range(part * size, 1 << N, parts * size):
        with rep.case([dims, ec, b, p, "patterns", lo, size], states=size, transitions=size, limit=600):
            for pat in range(lo, min(lo + size, 1 << N)):
                check(L, code, order, where, pat, bel[pat % len(bel)], abv[pat // 2 % len(abv)])
    with rep.case([dims, ec, b, p, "nothing else changed"]):
        need(other(code) == o0, "the noise changed something besides the bits")
    rep.seen((dims, ec, b, N))
    rep.sample([dims, ec, b, p, bin(pat)])


def patterns(N, kmax):
    full = (1 << N) - 1
    for k in subsets(range(N), 0, kmax):
        m = sum(1 << i for i in k)
        yield m
        yield full ^ m


def general(rep, dims, ec, b, kmax, ps):
    """Codes of every boundary, many probabilities, own values of draws."""
    from flamingpy.noise import IidNoise

    code = make_code(dims, ec, b)
    order = list(code.graph.nodes)
    N = len(order)
    with rep.case([dims, ec, b, "which draw decides which qubit"], transitions=N):
        where = learn(code, order)
        need(set(order) == ref_of(dims, ec, b).sites, "the code's qubits are not those of the lattice")
    o0 = other(code)
    for p in ps:
        bel, abv = around(float(p))
        for j, pat in enumerate(patterns(N, kmax if p == ps[0] else 1)):
            if pat and not bel or pat != (1 << N) - 1 and not abv:
                continue
            with rep.case([dims, ec, b, {"p": repr(p), "draws below": bin(pat)}]):
                L = IidNoise(code, p)
                check(L, code, order, where, pat, bel[j % len(bel)] if bel else 0.0, abv[j % len(abv)] if abv else 0.0)
                need(L.error_probability == p, "the probability was changed")
        rep.seen((b, ec, repr(p)))
    with rep.case([dims, ec, b, "nothing else changed"]):
        need(other(code) == o0, "the noise changed something besides the bits")


def extremes(rep, dims, ec, b):
    from flamingpy.noise import IidNoise

    code = make_code(dims, ec, b)
    order = list(code.graph.nodes)
    N = len(order)
    top = math.nextafter(1.0, 0.0)
    for p, want in ((0, 0), (0.0, 0), (-0.0, 0), (np.float64(0), 0), (1, 1), (1.0, 1), (np.float64(1), 1), (np.int64(1), 1)):
        for v in (0.0, 5e-324, 1e-17, 0.25, 0.5, 0.75, top):
            for alt in (0.0, 0.5, top):
                with rep.case([dims, ec, b, {"p": repr(p), "draws": [v, alt]}]):
                    IidNoise(code, p).apply_noise(Stream(uniforms=lambda t: v if t % 2 else alt))
                    need(bits_of(code, order) == [want] * N, lambda: f"p = {p!r} gives bits {bits_of(code, order)}")
    for p in (-1, -0.5, -1e-12, -5e-324, math.nextafter(1.0, 2.0), 1 + 1e-12, 1.5, 2, 100, math.inf, -math.inf, np.float64(-0.1), np.float64(1.1), np.int64(2), np.int64(-1)):
        with rep.case([dims, ec, b, {"p": repr(p)}]):
            before = bits_of(code, order)
            try:
                IidNoise(code, p)
            except Exception:
                need(bits_of(code, order) == before, "a refused probability changed the code")
            else:
                need(False, f"probability {p!r} accepted")
    for p in (5e-324, 1e-300, top, 1e-9, 1 - 1e-9):
        with rep.case([dims, ec, b, {"p": p}]):
            L = IidNoise(code, p)
            L.apply_noise(Stream(uniforms=lambda t: 0.0))
            need(bits_of(code, order) == [1] * N, "draws of zero must flip")
            L.apply_noise(Stream(uniforms=lambda t: top))
            need(bits_of(code, order) == [0] * N, "the largest draw must not flip")


def repeated(rep, dims, ec, b, kmax):
    """Each application overwrites the previous one, on the same or another object."""
    from flamingpy.decoders.decoder import correct
    from flamingpy.noise import IidNoise

    code = make_code(dims, ec, b)
    order = list(code.graph.nodes)
    N = len(order)
    with rep.case([dims, ec, b, "which draw decides which qubit"], transitions=N):
        where = learn(code, order)
    A, B = IidNoise(code, 0.3), IidNoise(code, 0.7)
    pats = list(patterns(N, kmax))
    for i, x in enumerate(pats):
        with rep.case([dims, ec, b, "first", bin(x), "then each pattern"], states=len(pats), transitions=2 * len(pats)):
            for j, y in enumerate(pats):
                check(A, code, order, where, x, 0.1, 0.5)
                L = (A, B)[(i + j) % 2]
                if (i + 3 * j) % 11 == 0:
                    correct(code, "UF" if j % 2 else "MWPM")
                p = L.error_probability
                check(L, code, order, where, y, p / 2, (1 + p) / 2)
    o = set_states, clear_states
    # state labels and outcomes stored by others stay
    with rep.case([dims, ec, b, "labels of others"]):
        set_states(code, order[:3])
        for k, q in enumerate(order):
            code.graph.nodes[q]["weight"] = k
            code.graph.nodes[q]["hom_val_p"] = k / 3
        o0 = other(code)
        for y in pats:
            check(A, code, order, where, y, 0.1, 0.5)
        need(other(code) == o0, "the noise changed something besides the bits")


def seeded(rep, dims, ec, b):
    """numpy generators: as many flips as draws below the threshold, the state advanced by one draw per qubit."""
    from flamingpy.noise import IidNoise

    code = make_code(dims, ec, b)
    order = list(code.graph.nodes)
    N = len(order)
    where = learn(code, order)
    for p in (0.05, 0.3, 0.9):
        L = IidNoise(code, p)
        for seed in range(25):
            with rep.case([dims, ec, b, {"p": p, "seed": seed}], transitions=3):
                r, s = np.random.default_rng(seed), np.random.default_rng(seed)
                for _ in range(3):
                    L.apply_noise(r)
                    u = s.random(N)
                    want = expect(where, sum(1 << t for t in range(N) if u[t] < p))
                    need(bits_of(code, order) == want, "bits are not those of the generator's next draws")
                rep.seen(sum(want))
    with rep.case([dims, ec, b, "own generator"]):
        counts = set()
        for _ in range(40):
            L = IidNoise(code, 0.5)
            L.apply_noise()
            bits = bits_of(code, order)
            need(set(bits) <= {0, 1}, "bits are not 0 or 1")
            counts.add(tuple(bits))
        need(len(counts) > 1, "the noise is the same at each of 40 applications")


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for ec in ("primal", "dual"):
        for part in range(16):
            J.append(("exhaustive", dict(dims=(2, 2, 2), ec=ec, b="open", part=part, parts=16, p=0.3)))
        for b in ("open", "toric", "periodic"):
            for dims in [(2, 2, 2), (2, 3, 2)] + ([(3, 3, 3), (2, 2, 4)] if deep else []):
                J.append(("general", dict(dims=dims, ec=ec, b=b, kmax=3 if deep and dims == (2, 2, 2) else 2, ps=[0.3, 0.5, 1e-3, 0.99, 1, 0, 0.1])))
            J.append(("general", dict(dims=(4, 5, 4), ec=ec, b=b, kmax=1, ps=[0.3, 0.9])))
            J.append(("extremes", dict(dims=(2, 2, 2), ec=ec, b=b)))
            J.append(("repeated", dict(dims=(2, 2, 2), ec=ec, b=b, kmax=2 if deep else 1)))
            J.append(("seeded", dict(dims=(2, 2, 2), ec=ec, b=b)))
    return J
