"""Reference models and helpers, independent of the code under test.

Lattice reference.  In a box given per axis by the boundary type (primal: 0..2d-2,
dual: 1..2d-1, periodic: integers modulo 2d), the sites with exactly one even
coordinate are the primal qubits, those with exactly two the dual qubits; bonds join
sites at unit distance.  Primal checks sit on odd-odd-odd points and dual checks on
even-even-even points; a check contains its (up to six) unit-distance neighbours.
"""
import functools, heapq, importlib.util, itertools as it, math, os, subprocess, sys, sysconfig, tempfile

import numpy as np

from mc.core import Violation, need, REPO, VERIF, repo_hash

AXES = "xyz"
TYPES = {
    ("primal", "open"): ("primal", "dual", "dual"),
    ("dual", "open"): ("primal", "dual", "primal"),
    ("primal", "toric"): ("periodic", "periodic", "dual"),
    ("dual", "toric"): ("periodic", "periodic", "primal"),
    ("primal", "periodic"): ("periodic",) * 3,
    ("dual", "periodic"): ("periodic",) * 3,
}


# --------------------------------------------------------------------- compiled backend
def build_lemon():
    """Build the compiled matching module from /repo's current source; return its path."""
    src = os.path.join(REPO, "flamingpy/cpp/lemonpy.cpp")
    out = os.path.join(VERIF, ".build", "lemonpy-" + repo_hash([src]))
    path = os.path.join(out, "lemonpy" + sysconfig.get_config_var("EXT_SUFFIX"))
    if not os.path.exists(path):
        os.makedirs(out, exist_ok=True)
        pb = "/opt/vp/cmake/pybind11"
        incs = [os.path.join(pb, "include"), pb, sysconfig.get_paths()["include"]]
        try:
            import pybind11
            incs.append(pybind11.get_include())
        except ImportError:
            pass
        tmp = f"{path}.{os.getpid()}"
        cmd = ["g++", "-O1", "-w", "-shared", "-fPIC", "-std=c++14"] + ["-I" + i for i in incs if os.path.isdir(i)]
        subprocess.run(cmd + [src, "-o", tmp, "-llemon"], check=True)
        os.replace(tmp, path)
    return path


def load_lemon():
    path = build_lemon()
    import flamingpy.cpp
    spec = importlib.util.spec_from_file_location("flamingpy.cpp.lemonpy", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules["flamingpy.cpp.lemonpy"] = mod
    flamingpy.cpp.lemonpy = mod
    import flamingpy.decoders.mwpm.lemon as l
    l.lp = mod


# --------------------------------------------------------------------- lattice reference
class Box:
    def __init__(self, dims, types):
        self.dims, self.types = tuple(int(d) for d in dims), tuple(types)
        self.lo = [{"primal": 0, "dual": 1, "periodic": 0}[t] for t in types]
        self.hi = [{"primal": 2 * d - 2, "dual": 2 * d - 1, "periodic": 2 * d - 1}[t] for d, t in zip(self.dims, types)]

    def points(self, n_even):
        rng = [range(l, h + 1) for l, h in zip(self.lo, self.hi)]
        return [p for p in it.product(*rng) if sum(c % 2 == 0 for c in p) == n_even]

    def wrap(self, p):
        """p taken into the box, or None if it is outside."""
        q = []
        for c, d, t, l, h in zip(p, self.dims, self.types, self.lo, self.hi):
            if t == "periodic":
                c %= 2 * d
            elif not l <= c <= h:
                return None
            q.append(c)
        return tuple(q)

    def around(self, p):
        """Sites of the box at unit distance from p (with wrap-around)."""
        res = []
        for a in range(3):
            for s in (-1, 1):
                q = list(p)
                q[a] += s
                q = self.wrap(q)
                if q is not None and q not in res:
                    res.append(q)
        return res

    def primal(self):
        return self.points(1)

    def dual(self):
        return self.points(2)

    def bonds(self):
        """{frozenset of two sites: is it a wrap-around bond}"""
        dual = set(self.dual())
        res = {}
        for p in self.primal():
            for q in self.around(p):
                if q in dual:
                    res[frozenset((p, q))] = max(abs(a - b) for a, b in zip(p, q)) > 1
        return res


class RefCode:
    """Checks, boundary points and logical structure of one surface code."""

    def __init__(self, dims, ec, boundaries):
        self.dims = (dims,) * 3 if isinstance(dims, int) else tuple(dims)
        self.ec, self.boundaries = ec, boundaries
        self.types = TYPES[ec, boundaries]
        self.box = Box(self.dims, self.types)
        self.sites = set(self.box.primal()) | set(self.box.dual())
        own = set(self.box.primal() if ec == "primal" else self.box.dual())
        other = self.box.dual() if ec == "primal" else self.box.primal()
        centres = self.box.points(0 if ec == "primal" else 3)
        self.checks = {c: frozenset(q for q in self.box.around(c) if q in own) for c in centres}
        self.qubits = sorted(set().union(*self.checks.values()))
        self.index = {q: i for i, q in enumerate(self.qubits)}
        self.check_list = sorted(self.checks)
        self.of = {q: [] for q in self.qubits}
        for c in self.check_list:
            for q in self.checks[c]:
                self.of[q].append(c)
        self.low, self.high = [], []
        if boundaries == "open":
            a = 0 if ec == "primal" else 1
            self.axis = a
            self.low = [q for q in self.qubits if len(self.of[q]) == 1 and q[a] == self.box.lo[a]]
            self.high = [q for q in self.qubits if len(self.of[q]) == 1 and q[a] == self.box.hi[a]]
        self.directions = {"open": [0 if ec == "primal" else 1], "toric": [0, 1], "periodic": [0, 1, 2]}[boundaries]
        self.distance = min(self.dims[a] for a in self.directions)
        # stabilizers of the lattice acting on this complex: neighbourhoods of the other complex
        self.trivial = []
        for v in other:
            m = self.mask(q for q in self.box.around(v) if q in own)
            if m:
                self.trivial.append(m)
        self.syn_mask = [self.mask(self.checks[c]) for c in self.check_list]
        # syndrome of each single flip, as a mask over checks
        self.flip_syn = [0] * len(self.qubits)
        for i, c in enumerate(self.check_list):
            for q in self.checks[c]:
                self.flip_syn[self.index[q]] |= 1 << i

    def mask(self, qubits):
        m = 0
        for q in qubits:
            m ^= 1 << self.index[q]
        return m

    def unmask(self, m):
        return [q for i, q in enumerate(self.qubits) if m >> i & 1]

    def syndrome(self, m):
        s, i = 0, 0
        while m:
            if m & 1:
                s ^= self.flip_syn[i]
            m >>= 1
            i += 1
        return s

    def planes(self, a):
        """Masks of the correlation surfaces perpendicular to axis a (own qubits only)."""
        par = 0 if self.ec == "primal" else 1
        res = []
        for n in range(2 * self.dims[a] + 1):
            if n % 2 == par:
                m = self.mask(q for q in self.qubits if q[a] == n)
                if m:
                    res.append((n, m))
        return res

    @functools.cached_property
    def trivial_basis(self):
        return Span(self.trivial)

    def is_trivial(self, m):
        return self.trivial_basis.contains(m)

    @functools.cached_property
    def cycles(self):
        """Basis of all undetectable flip sets."""
        return nullspace(self.flip_syn, len(self.qubits))

    def logicals(self):
        """One straight non-trivial chain per logical direction."""
        res = []
        for a in self.directions:
            for n, m in self.planes(a)[:1]:
                base = self.unmask(m)[0]
            line = [q for q in self.qubits if all(q[b] == base[b] for b in range(3) if b != a)]
            res.append(self.mask(line))
        return res

    # -------- matching reference
    def dist_from(self, sources, w):
        """Dijkstra over checks and one boundary node 'B'; w: weight per qubit index."""
        adj = self.adjacency
        d = {s: 0 for s in sources}
        h = [(0, 0, s) for s in sources]
        n = 0
        done = set()
        while h:
            x, _, u = heapq.heappop(h)
            if u in done:
                continue
            done.add(u)
            for v, qi in adj[u]:
                y = x + w[qi]
                if v not in d or y < d[v]:
                    d[v] = y
                    n += 1
                    heapq.heappush(h, (y, n, v))
        return d

    @functools.cached_property
    def adjacency(self):
        adj = {i: [] for i in range(len(self.check_list))}
        adj["B"] = []
        ci = {c: i for i, c in enumerate(self.check_list)}
        for q in self.qubits:
            cs = [ci[c] for c in self.of[q]]
            a, b = (cs[0], cs[1]) if len(cs) == 2 else (cs[0], "B")
            adj[a].append((b, self.index[q]))
            adj[b].append((a, self.index[q]))
        return adj

    def optimum(self, syn, w):
        """Smallest total weight of a flip set with syndrome mask syn (weights >= 0)."""
        t = [i for i in range(len(self.check_list)) if syn >> i & 1]
        if not t:
            return 0
        D = {i: self.dist_from([i], w) for i in t}
        return dp_matching(t, lambda a, b: D[a].get(b, math.inf), lambda a: D[a].get("B", math.inf))

    def optimum_many(self, syn, w):
        """As optimum, for many odd checks: a matching of the checks on exact integer
        weights, whose optimality networkx verifies by a dual solution."""
        import networkx as nx

        t = [i for i in range(len(self.check_list)) if syn >> i & 1]
        scale = 10**9
        w = [round(x * scale) for x in w]
        D = {i: self.dist_from([i], w) for i in t}
        side = {i: D[i].get("B") for i in t}
        big = 1 + 2 * max(max(d.values()) for d in D.values())
        g = nx.Graph()
        for a, b in it.combinations(t, 2):
            d = [D[a][b]] if b in D[a] else []
            if side[a] is not None and side[b] is not None:
                d.append(side[a] + side[b])
            if d:
                g.add_edge(a, b, weight=big - min(d))
        if len(t) % 2:
            for a in t:
                if side[a] is not None:
                    g.add_edge(a, "B", weight=big - side[a])
        m = nx.max_weight_matching(g, maxcardinality=True)
        assert 2 * len(m) == len(t) + len(t) % 2
        return sum(big - g.edges[e]["weight"] for e in m) / scale

    def dense_syndromes(self):
        """(name, flip set) for syndromes with many odd checks, in regular patterns."""
        n = len(self.check_list)
        c = self.check_list
        span = [max(x[a] for x in c) + 1 for a in range(3)]
        for name, pick in (
            ("all", lambda i: True), ("even", lambda i: i % 2 == 0), ("not third", lambda i: i % 3 > 0), ("first half", lambda i: 2 * i < n), ("last but two", lambda i: i < n - 2),
            ("layers", lambda i: c[i][2] % 4 < 2), ("columns", lambda i: c[i][0] % 4 < 2), ("chess", lambda i: sum(c[i]) % 4 < 2), ("faces", lambda i: any(x < 2 or x + 2 >= s for x, s in zip(c[i], span))),
            ("mixed", lambda i: (i * 37 + 5) % 19 < 9), ("sparse", lambda i: (i * 29) % 7 == 0),
        ):
            t = [i for i in range(n) if pick(i)]
            m = self.solve(t)
            while m is None and t:
                t.pop()
                m = self.solve(t)
            if t:
                yield name, m

    def solve(self, t):
        """A flip set with exactly the odd checks t, or None."""
        v, m = sum(1 << i for i in t), 0
        while v:
            if v.bit_length() - 1 not in self._rows:
                return None
            a, b = self._rows[v.bit_length() - 1]
            v, m = v ^ a, m ^ b
        return m

    @functools.cached_property
    def _rows(self):
        rows = {}
        for i, s in enumerate(self.flip_syn):
            v, m = s, 1 << i
            while v and v.bit_length() - 1 in rows:
                a, b = rows[v.bit_length() - 1]
                v, m = v ^ a, m ^ b
            if v:
                rows[v.bit_length() - 1] = (v, m)
        return rows


def dp_matching(t, dist, single):
    """Least weight of pairing up the elements of t, some of them matched alone."""
    n = len(t)
    best = {0: 0}

    @functools.lru_cache(None)
    def f(m):
        if not m:
            return 0
        i = (m & -m).bit_length() - 1
        r = m & ~(1 << i)
        b = single(t[i]) + f(r)
        k = r
        while k:
            j = (k & -k).bit_length() - 1
            k &= k - 1
            b = min(b, dist(t[i], t[j]) + f(r & ~(1 << j)))
        return b

    return f((1 << n) - 1)


class Span:
    """GF(2) span of bit masks."""

    def __init__(self, vecs=()):
        self.rows = {}
        for v in vecs:
            self.add(v)

    def reduce(self, v):
        while v:
            h = v.bit_length() - 1
            if h not in self.rows:
                return v
            v ^= self.rows[h]
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.rows[v.bit_length() - 1] = v
        return bool(v)

    def contains(self, v):
        return self.reduce(v) == 0

    @property
    def rank(self):
        return len(self.rows)


def nullspace(cols, n):
    """Basis (bit masks over n columns) of {m : xor of cols[i] over i in m is 0}."""
    rows, basis = {}, []
    for i in range(n):
        v, m = cols[i], 1 << i
        while v:
            h = v.bit_length() - 1
            if h not in rows:
                rows[h] = (v, m)
                break
            v ^= rows[h][0]
            m ^= rows[h][1]
        if not v:
            basis.append(m)
    return basis


@functools.lru_cache(None)
def refcode(dims, ec, boundaries):
    return RefCode(dims, ec, boundaries)


# --------------------------------------------------------------------- code under test
def make_code(dims, ec="primal", boundaries="open", backend="rustworkx", **kw):
    from flamingpy.codes import SurfaceCode

    dims = tuple(dims) if isinstance(dims, (list, tuple)) else dims
    return SurfaceCode(dims, ec, boundaries, backend=backend, **kw)


@functools.lru_cache(64)
def _cached(dims, ec, boundaries, backend):
    return make_code(dims, ec, boundaries, backend)


def cached_code(dims, ec, boundaries, backend="rustworkx"):
    """A code shared by the cases of a worker; every case sets all the per-trial data."""
    return _cached(tuple(dims) if isinstance(dims, (list, tuple)) else dims, ec, boundaries, backend)


def ref_of(dims, ec, boundaries):
    return refcode(tuple(dims) if isinstance(dims, (list, tuple)) else (dims,) * 3, ec, boundaries)


def set_bits(code, qubits):
    """Give every qubit of the lattice a bit: 1 on the given points, 0 elsewhere."""
    nodes = code.graph.nodes
    for _, d in nodes.data():
        d["bit_val"] = 0
    for q in qubits:
        nodes[q]["bit_val"] = 1


def get_bits(code):
    return {p: d["bit_val"] for p, d in code.graph.nodes.data() if d.get("bit_val")}


def set_states(code, p_points):
    """State labels: p on the given points, GKP elsewhere."""
    for _, d in code.graph.nodes.data():
        d["state"] = "GKP"
    for q in p_points:
        code.graph.nodes[q]["state"] = "p"


def clear_states(code):
    for _, d in code.graph.nodes.data():
        d.pop("state", None)


def set_weights(code, w):
    """Weights by qubit point, on the lattice and on the decoding graph."""
    for q, x in w.items():
        code.graph.nodes[q]["weight"] = x
    for ec in code.ec:
        getattr(code, ec + "_stab_graph").assign_weights(code)


def erasable(ref):
    """For each own qubit, a set of neighbouring sites whose swap-out heralds that qubit.

    A qubit is heralded when at least two of its neighbours are p-squeezed; the own
    qubits sharing two swapped-out neighbours are heralded together.
    """
    return {q: [v for v in ref.box.around(q) if v in ref.sites and v not in ref.index] for q in ref.qubits}


def heralded(ref, p_points):
    """Own qubits with at least two swapped-out neighbours."""
    p = set(p_points)
    return [q for q in ref.qubits if sum(v in p for v in ref.box.around(q)) >= 2]


def subsets(items, kmin, kmax):
    for k in range(kmin, kmax + 1):
        yield from it.combinations(items, k)


def chunks(n, size):
    return [(i, min(n, i + size)) for i in range(0, n, size)]


class Hooked:
    pass


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


# --------------------------------------------------------------------- random generator stub
class StubRNG:
    """Plays scripted values with the NumPy Generator interface and records the calls.

    Handlers are functions of the call's arguments; a missing one fails the case.
    Shapes follow NumPy's rules for the call.
    """

    def __init__(self, normal=None, random=None, integers=None, binomial=None, choice=None):
        self.calls = []
        self._normal, self._random, self._integers = normal, random, integers
        self._binomial, self._choice = binomial, choice

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        shape = np.broadcast_shapes(loc.shape, scale.shape) if size is None else np.atleast_1d(size)
        n = int(np.prod(shape)) if len(np.atleast_1d(shape)) else 1
        k = len([c for c in self.calls if c[0] == "normal"])
        self.calls.append(("normal", np.array(loc), np.array(scale)))
        z = np.asarray(self._normal(k, n), dtype=float).reshape(shape)
        out = loc + scale * z
        return float(out) if np.ndim(out) == 0 else out

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size if size is not None else None)

    def random(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        v = [self._random() for _ in range(n)]
        self.calls.append(("random", n))
        return v[0] if size is None else np.array(v).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def integers(self, low, high=None, size=None, **kw):
        if high is None:
            low, high = 0, low
        n = 1 if size is None else int(np.prod(size))
        v = [self._integers(low, high) for _ in range(n)]
        self.calls.append(("integers", low, high, n))
        return v[0] if size is None else np.array(v).reshape(size)

    def binomial(self, n, p, size=None):
        self.calls.append(("binomial", n, p))
        return self._binomial(n, p)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        a = list(range(a)) if np.isscalar(a) else list(a)
        self.calls.append(("choice", len(a), size, replace))
        return np.array(self._choice(a, size, replace))
