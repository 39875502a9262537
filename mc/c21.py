"""C21: results are reproducible from the seed alone."""
import contextlib, hashlib, inspect, json, subprocess, sys

from mc.core import need
from mc.lib import *
from mc.c01 import prepare, DECS, others  # noqa: F401

PROPERTY = "C21"
BOUNDS = {
    "quick": "identity hashes of all objects of the library replaced by enumerated ones: 2x2x2 open codes under all 24 orders of their stabilizers x 31 orders "
    "of the decoders' objects, every syndrome x every swap-out set of up to 3 sites; 13 larger codes under 9 to 18 orders, flips of weight 1 or 2, every (third) "
    "pair of neighbouring swap-outs, and structured erasures; 5 wide codes with swap-outs on every sublattice of period 3 to 6; all decoders and backends; noise of every kind under each order; 6 processes with different string "
    "hash seeds and memory contents; the same run repeated on used objects",
    "thorough": "as quick with 60 orders, flips of weight 3, 40 processes and all swap-out sets of 2x2x2 codes",
}
ASSUMPTIONS = ["identity hashes of Python objects are arbitrary but fixed distinct numbers", "uniform and analog weights"]


# ---------------------------------------------------------------- controlled identity hashes
def order_fn(spec):
    """Hash of the i-th object, from a specification of the order."""
    kind, a = spec
    if kind == "id":
        return lambda i: i
    if kind == "reverse":
        return lambda i: (1 << 20) - i
    if kind == "times":
        return lambda i: (i * a) % (1 << 20)
    if kind == "xor":
        return lambda i: i ^ a
    if kind == "rot":
        return lambda i: (i + a) % 64
    if kind == "perm":
        return lambda i: a[i] if i < len(a) else i
    if kind == "mix":
        return lambda i: int.from_bytes(hashlib.blake2b(f"{a},{i}".encode(), digest_size=5).digest(), "big")
    raise ValueError(kind)


def own_classes():
    """Classes of the library whose objects hash by identity."""
    res = []
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "flamingpy" and mod:
            for c in list(vars(mod).values()):
                if inspect.isclass(c) and (c.__module__ or "").startswith("flamingpy") and c.__hash__ is object.__hash__ and c not in res:
                    res.append(c)
    return res


class Hashes:
    """Within this context the library's objects hash in a chosen order of creation."""

    def __init__(self):
        self.fn = {}
        self.keep = {}
        self.count = {}

    def __enter__(self):
        import flamingpy.decoders, flamingpy.codes, flamingpy.noise, flamingpy.decoders.unionfind.uf_classes  # noqa: F401,E401

        self.classes = own_classes()
        for c in self.classes:
            kind = "stab" if "tabilizer" in c.__name__ else "other"

            def h(obj, kind=kind):
                k = id(obj)
                if k not in self.keep:
                    n = self.count[kind] = self.count.get(kind, -1) + 1
                    self.keep[k] = (obj, self.fn.get(kind, lambda i: i)(n))
                return self.keep[k][1]

            c.__hash__ = h
        return self

    def __exit__(self, *a):
        for c in self.classes:
            del c.__hash__
        return False

    def reset(self, stab=None, other=None):
        """Forget all objects; later ones are numbered anew."""
        self.keep.clear()
        self.count.clear()
        self.fn = {"stab": order_fn(stab or ("id", 0)), "other": order_fn(other or ("id", 0))}

    def drop_others(self, n_keep):
        """Forget the decoders' objects (they are gone), keep the code's."""
        for k in list(self.keep)[n_keep:]:
            del self.keep[k]
        self.count.pop("other", None)


ORDERS = [("id", 0), ("reverse", 0), ("times", 3), ("times", 5), ("times", 7), ("times", 0x9E375), ("xor", 1), ("xor", 2), ("xor", 3), ("xor", 5), ("xor", 7), ("xor", 15),
          ("rot", 1), ("rot", 13), ("rot", 50)] + [("mix", k) for k in range(45)]


def decode(code, ref, dec, be, flips, opts=None):
    from flamingpy.decoders.decoder import correct

    set_bits(code, ref.unmask(flips))
    ok = correct(code, dec, opts, decoder_opts={"backend": be} if be else None)
    after = ref.mask(p for p in get_bits(code) if p in ref.index)
    return bool(ok), after ^ flips


def chains_upto(ref, k):
    return [ref.mask(c) for c in subsets(ref.qubits, 0, k)]


def syndromes(ref):
    """One chain per syndrome."""
    res = {}
    for k in range(len(ref.qubits) + 1):
        for c in subsets(ref.qubits, k, k):
            m = ref.mask(c)
            res.setdefault(ref.syndrome(m), m)
        if len(res) == 1 << (len(ref.check_list) - (0 if ref.boundaries == "open" else 1)):
            break
    return sorted(res.values())


def explore(rep, dims, ec, b, sg, cases, decs, orders):
    """cases: (swap-outs, flip masks).  The first order sets what all the others must repeat."""
    ref = ref_of(dims, ec, b)
    first = {}
    with Hashes() as H:
        for so, oo in orders:
            H.reset(so, oo)
            code = make_code(dims, ec, b, sg)
            list(map(hash, [s for s in getattr(code, ec + "_stab_graph").nodes() if not isinstance(s, (str, tuple))]))
            base = len(H.keep)
            for pts, flips in cases:
                with rep.case([dims, ec, b, sg, "orders", so, oo, {"swapped": sorted(pts)}], states=len(flips), transitions=len(flips) * len(decs)):
                    set_states(code, pts)
                    for d in decs:
                        dec, be = DECS[d]
                        for f in flips:
                            H.drop_others(base)
                            got = decode(code, ref, dec, be, f)
                            key = (tuple(sorted(pts)), d, f)
                            want = first.setdefault(key, (got, so, oo))
                            if got != want[0]:
                                rep.bad(f"{dec} {be or ''} on flips {ref.unmask(f)} with swap-outs {sorted(pts)}: recovery {ref.unmask(got[1])}, verdict {got[0]} under hash orders "
                                        f"{so, oo}; recovery {ref.unmask(want[0][1])}, verdict {want[0][0]} under {want[1:]}")
                    rep.seen((dims, ec, b, len(pts)))
    rep.sample([dims, ec, b, sg, len(cases), orders[-1]])


def small(rep, ec, sg, part, parts, smax, n_other):
    """The smallest codes: all orders of the stabilizers, all syndromes."""
    dims = (2, 2, 2)
    ref = ref_of(dims, ec, "open")
    flips = syndromes(ref)
    allc = [(pts, flips) for pts in subsets(others(ref), 0, smax)]
    # one swap-out set of each heralded set and of each count pattern
    seen, cases = set(), []
    for pts, f in allc:
        key = tuple(sorted(heralded(ref, pts)))
        if key not in seen:
            seen.add(key)
            cases.append((pts, f))
    perms = list(it.permutations(range(len(ref.check_list))))
    orders = [(("perm", list(p)), ("id", 0)) for p in perms] + [(("perm", list(perms[(7 * k) % len(perms)])), o) for k, o in enumerate(ORDERS[:n_other])]
    cases = cases[part::parts]
    explore(rep, dims, ec, "open", sg, cases, [3], orders)
    explore(rep, dims, ec, "open", sg, cases[:6], [0, 1, 2], orders[::4])


def larger(rep, dims, ec, b, sg, k, nord, part, parts, decs, erasures, nflips=25, stride=1):
    ref = ref_of(dims, ec, b)
    oth = others(ref)
    flips = chains_upto(ref, k)
    some = flips[:: max(1, len(flips) // nflips)]
    cases = [((), flips)]
    if erasures:
        near = [(u, v) for u, v in it.combinations(oth, 2) if set(ref.box.around(u)) & set(ref.box.around(v)) & set(ref.qubits)]
        cases += [(p, some) for p in near[::stride]]
        cases += [(tuple(oth[i::n]), some) for n in (1, 2, 3, 4, 5) for i in range(n)]
        cases += [(tuple(v for v in oth if v[a] == c), some) for a in range(3) for c in range(2 * max(ref.dims))]
    cases = cases[part::parts]
    orders = [(o, ORDERS[(3 * i) % nord]) for i, o in enumerate(ORDERS[:nord])]
    explore(rep, dims, ec, b, sg, cases, decs, orders)


def combs(rep, dims, ec, sg, nord, part, parts, nflips):
    """Wide codes with many separate clusters: swap-outs on every sublattice of small period."""
    ref = ref_of(dims, ec, "open")
    oth = others(ref)
    sets = []
    for n in (3, 4, 5, 6):
        for a in it.product(range(1, 4), repeat=3):
            for r in range(n):
                for keep in (1, 2):
                    pts = tuple(v for v in oth if (sum(x * y for x, y in zip(a, v)) + (v[2] // 2) * (keep - 1)) % n == r)
                    if pts not in sets:
                        sets.append(pts)
    qs = ref.qubits
    flips = [ref.mask(c) for c in [(qs[0],), (qs[len(qs) // 2],), (qs[-1],), tuple(qs[::3]), tuple(qs[1::5]), tuple(qs[2::7]), tuple(qs[::4]), tuple(qs[3::11])][:nflips]]
    cases = [(p, flips) for p in sets[part::parts]]
    explore(rep, dims, ec, "open", sg, cases, [3], [(o, ORDERS[(2 * i) % nord]) for i, o in enumerate(ORDERS[:nord])])


# ---------------------------------------------------------------- whole runs
def run_digest(dims, ec, b, noise, decoder, backend, opts, seed, reuse=1, sg="rustworkx", full=False):
    """Everything a run with a given seed produces, as text."""
    from flamingpy.codes import alternating_polarity
    from flamingpy.decoders.decoder import correct
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    ref = ref_of(dims, ec, b)
    code = make_code(dims, ec, b, sg, **({"polarity": alternating_polarity} if noise.endswith("-alt") else {}))
    kind = noise.split("-")[0]
    if kind == "iid":
        layer = IidNoise(code, 0.15)
    elif kind == "cv":
        layer = CVLayer(code, delta=0.2, p_swap=0.3, sampling_order="two-step" if "two" in noise else "initial")
    else:
        layer = CVMacroLayer(code, delta=0.12, p_swap=0.3)
    out = []
    for _ in range(reuse):
        layer.apply_noise(np.random.default_rng(seed))
        d0 = sorted((p, d.get("state"), d.get("bit_val"), repr(d.get("hom_val_p")), repr(d.get("p_phase_cond"))) for p, d in code.graph.nodes.data())
        ok = correct(code, decoder, opts, decoder_opts={"backend": backend} if backend else None)
        d1 = sorted((p, d.get("bit_val"), repr(d.get("weight"))) for p, d in code.graph.nodes.data())
        out.append(repr((d0, d1, bool(ok))) if full else hashlib.sha256(repr((d0, d1, bool(ok))).encode()).hexdigest()[:12])
    return out


RUNS = []
for _n, (_dims, _ec, _b) in enumerate([((2, 2, 2), "primal", "open"), ((3, 3, 3), "dual", "open"), ((3, 3, 3), "primal", "periodic"), ((4, 3, 3), "dual", "toric"), ((4, 4, 4), "primal", "open"), ((3, 4, 3), "dual", "periodic"), ((4, 4, 4), "dual", "toric")]):
    for _noise in ("iid", "cv", "cv-two", "macro", "cv-alt", "macro-alt"):
        for _dec, _be, _o in (("UF", None, None), ("MWPM", "rustworkx", None), ("MWPM", "networkx", None), ("MWPM", "lemon", None), ("MWPM", "rustworkx", "bp")):
            if (_noise.startswith("macro") or _be == "networkx") and max(_dims) > 3:
                continue
            RUNS.append((_dims, _ec, _b, _noise, _dec, _be, _o))


def options(o, noise):
    if o != "bp" or noise == "iid":
        return None
    return {"method": "blueprint", "prob_precomputed": True} if noise.startswith("macro") else {"method": "blueprint", "delta": 0.2}


def bundle(part, parts, seeds):
    """Digests of many runs, each from its seed."""
    res = []
    for i, r in enumerate(RUNS):
        if i % parts == part:
            for s in range(seeds):
                res.append((str(r), s, run_digest(*r[:6], options(r[6], r[3]), 100 * s + 7, sg=("rustworkx", "networkx")[(i // 5) % 2])[0]))
    return res


def runs_under_orders(rep, part, parts, nord, seeds):
    first = {}
    with Hashes() as H:
        for so in ORDERS[:nord]:
            H.reset(so, ORDERS[(ORDERS.index(so) * 5 + 2) % len(ORDERS)])
            with rep.case(["runs", part, so], states=len(RUNS) // parts, limit=300):
                for r, s, d in bundle(part, parts, seeds):
                    H.keep.clear()
                    rep.desc = ["runs", r, s, so]
                    w = first.setdefault((r, s), (d, so))
                    need(w[0] == d, lambda: f"run {r} with seed {s} differs under hash orders {so} and {w[1]}")
                    rep.seen(d)


def processes(rep, part, parts, seeds, n):
    """The same runs in processes with other hash seeds and memory contents."""
    want = None
    for k in range(n):
        with rep.case(["process", part, "hash seed", k], limit=600, transitions=len(RUNS) // parts * seeds):
            env = dict(os.environ, PYTHONHASHSEED=str([0, 1, 2, 3, 42, 12345, 99, 7, 2**31, 1000003][k] if k < 10 else 17 * k), MC_JUNK=str(k))
            if k == 4:
                env["PYTHONMALLOC"] = "malloc"
            p = subprocess.run([sys.executable, "-m", "mc.c21", str(part), str(parts), str(seeds)], env=env, cwd=VERIF, capture_output=True, text=True)
            need(p.returncode == 0, lambda: "process failed: " + p.stderr[-800:])
            got = json.loads(p.stdout.strip().splitlines()[-1])
            if want is None:
                want = got
            for a, b in zip(want, got):
                need(a == b, lambda: f"run {a[0]} with seed {a[1]} differs between processes (hash seeds 0 and {env['PYTHONHASHSEED']})")
            need(len(want) == len(got), "number of runs")
            rep.states += len(got)
            rep.traces += len(got)
            rep.seen((part, k))


def repeated(rep, part, parts, seeds):
    """The same seed again on the same objects, and on new ones after other work."""
    for i, r in enumerate(RUNS):
        if i % parts != part:
            continue
        for s in range(seeds):
            with rep.case(["repeated", r, s], transitions=4):
                a = run_digest(*r[:6], options(r[6], r[3]), s, reuse=3)
                need(len(set(a)) == 1, lambda: "the same seed on the same objects gives different results")
                np.random.seed(s)
                np.random.random(5 + s)
                b = run_digest(*r[:6], options(r[6], r[3]), s)
                need(b[0] == a[0], lambda: "the same seed on new objects gives different results")
                c = run_digest(*r[:6], options(r[6], r[3]), s, sg="networkx")
                rep.seen((r[4], c[0] == a[0]))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for ec in ("primal", "dual"):
        for part in range(4 if not deep else 16):
            J.append(("small", dict(ec=ec, sg="rustworkx" if part % 2 else "networkx", part=part, parts=4 if not deep else 16, smax=3 if not deep else 9, n_other=31 if not deep else 60)))
    nord = 60 if deep else 18
    for n, (dims, ec, b) in enumerate([((3, 2, 2), "primal", "open"), ((2, 3, 2), "dual", "open"), ((2, 2, 3), "primal", "open"), ((3, 3, 3), "primal", "open"), ((3, 3, 3), "dual", "open"),
                                       ((4, 2, 2), "primal", "open"), ((2, 4, 2), "dual", "open"), ((3, 3, 2), "primal", "toric"), ((3, 3, 3), "dual", "toric"),
                                       ((3, 3, 3), "primal", "periodic"), ((3, 3, 3), "dual", "periodic"), ((5, 2, 2), "primal", "open"), ((4, 4, 2), "primal", "toric")]):
        big = len(ref_of(dims, ec, b).qubits) > 35
        parts = 4 if big else 2
        for part in range(parts):
            J.append(("larger", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[part % 2], k=(1 if big else 2) + deep, nord=nord if deep or not big else 9, part=part, parts=parts, decs=[3], erasures=True,
                                        **({} if deep else {"nflips": 8 if big else 12, "stride": 3 if big else 1}))))
        J.append(("larger", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[n % 2], k=1 if big or not deep else 2, nord=6, part=0, parts=1, decs=[0, 1, 2], erasures=False)))
    for n, (dims, ec) in enumerate([((2, 4, 4), "primal"), ((3, 5, 4), "primal"), ((4, 2, 4), "dual"), ((2, 3, 6), "primal"), ((5, 2, 3), "dual")]):
        for part in range(2):
            J.append(("combs", dict(dims=dims, ec=ec, sg=("rustworkx", "networkx")[(n + part) % 2], nord=nord if deep else 6, part=part, parts=2, nflips=8 if deep else 4)))
    for part in range(8):
        J.append(("runs_under_orders", dict(part=part, parts=8, nord=nord if deep else 4, seeds=2 if deep else 1)))
        J.append(("repeated", dict(part=part, parts=8, seeds=2 if not deep else 20)))
    for part in range(4):
        J.append(("processes", dict(part=part, parts=4, seeds=2 if deep else 1, n=40 if deep else 6)))
    return J


if __name__ == "__main__":
    junk = [object() for _ in range(1000 * int(os.environ.get("MC_JUNK", "0")))]
    import warnings

    warnings.simplefilter("ignore")
    load_lemon()
    print(json.dumps(bundle(*map(int, sys.argv[1:4]))))
