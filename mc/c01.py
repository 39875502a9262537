"""C01: correction always clears the syndrome."""
import itertools as it

from mc.core import need, Violation
from mc.lib import *

PROPERTY = "C01"
BOUNDS = {
    "quick": "all flip sets of the 2x2x2 open codes; all syndromes of every code with <= 12 checks; all flip sets of weight <= 2 (and "
    "complements of weight <= 1) on 3x3x3 and 4x2x2-type codes (matching and union-find; weight <= 1 for every matching backend), weight <= 1 on 5x2x3-type codes; all heralded sets of the 2x2x2 open codes with all "
    "syndromes; heralded sets of size <= 2 (and complements of size <= 1) with single flips on larger ones; analog weights on windows of 3 qubits x all syndromes; integer weights that round to zero on all, half or two thirds of the qubits; "
    "structured syndromes of up to 150 odd checks with six structured heralded sets on codes to 6x5x5; one very long code fully heralded",
    "thorough": "as quick with codes up to 4x4x4 / 7x2x2, flip sets of weight <= 3, all heralded sets of 2x2x2 codes of every boundary",
}
ASSUMPTIONS = ["dimensions of at least two"]

ECS = ("primal", "dual")
BNDS = ("open", "toric", "periodic")
DECS = (("MWPM", "rustworkx"), ("MWPM", "networkx"), ("MWPM", "lemon"), ("UF", None))


def prepare(tier):
    load_lemon()


def one(ref, code, flips, dec, backend, weight_options=None, other=(), **kw):
    """Correct one flip set and check the result; returns (verdict, recovery mask)."""
    from flamingpy.decoders.decoder import correct

    own = ref.unmask(flips)
    set_bits(code, own + list(other))
    opts = {"backend": backend} if backend else None
    res = correct(code, dec, weight_options, decoder_opts=opts, **kw)
    after = get_bits(code)
    for p, v in after.items():
        need(v == 1 or v is True, f"bit of {p} became {v!r}")
    own_after = ref.mask(p for p in after if p in ref.index)
    rest = {p for p in after if p not in ref.index}
    need(rest == set(other), lambda: f"bits outside the complex changed: {sorted(rest ^ set(other))[:5]}")
    s = ref.syndrome(own_after)
    need(s == 0, lambda: f"odd checks left: {[c for i, c in enumerate(ref.check_list) if s >> i & 1][:5]} recovery={ref.unmask(flips ^ own_after)[:8]}")
    try:
        ok = bool(res)
    except Exception:
        raise Violation(f"verdict is not a single truth value: {res!r}")
    need(np.size(res) == 1 and res in (True, False), f"verdict is not a truth value: {res!r}")
    return ok, flips ^ own_after


def others(ref):
    return sorted(ref.sites - set(ref.qubits))


def all_flips(rep, dims, ec, b, sg, lo, hi):
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    clear_states(code)
    oth = others(ref)[::2]
    for m in range(lo, hi):
        for dec, be in DECS:
            with rep.case([dims, ec, b, sg, dec, be, ref.unmask(m)], states=dec == "UF"):
                ok, rec = one(ref, code, m, dec, be, other=oth if m % 2 else ())
                rep.seen(f"{ok} w{bin(rec).count('1')}")
    rep.sample([dims, ec, b, sg, ref.unmask(hi - 1)])


def reps_of_syndromes(ref):
    """One flip set per reachable syndrome (a spanning set of reachable syndromes)."""
    basis = {}
    for i, s in enumerate(ref.flip_syn):
        v, m = s, 1 << i
        while v:
            h = v.bit_length() - 1
            if h not in basis:
                basis[h] = (v, m)
                break
            v ^= basis[h][0]
            m ^= basis[h][1]
    return [m for _, m in basis.values()]


def all_syndromes(rep, dims, ec, b, sg, part, parts, decs):
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    clear_states(code)
    gens = reps_of_syndromes(ref)
    for k in range(part, 1 << len(gens), parts):
        m = 0
        for i, g in enumerate(gens):
            if k >> i & 1:
                m ^= g
        for dec, be in [DECS[i] for i in decs]:
            with rep.case([dims, ec, b, sg, dec, be, ref.unmask(m)], states=dec == "UF"):
                ok, rec = one(ref, code, m, dec, be)
                rep.seen(f"{ok} w{bin(rec).count('1')}")


def low_weight(rep, dims, ec, b, sg, kmax, part, parts, decs):
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    clear_states(code)
    full = (1 << len(ref.qubits)) - 1
    n = 0
    for ks in subsets(range(len(ref.qubits)), 0, kmax):
        n += 1
        if n % parts != part:
            continue
        m = sum(1 << i for i in ks)
        for mm in [m] + ([full ^ m] if len(ks) < 2 else []):
            for dec, be in [DECS[i] for i in decs]:
                with rep.case([dims, ec, b, sg, dec, be, ref.unmask(mm)], states=dec == "UF"):
                    ok, rec = one(ref, code, mm, dec, be)
                    rep.seen(f"{ok} w{bin(rec).count('1')}")
    rep.sample([dims, ec, b, "flips", [ref.qubits[i] for i in ks]])


def herald_sets(ref, kmin, kmax, comp):
    oth = [v for v in others(ref)]
    for s in subsets(oth, kmin, kmax):
        yield s
        if comp and len(s) <= 1:
            yield tuple(v for v in oth if v not in s)


def heralds(rep, dims, ec, b, sg, kmin, kmax, part, parts, syn="all"):
    """UF with swapped-out neighbours: every herald set times syndromes."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    gens = reps_of_syndromes(ref)
    if syn == "all":
        ms = []
        for k in range(1 << len(gens)):
            m = 0
            for i, g in enumerate(gens):
                if k >> i & 1:
                    m ^= g
            ms.append(m)
    else:
        ms = [sum(1 << i for i in ks) for ks in subsets(range(len(ref.qubits)), 0, 1)]
        ms.append((1 << len(ref.qubits)) - 1)
    n = 0
    for s in herald_sets(ref, kmin, kmax, True):
        n += 1
        if n % parts != part:
            continue
        set_states(code, s)
        for m in ms:
            with rep.case([dims, ec, b, sg, "UF", {"swapped": s, "flips": ref.unmask(m)}]):
                ok, rec = one(ref, code, m, "UF", None)
                rep.seen(f"{ok} h{len(heralded(ref, s))} w{bin(rec).count('1')}")
    rep.sample([dims, ec, b, {"swapped": s}])


PROBS = (0, 0.01, 0.3, 0.5, 0.9)


def analog(rep, dims, ec, b, sg, be, part, parts):
    """Blueprint weights (fractional and integer) on windows of 3 qubits x all syndromes."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    set_states(code, ())
    gens = reps_of_syndromes(ref)
    ms = [0]
    for g in gens:
        ms += [m ^ g for m in ms]
    n = len(ref.qubits)
    wins = [(0, n // 2, n - 1), (1, 2, 3)][: 2 if len(gens) <= 4 else 1]
    i = 0
    for win in wins:
        for vals in it.product(PROBS, repeat=3):
            i += 1
            if i % parts != part:
                continue
            for j, q in enumerate(ref.qubits):
                code.graph.nodes[q]["p_phase_cond"] = 0.1 + 0.3 * (j % 3) / 3
            for j, v in zip(win, vals):
                code.graph.nodes[ref.qubits[j]]["p_phase_cond"] = v
            for m in ms:
                wo = {"method": "blueprint", "prob_precomputed": True}
                if m % 3 == 0:
                    wo.update(integer=True, multiplier=1 + 9 * (m % 2))
                with rep.case([dims, ec, b, sg, be, "analog", {"window": win, "probs": vals, "flips": ref.unmask(m), "opts": wo}]):
                    ok, rec = one(ref, code, m, "MWPM", be, wo)
                    rep.seen(f"analog {ok} w{bin(rec).count('1')}")


def zero_weights(rep, dims, ec, b, sg, be, pattern, part, parts):
    """Integer weights that round to zero on all, or on a pattern of, the qubits: paths may overlap."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    set_states(code, ())
    for j, q in enumerate(ref.qubits):
        code.graph.nodes[q]["p_phase_cond"] = 0.5 if pattern == 0 or j % pattern else 0.1
    wo = {"method": "blueprint", "prob_precomputed": True, "integer": True, "multiplier": 0.5}
    ms = [sum(1 << i for i in ks) for ks in subsets(range(len(ref.qubits)), 1, 2)]
    gens = reps_of_syndromes(ref)
    if len(gens) <= 12:
        ms = [0]
        for g in gens:
            ms += [m ^ g for m in ms]
    for m in ms[part::parts]:
        with rep.case([dims, ec, b, sg, be, "zero weights", {"pattern": pattern, "flips": ref.unmask(m)}]):
            ok, rec = one(ref, code, m, "MWPM", be, wo)
            rep.seen(f"zero {ok} w{bin(rec).count('1')}")


def dense(rep, dims, ec, b, sg):
    """Many odd checks and many heralded qubits, both in regular patterns."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    oth = others(ref)
    swaps = [("none", []), ("all", oth), ("third", oth[::3]), ("two thirds", [p for i, p in enumerate(oth) if i % 3]), ("fifth", oth[1::5]), ("layers", [p for p in oth if p[2] % 4 < 2])]
    for k, (name, m) in enumerate(list(ref.dense_syndromes()) + [("every qubit", (1 << len(ref.qubits)) - 1)]):
        for sn, sw in swaps:
            set_states(code, sw)
            decs = [("UF", None)] + ([DECS[k % 3]] if sn == "none" else [])
            for dec, be in decs:
                with rep.case([dims, ec, b, sg, dec, be, "checks: " + name, "swapped out: " + sn]):
                    one(ref, code, m, dec, be)
                    rep.seen((dec, name, sn))
    rep.sample([dims, ec, b])


def long_code(rep, dims, ec, b):
    """A very long code: chains far beyond the interpreter's recursion limit."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, "rustworkx")
    n = len(ref.qubits)
    for sw in (others(ref), ()):
        set_states(code, sw)
        for m in (1 << (n // 2), (1 << n) - 1):
            with rep.case([dims, ec, b, "UF", "all swapped out" if sw else "none swapped out", bin(m).count("1")]):
                one(ref, code, m, "UF", None)


def jobs(tier):
    J = []
    deep = tier == "thorough"
    for ec in ECS:
        for sg in ("rustworkx", "networkx"):
            for lo, hi in chunks(4096, 1024):
                J.append(("all_flips", dict(dims=[2, 2, 2], ec=ec, b="open", sg=sg, lo=lo, hi=hi)))
    for ec in ECS:
        for b in BNDS:
            for i, dims in enumerate([(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]):
                nchecks = len(ref_of(dims, ec, b).checks)
                if nchecks > 12:
                    continue
                parts = 4 if nchecks > 10 else 1
                for part in range(parts):
                    J.append(("all_syndromes", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[(i + (ec == "dual")) % 2], part=part, parts=parts, decs=[0, 1, 2, 3])))
    big = [(3, 3, 3), (4, 2, 2), (2, 4, 2), (2, 2, 4), (5, 2, 3), (2, 5, 2), (3, 2, 5)]
    kmax = 2
    if deep:
        big += [(4, 4, 4), (7, 2, 2), (2, 7, 3), (3, 4, 2), (4, 3, 3), (2, 2, 7)]
    for i, dims in enumerate(big):
        for ec in ECS:
            for b in BNDS:
                sg = ("rustworkx", "networkx")[(i + len(b)) % 2]
                parts = 4 if dims == (3, 3, 3) else 2
                for part in range(parts):
                    J.append(("low_weight", dict(dims=dims, ec=ec, b=b, sg=sg, kmax=2 if dims in big[:4] or deep else 1, part=part, parts=parts, decs=[0, 3])))
                J.append(("low_weight", dict(dims=dims, ec=ec, b=b, sg="rustworkx" if sg == "networkx" else "networkx", kmax=1, part=0, parts=1, decs=[0, 1, 2, 3])))
                if deep and dims in [(3, 3, 3), (4, 2, 2), (2, 4, 2), (2, 2, 4)]:
                    for part in range(32):
                        J.append(("low_weight", dict(dims=dims, ec=ec, b=b, sg="rustworkx", kmax=3, part=part, parts=32, decs=[0, 3])))
    for ec in ECS:
        for part in range(4):
            J.append(("heralds", dict(dims=[2, 2, 2], ec=ec, b="open", sg=("rustworkx", "networkx")[part % 2], kmin=0, kmax=9, part=part, parts=4)))
        for b in BNDS:
            for dims in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]:
                nc = len(ref_of(dims, ec, b).checks)
                if b == "open" and dims == (2, 2, 2):
                    continue
                if nc <= 8:
                    J.append(("heralds", dict(dims=dims, ec=ec, b=b, sg="rustworkx", kmin=0, kmax=2 if deep else 1, part=0, parts=1)))
                for part in range(8):
                    J.append(("heralds", dict(dims=dims, ec=ec, b=b, sg="rustworkx", kmin=2, kmax=4 if deep else 2, part=part, parts=8, syn="low")))
    if deep:
        for ec in ECS:
            for b in ("toric", "periodic"):
                for part in range(64):
                    J.append(("heralds", dict(dims=[2, 2, 2], ec=ec, b=b, sg="rustworkx", kmin=3, kmax=6, part=part, parts=64, syn="low")))
    for ec in ECS:
        for be in ("rustworkx", "networkx", "lemon"):
            for sg in ("rustworkx", "networkx"):
                J.append(("analog", dict(dims=[2, 2, 2], ec=ec, b="open", sg=sg, be=be, part=0, parts=1)))
        J.append(("analog", dict(dims=[3, 2, 2] if ec == "primal" else [2, 3, 2], ec=ec, b="open", sg="rustworkx", be="rustworkx", part=0, parts=1)))
        J.append(("analog", dict(dims=[2, 2, 2], ec=ec, b="periodic", sg="rustworkx", be="rustworkx", part=0, parts=1)))
    k = 0
    for dims in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3)]:
        for ec in ECS:
            for b in BNDS:
                for pattern in (0, 2, 3):
                    k += 1
                    bes = ("rustworkx", "networkx", "lemon") if deep or dims == (2, 2, 2) else [("rustworkx", "networkx", "lemon")[k % 3]]
                    for be in bes:
                        nc = len(ref_of(dims, ec, b).checks)
                        if not deep and 10 < nc and (pattern == 3 or b == "periodic"):
                            continue
                        for part in range(2 if 10 < nc else 1):
                            J.append(("zero_weights", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[k % 2], be=be, pattern=pattern, part=part, parts=2 if 10 < nc else 1)))
    for i, (b, dims) in enumerate((b, d) for b in BNDS for d in ((3, 3, 3), (4, 4, 4), (2, 3, 7), (6, 5, 5), (9, 2, 3))):
        for ec in ECS:
            J.append(("dense", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[(i + (ec == "dual")) % 2])))
    J.insert(0, ("long_code", dict(dims=[300, 2, 2], ec="primal", b="open")))
    return J
