"""C02: the matching decoder returns a minimum-weight recovery."""
import itertools as it
import math

from mc.core import need
from mc.lib import *
from mc.c01 import reps_of_syndromes, prepare  # noqa: F401

PROPERTY = "C02"
BOUNDS = {
    "quick": "2x2x2 open codes: every 0/1 weight pattern on 12 qubits and every {1/4, 3/4, 2} pattern on windows of 5, x all syndromes; "
    "3x2x2-type open codes: windows of 4 qubits over {0, 1, 3.5} x all syndromes; 3x3x3 and elongated codes (incl. wrapped): all syndromes "
    "with <= 2 odd checks (<= 4 under uniform weights) x 11 structured weight families (up to 7e5, near ties of 1e-6); 11 structured syndromes of up to 150 odd checks on codes to 6x5x5 x these families; weights assigned by the package; all backends",
    "thorough": "as quick with <= 4 odd checks for every family, more sizes and every {0, 1, 2.5} pattern on windows of 8",
}
ASSUMPTIONS = [
    "wrapped dimensions of at least three (any two checks share at most one qubit)",
    "weights finite and at most 1e6; the compiled backend is compared to single precision",
]
BACKENDS = ("rustworkx", "networkx", "lemon")


def families(ref):
    n = len(ref.qubits)
    axis = [next(a for a in range(3) if (q[a] % 2 == 0) == (ref.ec == "primal")) for q in ref.qubits]
    yield "uniform", [1] * n
    yield "mod3", [i % 3 for i in range(n)]
    yield "fraction", [0.25 + (i * 37 % 19) / 8 for i in range(n)]
    yield "axes", [(1, 3, 10)[a] for a in axis]
    yield "axes2", [(10, 1.5, 1)[a] for a in axis]
    yield "lowhigh", [1 + sum(q) / 4 for q in ref.qubits]
    yield "tiny", [0.001 * (1 + i % 5) for i in range(n)]
    yield "heavy", [708.5 if i % 4 == 0 else 0.693 for i in range(n)]
    yield "huge", [708396 if i % 5 == 0 else (693, 69315, 1)[i % 3] for i in range(n)]
    yield "near ties", [1 + (i * 29 % 23) * 1e-6 for i in range(n)]
    yield "zeros", [0 if (i * 7) % 5 < 3 else 2 for i in range(n)]


def check(ref, code, flips, w, backend, opt, tol):
    from flamingpy.decoders.mwpm import mwpm_decoder

    own = ref.unmask(flips)
    set_bits(code, own)
    rec = mwpm_decoder(code, ref.ec, backend=backend)
    rec = set(rec)
    need(rec <= set(ref.index), lambda: f"recovery contains {sorted(map(str, rec - set(ref.index)))[:4]}, not qubits of the complex")
    m = ref.mask(rec)
    need(ref.syndrome(m) == ref.syndrome(flips), lambda: f"recovery {sorted(rec)[:8]} does not reproduce the syndrome")
    got = sum(w[ref.index[q]] for q in rec)
    need(got <= opt + tol * (1 + opt), lambda: f"recovery weight {got} > optimum {opt}: {sorted(rec)[:8]}")
    need(got >= opt - tol * (1 + opt), lambda: f"recovery weight {got} < reference optimum {opt} (reference broken?)")
    return len(rec)


def dense(rep, dims, ec, b, sg, fam, backends):
    """Syndromes with many odd checks in regular patterns."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    w = dict(families(ref))[fam]
    set_weights(code, {q: w[i] for i, q in enumerate(ref.qubits)})
    for name, f in ref.dense_syndromes():
        opt = ref.optimum_many(ref.syndrome(f), w)
        for be in backends:
            with rep.case([dims, ec, b, sg, be, fam, name], states=be == backends[0]):
                k = check(ref, code, f, w, be, opt, 1e-4 if be == "lemon" else 1e-7)
                rep.seen(f"n{k} d{bin(ref.syndrome(f)).count('1')}")
    rep.sample({"dims": dims, "ec": ec, "b": b, "family": fam})


def run(rep, dims, ec, b, sg, desc, w, flips_list, backends, tol=None):
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    set_weights(code, {q: w[i] for i, q in enumerate(ref.qubits)})
    for f in flips_list:
        opt = ref.optimum(ref.syndrome(f), w)
        for be in backends:
            with rep.case([dims, ec, b, sg, be, desc, {"flips": ref.unmask(f)}], states=be == backends[0]):
                k = check(ref, code, f, w, be, opt, 1e-4 if be == "lemon" else 1e-9)
                rep.seen(f"n{k} d{bin(ref.syndrome(f)).count('1')}")


def all_reps(ref):
    ms = [0]
    for g in reps_of_syndromes(ref):
        ms += [m ^ g for m in ms]
    return ms


def patterns(rep, dims, ec, b, sg, alphabet, window, part, parts, backends):
    ref = ref_of(dims, ec, b)
    ms = all_reps(ref)
    n = len(ref.qubits)
    for k, vals in enumerate(it.product(alphabet, repeat=len(window))):
        if k % parts != part:
            continue
        w = [1 + (i % 2) * 0.5 if len(window) < n else 1 for i in range(n)]
        for i, v in zip(window, vals):
            w[i] = v
        run(rep, dims, ec, b, sg, {"weights": w}, w, ms, backends)
    rep.sample({"dims": dims, "ec": ec, "weights": w})


def by_defects(ref, kmin, kmax):
    """One flip set per syndrome with kmin..kmax odd checks."""
    gens = {}
    for i, s in enumerate(ref.flip_syn):
        pass
    # solve for each target through a basis of the reachable syndromes
    basis = {}
    for i, s in enumerate(ref.flip_syn):
        v, m = s, 1 << i
        while v:
            h = v.bit_length() - 1
            if h not in basis:
                basis[h] = (v, m)
                break
            v ^= basis[h][0]
            m ^= basis[h][1]
    for ks in subsets(range(len(ref.check_list)), kmin, kmax):
        v, m = sum(1 << k for k in ks), 0
        while v:
            h = v.bit_length() - 1
            if h not in basis:
                break
            v ^= basis[h][0]
            m ^= basis[h][1]
        if not v:
            yield m


def structured(rep, dims, ec, b, sg, fam, kmin, kmax, part, parts, backends):
    ref = ref_of(dims, ec, b)
    w = dict(families(ref))[fam]
    ms = [m for i, m in enumerate(by_defects(ref, kmin, kmax)) if i % parts == part]
    run(rep, dims, ec, b, sg, {"family": fam}, w, ms, backends)
    rep.sample({"dims": dims, "ec": ec, "b": b, "family": fam, "syndromes": len(ms)})


def end_to_end(rep, dims, ec, b, sg, part, parts):
    """Weights assigned by the package itself from outcomes; recovery read from the bits."""
    from flamingpy.decoders.decoder import correct

    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    ms = list(by_defects(ref, 0, 3)) if len(ref.check_list) > 8 else all_reps(ref)
    k = 0
    for pat in range(4):
        for opts in ({}, {"integer": True, "multiplier": 10}, {"integer": True}):
            k += 1
            if k % parts != part:
                continue
            for i, q in enumerate(ref.sites):
                code.graph.nodes[q]["state"] = "p" if (i * (pat + 1)) % (7 - pat) == 0 else "GKP"
            for i, q in enumerate(ref.qubits):
                code.graph.nodes[q]["p_phase_cond"] = (0.001, 0.05, 0.2, 0.45)[(i * (2 * pat + 1) // 2) % 4]
            for j, f in enumerate(ms):
                be = BACKENDS[j % 3]
                wo = {"method": "blueprint", "prob_precomputed": True, **opts}
                with rep.case([dims, ec, b, sg, be, {"pattern": pat, "opts": wo, "flips": ref.unmask(f)}]):
                    set_bits(code, ref.unmask(f))
                    correct(code, "MWPM", wo, decoder_opts={"backend": be})
                    rec = f ^ ref.mask(p for p in get_bits(code) if p in ref.index)
                    w = [code.graph.nodes[q]["weight"] for q in ref.qubits]
                    opt = ref.optimum(ref.syndrome(f), w)
                    got = sum(w[ref.index[q]] for q in ref.unmask(rec))
                    tol = 1e-4 if be == "lemon" else 1e-9
                    need(abs(got - opt) <= tol * (1 + opt), lambda: f"recovery weight {got}, optimum {opt}")
                    rep.seen(f"e{bin(rec).count('1')}")


def oracle(rep, dims, ec, b):
    """The reference optimum against brute force over all flip sets."""
    ref = ref_of(dims, ec, b)
    n = len(ref.qubits)
    syn = [0] * (1 << n)
    for m in range(1, 1 << n):
        l = (m & -m).bit_length() - 1
        syn[m] = syn[m & (m - 1)] ^ ref.flip_syn[l]
    for fam, w in families(ref):
        tot = [0] * (1 << n)
        best = {}
        for m in range(1 << n):
            if m:
                l = (m & -m).bit_length() - 1
                tot[m] = tot[m & (m - 1)] + w[l]
            if tot[m] < best.get(syn[m], math.inf):
                best[syn[m]] = tot[m]
        for s, x in best.items():
            with rep.case([dims, ec, b, fam, s], transitions=0):
                need(close(ref.optimum(s, w), x), f"reference optimum {ref.optimum(s, w)} but brute force {x}")


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for ec in ("primal", "dual"):
        J.append(("oracle", dict(dims=[2, 2, 2], ec=ec, b="open")))
        for part in range(8):
            J.append(("patterns", dict(dims=[2, 2, 2], ec=ec, b="open", sg=("rustworkx", "networkx")[part % 2], alphabet=[0, 1], window=list(range(12)), part=part, parts=8,
                                       backends=["rustworkx", "lemon"] if part % 4 < 2 else ["rustworkx", "networkx"])))
        for win in ([0, 2, 5, 7, 11], [1, 3, 6, 8, 10]):
            for sg in ("rustworkx", "networkx"):
                J.append(("patterns", dict(dims=[2, 2, 2], ec=ec, b="open", sg=sg, alphabet=[0.25, 0.75, 2], window=win, part=0, parts=1, backends=list(BACKENDS))))
        if deep:
            for part in range(16):
                J.append(("patterns", dict(dims=[2, 2, 2], ec=ec, b="open", sg="rustworkx", alphabet=[0, 1, 2.5], window=[0, 1, 3, 4, 6, 7, 9, 11], part=part, parts=16, backends=list(BACKENDS))))
        for dims in ([3, 2, 2], [2, 3, 2], [2, 2, 3]):
            n = len(ref_of(dims, ec, "open").qubits)
            for k, win in enumerate(([0, 1, 2, 3], [n // 2, n // 2 + 1, n // 2 + 2, n // 2 + 3], [0, n // 3, 2 * n // 3, n - 1])):
                for part in range(2):
                    J.append(("patterns", dict(dims=dims, ec=ec, b="open", sg=("rustworkx", "networkx")[k % 2], alphabet=[0, 1, 3.5], window=win, part=part, parts=2, backends=[BACKENDS[k]] if not deep else list(BACKENDS))))
        fams = [f for f, _ in families(ref_of([2, 2, 2], ec, "open"))]
        for b, sizes in (("open", [[3, 3, 3], [5, 2, 2], [2, 5, 2], [2, 2, 4], [4, 3, 2]]), ("toric", [[3, 3, 2], [4, 3, 2], [3, 3, 3]]), ("periodic", [[3, 3, 3], [4, 3, 3]])):
            if deep:
                sizes = sizes + {"open": [[4, 4, 4], [7, 2, 2], [2, 7, 3], [3, 4, 5]], "toric": [[3, 5, 2], [4, 4, 4]], "periodic": [[3, 5, 3], [4, 4, 4]]}[b]
            for i, dims in enumerate(sizes):
                for k, fam in enumerate(fams):
                    kmax = 4 if deep else (3 if dims == [3, 3, 3] and b == "open" else 2)
                    J.append(("structured", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[(i + k) % 2], fam=fam, kmin=0, kmax=kmax, part=0, parts=1, backends=list(BACKENDS) if dims == [3, 3, 3] or deep else [BACKENDS[(i + k) % 3]])))
                if not deep and i == 0:
                    for part in range(4):
                        J.append(("structured", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[part % 2], fam="uniform", kmin=3, kmax=4, part=part, parts=4, backends=["rustworkx"] if part % 2 else ["lemon"])))
        for b, dims, nx_too in (("open", [3, 3, 3], 1), ("open", [4, 4, 4], 0), ("open", [8, 2, 2], 1), ("open", [2, 3, 7], 1), ("toric", [4, 4, 4], 0), ("toric", [3, 6, 2], 1), ("periodic", [3, 3, 3], 1), ("periodic", [4, 4, 4], 0)):
            for k, fam in enumerate(fams):
                J.append(("dense", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[k % 2], fam=fam, backends=["rustworkx", "lemon"] + (["networkx"] if deep or nx_too or k % 3 == 0 else []))))
        for b, dims in (("open", [6, 5, 5]), ("toric", [7, 3, 4]), ("periodic", [5, 5, 5]), ("open", [2, 2, 24])):
            for k, fam in enumerate(fams):
                if deep or k % 3 == (ec == "dual"):
                    J.append(("dense", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[k % 2], fam=fam, backends=list(BACKENDS))))
        for b, dims in (("open", [2, 2, 2]), ("open", [3, 3, 3]), ("toric", [3, 3, 2]), ("periodic", [3, 3, 3])):
            for part in range(3):
                J.append(("end_to_end", dict(dims=dims, ec=ec, b=b, sg=("rustworkx", "networkx")[part % 2], part=part, parts=3)))
    return J
