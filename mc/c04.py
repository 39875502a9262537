"""C04: the success verdict is exactly the absence of a logical error."""
import itertools as it

from mc.core import need
from mc.lib import *
from mc.c01 import prepare, DECS, others  # noqa: F401

PROPERTY = "C04"
BOUNDS = {
    "quick": "every undetectable flip set of all codes with <= 2^12 of them; on 84 larger cubic and elongated codes of every complex and boundary all sets of at "
    "most two (one in the largest) lattice stabilizers times all logical classes, each with and without the sanity check, with other-complex bits set; logical operators moved across the lattice; residuals "
    "of every flip set of weight <= 2 after correction with both decoders",
    "thorough": "as quick with every undetectable set up to 2^17, up to three lattice stabilizers, sizes up to 6",
}
ASSUMPTIONS = ["dimensions of at least two"]


def verdicts(ref, code, m, extra, typ=int):
    """Compare the verdict on residual m (bits of other qubits set in extra)."""
    from flamingpy.decoders.decoder import check_correction

    nodes = code.graph.nodes
    for _, d in nodes.data():
        d["bit_val"] = typ(0)
    for q in list(ref.unmask(m)) + list(extra):
        nodes[q]["bit_val"] = typ(1)
    want = ref.is_trivial(m)
    got = check_correction(code)
    need(bool(np.all(got)) == want, lambda: f"verdict {got} but the residual is {'trivial' if want else 'a logical error'}")
    got, dicts = check_correction(code, sanity_check=True)
    need(bool(np.all(got)) == want, lambda: f"verdict with sanity check {got} but the residual is {'trivial' if want else 'a logical error'}")
    need(len(dicts) == 1, f"{len(dicts)} complexes reported")
    for a in range(3):
        vals = list(dicts[0][AXES[a]])
        if a not in ref.directions:
            need(not vals, f"planes along {AXES[a]} are reported: {vals}")
            continue
        par = [bin(m & p).count("1") % 2 for _, p in ref.planes(a)]
        need(len(set(par)) == 1, lambda: f"reference planes disagree {par}")
        need(vals == [not x for x in par], lambda: f"parities along {AXES[a]}: reported {vals}, true {[not x for x in par]}")
    return want


def patterns(ref):
    o = others(ref)
    return [(), o, o[::2], o[::3]]


def exhaustive(rep, dims, ec, b, sg, part, parts):
    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    basis = ref.cycles
    need(len(basis) - ref.trivial_basis.rank == len(ref.directions), "reference homology", None)
    extra = patterns(ref)
    for k in range(part, 1 << len(basis), parts):
        m = 0
        for i, g in enumerate(basis):
            if k >> i & 1:
                m ^= g
        with rep.case([dims, ec, b, sg, ref.unmask(m)], transitions=2):
            w = verdicts(ref, code, m, extra[k % 4], (int, np.int64, bool)[k % 3])
            rep.seen((w, bin(m).count("1")))
    rep.sample([dims, ec, b, "residual", ref.unmask(m)])


def generators(rep, dims, ec, b, sg, kmax, part, parts):
    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    logs = ref.logicals()
    classes = [0]
    for l in logs:
        classes += [c ^ l for c in classes]
    extra = patterns(ref)
    n = 0
    for ks in subsets(range(len(ref.trivial)), 0, kmax):
        n += 1
        if n % parts != part:
            continue
        t = 0
        for i in ks:
            t ^= ref.trivial[i]
        for c in classes:
            with rep.case([dims, ec, b, sg, ref.unmask(t ^ c)], transitions=2):
                need(ref.is_trivial(t ^ c) == (c == 0), "reference classes")
                rep.seen((verdicts(ref, code, t ^ c, extra[n % 4]), classes.index(c)))


def displaced(rep, dims, ec, b, sg):
    """Logical operators moved across the lattice: multiplied by every stabilizer below a cut."""
    ref, code = ref_of(dims, ec, b), make_code(dims, ec, b, sg)
    logs = ref.logicals()
    classes = [0]
    for l in logs:
        classes += [c ^ l for c in classes]
    extra = patterns(ref)
    sup = [[ref.qubits[i] for i in range(len(ref.qubits)) if t >> i & 1] for t in ref.trivial]
    n = 0
    for a in range(3):
        for cut in range(-1, 2 * ref.box.dims[a] + 1):
            for odd in (0, 1):
                t = 0
                for g, s in zip(ref.trivial, sup):
                    if max(p[a] for p in s) <= cut and (not odd or sum(min(s)) // 2 % 2):
                        t ^= g
                for c in classes:
                    n += 1
                    with rep.case([dims, ec, b, sg, ref.unmask(t ^ c)], transitions=2):
                        rep.seen((verdicts(ref, code, t ^ c, extra[n % 4], (int, np.int64, bool)[n % 3]), classes.index(c)))


def after_correction(rep, dims, ec, b, sg, kmax, part, parts):
    """The value returned by correct() against the residual it leaves."""
    from flamingpy.decoders.decoder import correct

    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    clear_states(code)
    oth = others(ref)
    n = 0
    for ks in subsets(range(len(ref.qubits)), 0, kmax):
        n += 1
        if n % parts != part:
            continue
        m = sum(1 << i for i in ks)
        for j, g in enumerate([0] + ref.logicals()):
            dec, be = DECS[(n + j) % 4]
            with rep.case([dims, ec, b, sg, dec, be, ref.unmask(m ^ g)]):
                set_bits(code, ref.unmask(m ^ g) + oth[n % 2 :: 3])
                res = correct(code, dec, sanity_check=bool(n % 3 == 0), decoder_opts={"backend": be} if be else None)
                left = ref.mask(p for p in get_bits(code) if p in ref.index)
                need(ref.syndrome(left) == 0, "syndrome not cleared")
                want = ref.is_trivial(left)
                need(bool(res) == want, lambda: f"correct() returned {res} but it leaves {'a trivial residual' if want else 'a logical error'}: {ref.unmask(left)}")
                rep.seen((want, dec, j))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    SG = ("rustworkx", "networkx")
    k = 0
    for ec in ("primal", "dual"):
        for b in ("open", "toric", "periodic"):
            for dims in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]:
                n = len(ref_of(dims, ec, b).cycles)
                if n <= (17 if deep else 12):
                    parts = 1 if n <= 10 else 4
                    for part in range(parts):
                        J.append(("exhaustive", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2], part=part, parts=parts)))
            sizes = [2, 3, (4, 2, 2), (2, 4, 2), (2, 2, 4), (5, 3, 2), (2, 5, 3), (3, 2, 5), (3, 4, 3)]
            if deep:
                sizes += [4, 5, (6, 2, 3), (2, 6, 4), (4, 3, 6)]
            for dims in sizes:
                k += 1
                n = len(ref_of(dims, ec, b).trivial)
                for part in range(2 if n > 60 else 1):
                    J.append(("generators", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2], kmax=2 if n < 70 or deep else 1, part=part, parts=2 if n > 60 else 1)))
                if deep and n <= 60:
                    J.append(("generators", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2], kmax=3, part=0, parts=1)))
            for dims in [2, 3, 4, (2, 2, 8), (9, 2, 2), (2, 9, 2), (5, 4, 3), (3, 4, 5)] + ([5, 6] if deep else []):
                k += 1
                J.append(("displaced", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2])))
            for dims in [4, (2, 2, 8), (9, 2, 2), (2, 9, 2), 5]:
                k += 1
                J.append(("generators", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2], kmax=1, part=0, parts=1)))
            for dims in [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2), (4, 2, 2), (2, 4, 2)]:
                k += 1
                for part in range(2):
                    J.append(("after_correction", dict(dims=dims, ec=ec, b=b, sg=SG[k % 2], kmax=2 if len(ref_of(dims, ec, b).qubits) < 40 else 1, part=part, parts=2)))
    return J
