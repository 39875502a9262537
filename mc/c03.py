"""C03: errors below half the code distance are always corrected."""
import itertools as it

from mc.core import need
from mc.lib import *
from mc.c01 import prepare, DECS, others  # noqa: F401

PROPERTY = "C03"
BOUNDS = {
    "quick": "every flip set of weight t < d/2: d=3 cubic and elongated codes of every boundary with every decoder, matching and graph backend; "
    "d=5 codes (5x2x2 type open, 5x5x2 toric for UF, 5x2x5...) weight <= 2 with both decoders; union-find with every swap-out set of size <= 4 whose "
    "heralded set has e < d qubits, every flip pattern on them and every t other flips with e + 2t < d, d = 3..6; union-find on 7x2x2-type codes weight <= 3",
    "thorough": "as quick with d=7 weight <= 3, cubic d=4, 5, every backend, larger swap-out sets",
}
ASSUMPTIONS = ["uniform weights", "heralded qubits are those with at least two swapped-out neighbours"]


def fix(ref, code, flips, dec, be, desc, rep, kw=None, states=1):
    from flamingpy.decoders.decoder import correct

    with rep.case(desc, states=states):
        set_bits(code, ref.unmask(flips))
        res = correct(code, dec, kw, decoder_opts={"backend": be} if be else None)
        after = ref.mask(p for p in get_bits(code) if p in ref.index)
        need(ref.syndrome(after) == 0, "syndrome not cleared")
        need(ref.is_trivial(after), lambda: f"logical error: recovery {ref.unmask(after ^ flips)}")
        need(bool(res), lambda: f"reported as a failure; recovery {ref.unmask(after ^ flips)}")
        rep.seen((dec, be, bin(after ^ flips).count("1")))


def low(rep, dims, ec, b, sg, t, decs, part=0, parts=1, wo=None):
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    assert 2 * t < ref.distance
    clear_states(code)
    n = 0
    for ks in subsets(range(len(ref.qubits)), 0, t):
        n += 1
        if n % parts != part:
            continue
        m = sum(1 << i for i in ks)
        for k, d in enumerate(decs):
            dec, be = DECS[d]
            fix(ref, code, m, dec, be, [dims, ec, b, sg, dec, be, ref.unmask(m)], rep, wo, states=k == 0)
    rep.sample([dims, ec, b, [ref.qubits[i] for i in ks]])


def erasures(rep, dims, ec, b, sg, smin, smax, part, parts):
    """All swap-out sets with few enough heralded qubits; all flips on them and t others."""
    ref, code = ref_of(dims, ec, b), cached_code(dims, ec, b, sg)
    d = ref.distance
    n = 0
    done = set()
    near = {v: [q for q in ref.box.around(v) if q in ref.index] for v in others(ref)}
    for s in subsets(others(ref), smin, smax):
        cnt = {}
        for v in s:
            for q in near[v]:
                cnt[q] = cnt.get(q, 0) + 1
        er = [q for q, c in cnt.items() if c >= 2]
        # decoding depends on the heralded set only; one representative of each, and
        # of those with none at all
        key = tuple(sorted(er))
        if len(er) >= d or (not er and smin) or key in done:
            continue
        done.add(key)
        n += 1
        if n % parts != part:
            continue
        set_states(code, s)
        rest = [i for i, q in enumerate(ref.qubits) if q not in cnt or cnt[q] < 2]
        t = (d - 1 - len(er)) // 2
        for k in range(1 << len(er)):
            base = ref.mask(q for i, q in enumerate(er) if k >> i & 1)
            for ks in subsets(rest, 0, t):
                m = base | sum(1 << i for i in ks)
                fix(ref, code, m, "UF", None, [dims, ec, b, sg, "UF", {"swapped": s, "heralded": er, "flips": ref.unmask(m)}], rep)
    clear_states(code)


def jobs(tier):
    deep = tier == "thorough"
    J = []
    SG = ("rustworkx", "networkx")
    for ec in ("primal", "dual"):
        x5, x3 = ((5, 2, 2), (3, 2, 2)) if ec == "primal" else ((2, 5, 2), (2, 3, 2))
        x7 = (7, 2, 2) if ec == "primal" else (2, 7, 2)
        x4 = (4, 2, 2) if ec == "primal" else (2, 4, 2)
        x6 = (6, 2, 2) if ec == "primal" else (2, 6, 2)
        long_ = (3, 2, 5) if ec == "primal" else (2, 3, 5)
        wide = (3, 5, 2) if ec == "primal" else (5, 3, 2)
        for i, dims in enumerate([(3, 3, 3), x3, long_, wide]):
            for sg in SG:
                J.append(("low", dict(dims=dims, ec=ec, b="open", sg=sg, t=1, decs=[0, 1, 2, 3])))
        for i, dims in enumerate([(3, 3, 2), (3, 4, 2), (4, 3, 2), (3, 3, 4)]):
            for sg in SG:
                J.append(("low", dict(dims=dims, ec=ec, b="toric", sg=sg, t=1, decs=[0, 1, 2, 3])))
        for i, dims in enumerate([(3, 3, 3), (3, 4, 3), (4, 3, 3), (3, 3, 4)]):
            for sg in SG:
                J.append(("low", dict(dims=dims, ec=ec, b="periodic", sg=sg, t=1, decs=[0, 1, 2, 3])))
        for part in range(2):
            J.append(("low", dict(dims=x5, ec=ec, b="open", sg=SG[part], t=2, decs=[0, 1, 3], part=part, parts=2)))
            J.append(("low", dict(dims=x5, ec=ec, b="open", sg=SG[1 - part], t=2, decs=[2, 3], part=part, parts=2)))
        J.append(("low", dict(dims=x6, ec=ec, b="open", sg=SG[0], t=2, decs=[0, 3])))
        big5 = (5, 3, 3) if ec == "primal" else (3, 5, 3)
        for part in range(3):
            J.append(("low", dict(dims=big5, ec=ec, b="open", sg=SG[0], t=2, decs=[3], part=part, parts=3)))
        for part in range(16):
            J.append(("low", dict(dims=x7, ec=ec, b="open", sg=SG[part % 2], t=3, decs=[3], part=part, parts=16)))
        J.append(("low", dict(dims=(5, 5, 2), ec=ec, b="toric", sg=SG[0], t=1, decs=[0, 3])))
        for part in range(8):
            J.append(("low", dict(dims=(5, 5, 2), ec=ec, b="toric", sg=SG[0], t=2, decs=[3], part=part, parts=8 if not deep else 8)))
        for dims, smax, parts in ((x3, 4, 2), (x4, 3, 2), (x5, 3, 6), (x6, 2, 6), ((3, 3, 3), 3, 4)):
            for part in range(parts):
                J.append(("erasures", dict(dims=dims, ec=ec, b="open", sg=SG[part % 2], smin=2, smax=smax + deep, part=part, parts=parts)))
        for b, dims in (("toric", (3, 3, 2)), ("toric", (4, 4, 2)), ("periodic", (3, 3, 3)), ("periodic", (4, 4, 4))):
            parts = 2
            if dims == (4, 4, 4) and not deep:
                continue
            for part in range(parts):
                J.append(("erasures", dict(dims=dims, ec=ec, b=b, sg=SG[part % 2], smin=2, smax=2 + deep, part=part, parts=parts)))
        if deep:
            for part in range(32):
                J.append(("low", dict(dims=x7, ec=ec, b="open", sg=SG[part % 2], t=3, decs=[0, 3], part=part, parts=32)))
                J.append(("low", dict(dims=(5, 5, 5), ec=ec, b="open", sg=SG[0], t=2, decs=[0, 3], part=part, parts=32)))
                J.append(("low", dict(dims=(5, 5, 2), ec=ec, b="toric", sg=SG[0], t=2, decs=[0], part=part, parts=32)))
    return J
