"""C16: GKP binning and error probabilities are consistent."""
from mc.core import need
from mc.lib import *

PROPERTY = "C16"
BOUNDS = {
    "quick": "splitting: 11 bin widths x every multiple from -600 to 600 x 17 positions in the bin and the floats next to every edge, zero, centre, also next to powers of two and ten up to 2^46 (2^20 for inexact widths), as scalars, "
    "lists, 1-3 dimensional and integer/float32 arrays; bits: the same grid of the default width; unconditional probabilities: 400 "
    "variances singly and in every batch of a family; conditional: 60 variances x outcomes from -30 to 30 bins x 9 positions x both modes x 3 summation ranges x "
    "3 replacements, singly, in batches of every length up to 6 and in long ones",
    "thorough": "as quick with multiples to 5000, four times the positions, and variances",
}
ASSUMPTIONS = [
    "outcomes within 1e-9 of a bin edge may go to either side, except for widths that are powers of two, where bins are exactly half-open",
    "exact sums are compared where the Gaussian weights do not underflow and the summation range (var_num) covers them",
    "batches are arrays of equal length", "unconditional probabilities in the function's own parameter: erf(edge / parameter)",
]
RT = math.sqrt(math.pi)


def positions(n):
    """Positions within a bin, as fractions of its width in [-1/2, 1/2]."""
    return [(2 * j - n) / (2 * n) for j in range(n + 1)]


def split_ok(x, n, f, alpha, exact):
    need(float(n) == int(n), lambda: f"integer part {n!r} of {x!r}")
    n = int(n)
    tol = 1e-12 * max(1.0, abs(x), alpha)
    need(abs(n * alpha + float(f) - x) <= tol, lambda: f"{n} x {alpha!r} + {f!r} is not {x!r}")
    need(abs(float(f)) <= alpha / 2 + tol, lambda: f"remainder {f!r} of {x!r} is beyond half the width {alpha!r}")
    k = x / alpha
    e = abs(k - math.floor(k) - 0.5)
    if e > 1e-9:
        need(n == math.floor(k + 0.5), lambda: f"integer part {n} of {x!r}, nearest {math.floor(k + 0.5)} (width {alpha!r})")
    return n


def splitting(rep, alpha, kmax, npos):
    from flamingpy.cv.gkp import integer_fractional

    exact = math.log2(alpha).is_integer()
    pos = positions(npos)
    sides = set()
    for k0 in range(-kmax, kmax + 1, 50):
        with rep.case([alpha, "multiples from", k0], limit=300):
            xs = []
            for k in range(k0, min(k0 + 50, kmax + 1)):
                xs += [(k + p) * alpha for p in pos]
                c = (k + 0.5) * alpha
                xs += [math.nextafter(c, math.inf), math.nextafter(c, -math.inf), math.nextafter(k * alpha, math.inf), math.nextafter(k * alpha, -math.inf)]
            rep.states += len(xs)
            rep.transitions += len(xs)
            ns, fs = integer_fractional(np.array(xs), alpha)
            need(np.shape(ns) == np.shape(fs) == (len(xs),), "shape of the result")
            need(np.issubdtype(np.asarray(ns).dtype, np.integer), "integer parts are not integers")
            for i, x in enumerate(xs):
                rep.desc = [alpha, x]
                n = split_ok(x, ns[i], fs[i], alpha, exact)
                if i % 3 == 0:
                    a, b = integer_fractional(x, alpha)
                    need(int(a) == n and float(b) == float(fs[i]), lambda: f"scalar {x!r} gives {a, b}, in an array {ns[i], fs[i]}")
                if exact and (x / alpha - 0.5).is_integer():
                    sides.add(n > x / alpha)
                    need(len(sides) == 1, lambda: f"bins are not half-open: the edges go to different sides ({x!r})")
            m = len(xs) // 4 * 4
            a, b = integer_fractional(np.array(xs[:m]).reshape(2, 2, -1), alpha)
            need((a.flatten() == ns[:m]).all() and (b.flatten() == fs[:m]).all(), "three-dimensional array")
            a, b = integer_fractional(list(xs[:40]), alpha)
            need((a == ns[:40]).all() and (b == fs[:40]).all(), "list")
            ys = np.array([k for k in range(k0, k0 + 50)])
            a, b = integer_fractional(ys, alpha)
            for y, n, f in zip(ys, a, b):
                split_ok(float(y), n, f, alpha, exact)
                n1, f1 = integer_fractional(int(y), alpha)
                need(n1 == n and f1 == f, "integer scalar")
    # small numbers on both sides of zero
    for x in (0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e-17, -1e-17, 1e-9, -1e-9):
        with rep.case([alpha, x]):
            n, f = integer_fractional(x, alpha)
            need(int(n) == 0 and abs(float(f)) < 1e-8, lambda: f"{x!r} splits into {n}, {f!r}")
    rep.seen((alpha, exact, tuple(sides)))
    rep.sample([alpha, xs[0]])


def far(rep, alpha):
    """Multiples far from the origin: next to powers of two and of ten."""
    from flamingpy.cv.gkp import GKP_binner, integer_fractional

    exact = math.log2(alpha).is_integer()
    top = 46 if exact else 20
    mags = sorted({m + d for j in range(9, top + 1) for m in (2**j, 10 ** (j * 0.30103 // 1)) for d in (-2, -1, 0, 1, 2, 3)})
    sides = set()
    for m in mags:
        for k in (int(m), -int(m)):
            with rep.case([alpha, "multiple", k], states=17, transitions=17):
                xs = [(k + p) * alpha for p in positions(16)]
                ns, fs = integer_fractional(np.array(xs), alpha)
                for x, p, n, f in zip(xs, positions(16), ns, fs):
                    tol = 0 if exact else 4e-16 * abs(k) + 1e-12
                    need(abs(float(f)) <= alpha / 2 + tol * alpha, lambda: f"remainder {f} of {x!r} is beyond half the width")
                    need(abs(int(n) * alpha + float(f) - x) <= 1e-15 * abs(x) * (not exact), lambda: f"{n} x {alpha} + {f} is not {x!r}")
                    if abs(p) < 0.5 - 1e-6:
                        need(int(n) == k and abs(float(f) - p * alpha) <= 4e-16 * abs(x) * (not exact), lambda: f"{x!r} splits into {n}, {f!r}; it is {k} {p:+} widths")
                    elif exact:
                        sides.add(int(n) > x / alpha)
                        need(len(sides) == 1, "bins are not half-open")
                    a, b = integer_fractional(x, alpha)
                    need(int(a) == int(n) and float(b) == float(f), "scalar and array differ")
                if alpha == RT:
                    bits = GKP_binner(np.array(xs))
                    for x, p, b in zip(xs, positions(16), bits):
                        if abs(p) < 0.5 - 1e-6:
                            need(b == k % 2 == GKP_binner([x])[0] == GKP_binner(x), lambda: f"bit {b} of {x!r}, {k} {p:+} widths")
    rep.seen((alpha, exact, tuple(sides)))
    rep.sample([alpha, xs[0]])


def far_conditional(rep, v):
    from flamingpy.cv.gkp import Z_err_cond

    for k in [s * (2**j + d) for j in range(6, 17) for d in (-1, 0, 1) for s in (1, -1)]:
        xs = [(k + p) * RT for p in positions(8)[1:-1]]
        for mode in (False, True):
            with rep.case(["conditional", v, "bin", k, mode], states=len(xs), transitions=2 * len(xs)):
                got = Z_err_cond(np.full(len(xs), v), np.array(xs), use_hom_val=mode)
                for x, p in zip(xs, got):
                    w, safe = exact_conditional(v, x, "")
                    q = Z_err_cond(v, x, use_hom_val=mode)
                    need(0 <= p <= 1 and abs(p - q) < 1e-9, lambda: f"{p} in a batch, {q} alone")
                    if safe:
                        need(abs(p - w) < 1e-9 + 1e-5 * w, lambda: f"Z_err_cond({v}, {x}) = {p}, exact {w}")
    rep.seen(("far", v))


def binning(rep, kmax, npos, part, parts):
    from flamingpy.cv.gkp import GKP_binner

    for k in range(-kmax + part, kmax + 1, parts):
        with rep.case(["bits", k], states=4 * npos, transitions=4 * npos):
            xs = [(k + p) * RT for p in positions(npos)]
            bits, fr = GKP_binner(np.array(xs), return_fraction=True)
            only = GKP_binner(np.array(xs))
            need((only == bits).all(), "bits depend on return_fraction")
            shifted = GKP_binner(np.array(xs) + 2 * RT)
            neg = GKP_binner(-np.array(xs))
            odd = GKP_binner(np.array(xs) + RT)
            lst = GKP_binner(xs)
            sq = GKP_binner(np.array(xs[:4]).reshape(2, 2))
            need((sq.flatten() == bits[:4]).all() and (lst == bits).all(), "bits depend on the container")
            for i, (x, p) in enumerate(zip(xs, positions(npos))):
                rep.desc = ["bits", x]
                need(bits[i] in (0, 1), f"bit {bits[i]}")
                need(abs(fr[i]) <= RT / 2 + 1e-9, f"fraction {fr[i]}")
                if abs(p) < 0.5 - 1e-9:
                    need(bits[i] == k % 2, lambda: f"outcome {x} ({k} {p:+} widths) gives bit {bits[i]}")
                    need(abs(fr[i] - p * RT) < 1e-9 * max(1, abs(k)), lambda: f"fraction {fr[i]} of {x}")
                    need(shifted[i] == bits[i] and neg[i] == bits[i] and odd[i] == 1 - bits[i], lambda: f"bits of {x} and its images differ")
                    one = GKP_binner(x)
                    b1, f1 = GKP_binner([x], return_fraction=True)
                    b2, f2 = GKP_binner(x, return_fraction=True)
                    need(one == bits[i] and b1[0] == bits[i] == b2 and f1[0] == fr[i] == f2, "one outcome at a time differs")
        rep.seen(k % 2)
    with rep.case("float32 and integers"):
        ys = np.arange(-60, 61)
        for arr in (ys, ys.astype(np.float32), ys.astype(np.int8)):
            b = GKP_binner(arr)
            need(all(int(x) == math.floor(y / RT + 0.5) % 2 for x, y in zip(b, ys)), "bits of integer outcomes")


# ---------------------------------------------------------------- probabilities
def exact_unconditional(v):
    """Weight outside the even bins."""
    s = 0.0
    n = int(12 * v / RT) + 3
    for k in range(-n, n + 1):
        if k % 2:
            a, b = (k - 0.5) * RT / v, (k + 0.5) * RT / v
            s += 0.5 * (math.erfc(a) - math.erfc(b) if a > 0 else math.erfc(-b) - math.erfc(-a))
    return s


def exact_conditional(v, x, mode):
    """(probability of the other parity, is it safe from underflow)"""
    k = x / RT
    c = math.floor(k + 0.5)
    r = (k - c) * RT
    if mode == "hom":
        pass  # the parity is that of the bin of x, wherever it is
    ex = [(-((r - n * RT) ** 2) / v, n) for n in range(-80, 81)]
    m = max(e for e, _ in ex)
    num = math.fsum(math.exp(e - m) for e, n in ex if n % 2)
    den = math.fsum(math.exp(e - m) for e, n in ex)
    return num / den, m > -650


def unconditional(rep, vs):
    from flamingpy.cv.gkp import Z_err

    want = [exact_unconditional(v) for v in vs]
    last = 0
    for v, w in zip(vs, want):
        with rep.case(["Z_err", v]):
            (p,) = Z_err(np.array([v]))
            need(-1e-12 <= p <= 1 + 1e-12, lambda: f"probability {p}")
            need(abs(p - w) < 1e-9, lambda: f"Z_err({v}) = {p}, exact {w}")
            need(p >= last - 1e-9, "not increasing with the variance")
            last = p
            for num in (6, 10):
                (q,) = Z_err(np.array([v]), var_num=num)
                need(abs(q - w) < 1e-9, lambda: f"Z_err({v}, {num}) = {q}, exact {w}")
    for size in (2, 3, 7, 50, len(vs)):
        for off in range(0, len(vs), size):
            for rev in (1, -1):
                idx = list(range(off, min(off + size, len(vs))))[::rev]
                idx += [(i * 37) % len(vs) for i in idx]  # mixed scales
                with rep.case(["Z_err batch", size, off, rev], states=len(idx)):
                    arr = np.array([vs[i] for i in idx])
                    keep = arr.copy()
                    got = Z_err(arr)
                    need(len(got) == len(idx) and (arr == keep).all(), "length of the result or changed input")
                    for i, p in zip(idx, got):
                        need(abs(p - want[i]) < 1e-9, lambda: f"Z_err in a batch: {p} for {vs[i]}, exact {want[i]}")


def hom_grid(kmax, npos, step):
    return [(k + p) * RT for k in range(-kmax, kmax + 1, step) for p in positions(npos)[:-1]]


def conditional(rep, v, kmax, npos, step):
    """One variance, every outcome, both modes, each summation range, singly and in batches."""
    from flamingpy.cv.gkp import Z_err_cond

    xs = hom_grid(kmax, npos, step)
    for mode in (False, True):
        exact = [exact_conditional(v, x, "hom" if mode else "frac") for x in xs]
        edge = [abs(abs(x / RT - math.floor(x / RT)) - 0.5) < 1e-9 for x in xs]
        for var_num in (None, 15, 40):
            kw = {"use_hom_val": mode}
            if var_num:
                kw["var_num"] = var_num
            single = []
            for i, x in enumerate(xs):
                with rep.case(["conditional", v, x, kw]):
                    p = Z_err_cond(v, x, **kw)
                    need(np.ndim(p) == 0, lambda: f"result {p!r}")
                    p = float(p)
                    single.append(p)
                    need(0 <= p <= 1, lambda: f"probability {p}")
                    w, safe = exact[i]
                    if safe and not edge[i]:
                        need(abs(p - w) < 1e-9 + 1e-7 * w, lambda: f"Z_err_cond({v}, {x}, {kw}) = {p}, exact {w}")
                        need(p <= 0.5 + 1e-12, lambda: f"probability {p} beyond one half away from the bin edges")
                    elif safe:
                        need(abs(p - 0.5) < 0.5 and min(abs(p - w), abs(1 - p - w)) < 1e-6, lambda: f"probability {p} at a bin edge, exact {w}")
            arr = np.array(xs)
            for size in (1, 2, 3, 4, 5, 6, len(xs)):
                for off in range(0, len(xs) - size + 1, size * 5 if size > 1 and size < 7 else size * 3):
                    with rep.case(["conditional batch", v, size, off, kw]):
                        ys, vv = arr[off:off + size].copy(), np.full(size, v)
                        got = np.atleast_1d(Z_err_cond(vv, ys, **kw))
                        need(got.shape == (size,), lambda: f"result of shape {got.shape} for {size} outcomes")
                        need((ys == arr[off:off + size]).all() and (vv == v).all(), "inputs were changed")
                        for j in range(size):
                            need(abs(got[j] - single[off + j]) < 1e-12, lambda: f"batch gives {got[j]}, alone {single[off + j]} (outcome {ys[j]})")
                            if size < len(xs) and j == 0 and off % 4 == 0:
                                need(abs(np.atleast_1d(Z_err_cond(vv, float(ys[0]), **kw))[0] - single[off]) < 1e-12, "array of variances and a scalar outcome")
    rep.seen((v, exact[0][1]))
    rep.sample([v, xs[0]])


def mixed(rep, vs, kmax):
    """Batches mixing variances of all scales, with each replacement of undefined values."""
    from flamingpy.cv.gkp import Z_err_cond

    xs = hom_grid(kmax, 4, 3)
    cells = [(v, x) for v in vs for x in xs]
    cells = cells[:: max(1, len(cells) // 3000)]
    for mode in (False, True):
        for rep_u in (0, 0.25, 0.5, "bin_location"):
            single = []
            for v, x in cells:
                with rep.case(["replacement", v, x, mode, rep_u]):
                    p = Z_err_cond(v, x, replace_undefined=rep_u, use_hom_val=mode)
                    need(not isinstance(p, str) and 0 <= float(p) <= 1, lambda: f"probability {p!r}")
                    single.append(float(p))
                    w, safe = exact_conditional(v, x, "")
                    r = abs(x / RT - math.floor(x / RT + 0.5))
                    if safe:
                        if r < 0.5 - 1e-9:
                            need(abs(p - w) < 1e-9 + 1e-7 * w, lambda: f"{p}, exact {w}")
                    elif (r * RT) ** 2 / v > 760:
                        want = r if rep_u == "bin_location" else rep_u
                        need(abs(p - want) < 1e-9, lambda: f"undefined value replaced by {p}, asked for {rep_u} ({want})")
            for size in (2, 3, 11, len(cells)):
                for stride in (1, 7, 101):
                    idx = [(i * stride) % len(cells) for i in range(len(cells))]
                    for off in range(0, len(cells), size if size > 3 else 8 * size):
                        ii = idx[off:off + size]
                        if len(ii) < 2:
                            continue
                        with rep.case(["mixed batch", size, stride, off, mode, rep_u]):
                            got = Z_err_cond(np.array([cells[i][0] for i in ii]), np.array([cells[i][1] for i in ii]), replace_undefined=rep_u, use_hom_val=mode)
                            need(np.shape(got) == (len(ii),), "shape of the result")
                            for i, p in zip(ii, got):
                                need(abs(p - single[i]) < 1e-12, lambda: f"batch gives {p}, alone {single[i]} for {cells[i]}")
        rep.seen((mode, len(cells)))


def cvs(n):
    return [5e-3 * 1.6**k for k in range(n)]


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for alpha in (RT, 2 * RT, 1.0, 0.5, 2.0, 0.25, 4.0, math.pi, 0.1, RT / 2, 3.7):
        J.append(("splitting", dict(alpha=alpha, kmax=5000 if deep else 600, npos=64 if deep else 16)))
        J.append(("far", dict(alpha=alpha)))
    for v in (0.01, 0.1, 0.5, 3.0) if not deep else cvs(16):
        J.append(("far_conditional", dict(v=v)))
    for part in range(8):
        J.append(("binning", dict(kmax=3000 if deep else 400, npos=64 if deep else 32, part=part, parts=8)))
    vs = [1e-3 * 1.025**k for k in range(400)]  # up to about 19
    for part in range(4):
        J.append(("unconditional", dict(vs=vs[part * 100:(part + 1) * 100])))
    J.append(("unconditional", dict(vs=vs[::3])))
    cv = [2e-3 * 1.17**k for k in range(60 if not deep else 61)]  # up to about 21
    if deep:
        cv = [2e-3 * 1.04**k for k in range(238)]
    for v in cv:
        J.append(("conditional", dict(v=v, kmax=30, npos=8, step=1 if deep else 3)))
    J.append(("mixed", dict(vs=[1e-5, 1e-4, 3e-4, 1e-3, 1.1e-3, 2e-3, 0.01, 0.05, 0.1, 0.3, 1, 3, 10, 20], kmax=24)))
    return J
