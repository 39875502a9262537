"""C19: the Monte Carlo error count is exact for any work partition."""
from mc.core import need
from mc.lib import *
from mc import mpi
from mc.c18 import METHODS, analog, hom_of, prob_of, rule

PROPERTY = "C19"
BOUNDS = {
    "quick": "with and without (a stand-in for) MPI: every outcome pattern of up to 6 trials on 1 to 4 processes, under every order in which up to 3 processes "
    "reach and leave the reduction (24 orders for 4); up to 40 trials on up to 9 processes with every single failure or success; up to 1024 trials on up to 8 processes and up to 64 processes under 4 patterns; one process: every "
    "error chain of up to 2 flips (1 in larger codes) on 12 codes x 8 decoder/option combinations, each trial judged from the bits it leaves",
    "thorough": "as quick with 8 trials, 5 processes and chains of up to 3 flips",
}
ASSUMPTIONS = ["MPI is a stand-in with blocking collective operations (none is installed)", "the total is reported by the process of rank 0",
               "one module instance plays all processes; their clocks agree"]


class Script:
    """Noise that plays scripted bit patterns, and judges what became of the trial before."""

    def __init__(self, code, ref, source, before=None):
        self.code, self.ref, self.source, self.before = code, ref, source, before
        self.n = 0
        self.draws = []
        self.failed = 0
        self.rngs = []

    def finish(self):
        """Judge the last trial from the bits it left."""
        if self.n:
            m = self.ref.mask(q for q, b in get_bits(self.code).items() if b and q in self.ref.index)
            need(self.ref.syndrome(m) == 0, "a trial ended with unsatisfied checks: no correction was done")
            bad = False
            for a in self.ref.directions:
                bad |= bin(m & self.ref.planes(a)[0][1]).count("1") % 2 == 1
            self.failed += bad
            if self.after:
                self.after()

    after = None

    def apply_noise(self, rng=None):
        self.finish()
        self.draws.append(tuple(rng.random(3)))
        self.rngs.append(rng)
        chain = next(self.source)
        set_bits(self.code, self.ref.unmask(chain))
        if self.before:
            self.before(self.n)
        self.n += 1


def trial_streams_ok(scripts):
    d = [x for s in scripts for x in s.draws]
    need(len(set(d)) == len(d), "two trials drew the same random numbers")
    for s in scripts:
        need(all(r is s.rngs[0] for r in s.rngs) or len(set(s.draws)) == len(s.draws), "random generator")


def run_world(sim, trials, pattern, size, orders, dims, ec, b, decoder, args):
    """One run on `size` processes; pattern[i] says whether the i-th trial to start succeeds."""
    ref = ref_of(dims, ec, b)
    logical = ref.logicals()[0]
    source = iter([0 if ok else logical for ok in pattern])
    scripts = []
    world = mpi.World(size, orders)
    for r in range(size):
        code = cached_codes(dims, ec, b, r)
        scripts.append(Script(code, ref, source))

    def rank(comm):
        r = comm.Get_rank()
        return sim.ec_monte_carlo(trials, scripts[r].code, scripts[r], decoder, args, comm, r, size)

    res = world.run(rank)
    for s in scripts:
        s.finish()
    return res, scripts, world


@functools.lru_cache(None)
def cached_codes(dims, ec, b, r):
    return make_code(dims, ec, b)


def world_ok(res, scripts, pattern, trials):
    counts = [s.n for s in scripts]
    need(sum(counts) == trials, lambda: f"{counts} trials were run on the processes, {trials} asked for")
    fails = sum(not ok for ok in pattern)
    need(sum(s.failed for s in scripts) == fails, "trials ended differently from the pattern")
    need(res[0] == fails and isinstance(res[0], (int, np.integer)), lambda: f"reported {res[0]!r} errors, {fails} of {trials} trials failed ({counts} per process)")
    trial_streams_ok(scripts)


def patterns(rep, size, top, part, parts, ends):
    sim = mpi.simulations(True)
    perms = list(it.permutations(range(size)))
    if ends:
        orders = [(p, q) for p in perms for q in perms]
    else:
        orders = [(p, p[::-1]) for p in perms]
    n = 0
    for trials in range(top + 1):
        for pattern in it.product((True, False), repeat=trials):
            for o in orders:
                n += 1
                if n % parts != part:
                    continue
                with rep.case([size, trials, pattern, o], transitions=trials):
                    res, scripts, world = run_world(sim, trials, pattern, size, o, (2, 2, 2), "primal", "open", "MWPM", {})
                    world_ok(res, scripts, pattern, trials)
                    need(len(world.log) <= 1 or sum(k != "barrier" for k in world.log) == 1, lambda: f"totals combined {world.log}")
                rep.seen((trials, sum(pattern), res[0]))
    rep.sample([size, top])


def sizes(rep, size, top):
    """Larger numbers of trials: every single failure, and every single success."""
    sim = mpi.simulations(True)
    order = [tuple(range(size))[::-1]]
    for trials in range(0, top + 1, 1 if top < 12 else 3):
        pats = {tuple([True] * trials), tuple([False] * trials)}
        for i in range(trials):
            pats.add(tuple(j != i for j in range(trials)))
            pats.add(tuple(j == i for j in range(trials)))
        for pattern in sorted(pats):
            with rep.case([size, trials, pattern], transitions=trials):
                res, scripts, _ = run_world(sim, trials, pattern, size, order, (2, 2, 2), "dual", "open", "MWPM", {"weight_opts": None})
                world_ok(res, scripts, pattern, trials)
        rep.seen((size, trials))


def many(rep, size, counts):
    """Many trials or processes, with a few structured patterns of failures."""
    sim = mpi.simulations(True)
    order = [tuple(range(size))]
    for trials in counts:
        for name, pattern in (("none", [True] * trials), ("all", [False] * trials), ("mod 3", [i % 3 > 0 for i in range(trials)]), ("last", [i < trials - 1 for i in range(trials)])):
            with rep.case([size, trials, name], transitions=trials, limit=600):
                res, scripts, _ = run_world(sim, trials, pattern, size, order, (2, 2, 2), "primal", "open", "UF" if trials % 2 else "MWPM", {})
                world_ok(res, scripts, pattern, trials)
        rep.seen((size, trials))


def single(rep, dims, ec, b, kmax, backend, part, parts):
    """One process: every chain in turn is one trial, with each decoder and its options."""
    ref = ref_of(dims, ec, b)
    rest = sorted(ref.sites - set(ref.index))
    chains = [ref.mask(c) for c in subsets(ref.qubits, 0, kmax)]
    logical = ref.logicals()
    chains = chains[part::parts]
    chains += [c ^ l for c in chains[::5] for l in logical]
    for with_mpi in (False, True):
        sim = mpi.simulations(with_mpi)
        for decoder, opts in METHODS + [("MWPM", None), ("UF", None), ("UF", "absent")]:
            with rep.case([dims, ec, b, backend, part, decoder, opts, with_mpi], transitions=len(chains), states=len(chains), limit=600):
                code = make_code(dims, ec, b, backend)
                now = {}

                def before(n):
                    pts = set(rest[n % 3::4]) if n % 2 else set()
                    now.update(n=n, pts=pts)
                    set_states(code, pts)
                    for p, d in code.graph.nodes.data():
                        d.pop("weight", None)
                        d["p_phase_cond"], d["hom_val_p"] = prob_of(p, n), hom_of(p, n)

                def after():
                    f = rule(ref, decoder, opts if isinstance(opts, dict) else {}, now["pts"], lambda q: prob_of(q, now["n"]), lambda q: hom_of(q, now["n"]))
                    for q in ref.qubits:
                        x, w = f(q), code.graph.nodes[q].get("weight")
                        need(w is not None, "no weights: the decoder's options were not used")
                        if x is not None:
                            if isinstance(opts, dict) and opts.get("integer") and opts.get("method") == "blueprint":
                                need(abs(w - opts.get("multiplier", 1) * x) < 0.51, lambda: f"weight {w} under {opts}, stated {x}")
                            else:
                                need(close(w, x, 1e-6), lambda: f"weight {w} under {decoder} {opts}, stated {x}")

                s = Script(code, ref, iter(chains), before)
                s.after = after
                args = {} if opts == "absent" else {"weight_opts": opts}
                keep = repr(args)
                if with_mpi:
                    w = mpi.World(1, [(0,)])
                    (errors,) = w.run(lambda comm: sim.ec_monte_carlo(len(chains), code, s, decoder, args, comm, 0, 1))
                else:
                    errors = sim.ec_monte_carlo(len(chains), code, s, decoder, args)
                s.finish()
                need(s.n == len(chains), lambda: f"{s.n} trials of {len(chains)}")
                need(errors == s.failed and isinstance(errors, (int, np.integer)), lambda: f"reported {errors!r} errors, {s.failed} trials left a logical error")
                need(repr(args) == keep, "decoder arguments were changed")
                trial_streams_ok([s])
                rep.traces += len(chains)
            rep.seen((dims, ec, b, decoder, str(opts), s.failed))


def defaults(rep):
    """Without the arguments for MPI, the count is that of this process, whether MPI is installed or not."""
    ref = ref_of((2, 2, 2), "primal", "open")
    for with_mpi in (False, True):
        sim = mpi.simulations(with_mpi)
        for pattern in it.product((True, False), repeat=4):
            for n in range(5):
                with rep.case(["defaults", with_mpi, pattern[:n]], transitions=n):
                    code = cached_codes((2, 2, 2), "primal", "open", 0)
                    s = Script(code, ref, iter([0 if ok else ref.logicals()[0] for ok in pattern]))
                    e = sim.ec_monte_carlo(n, code, s, "MWPM", {})
                    s.finish()
                    need(s.n == n and e == n - sum(pattern[:n]), lambda: f"reported {e} errors in {n} trials {pattern[:n]}")


def one_trial(rep, dims, ec, b):
    """A single trial: noise once from the given generator, then the verdict."""
    sim = mpi.simulations(False)
    ref = ref_of(dims, ec, b)
    for decoder in ("MWPM", "UF"):
        for opts in (None, {}, {"method": "uniform"}):
            code = make_code(dims, ec, b)
            chains = [ref.mask(c) for c in subsets(ref.qubits, 0, 1)]
            chains = [c ^ l for c in chains for l in [0] + ref.logicals()]
            for c in chains:
                with rep.case(["trial", dims, ec, b, decoder, opts, c]):
                    s = Script(code, ref, iter([c, None]))
                    rng = np.random.default_rng(5)
                    ok = sim.ec_mc_trial(code, s, decoder, opts, rng)
                    s.finish()
                    need(s.n == 1 and s.rngs[0] is rng, "noise was not applied once with the generator given")
                    need(bool(ok) == (not s.failed), lambda: f"verdict {ok}, failed: {s.failed}")
                    s = Script(code, ref, iter([c, None]))
                    ok = sim.ec_mc_trial(code, s, decoder, opts)
                    s.finish()
                    need(s.n == 1 and bool(ok) == (not s.failed), "verdict without a generator")
                rep.seen((decoder, bool(ok)))


def jobs(tier):
    deep = tier == "thorough"
    J = [("defaults", {})]
    top = 8 if deep else 6
    J.append(("patterns", dict(size=1, top=top, part=0, parts=1, ends=True)))
    J.append(("patterns", dict(size=2, top=top, part=0, parts=1, ends=True)))
    for part in range(8):
        J.append(("patterns", dict(size=3, top=top, part=part, parts=8, ends=True)))
        J.append(("patterns", dict(size=4, top=top if deep else 5, part=part, parts=8, ends=False)))
        if deep:
            J.append(("patterns", dict(size=5, top=6, part=part, parts=8, ends=False)))
    for size in range(1, 10):
        J.append(("sizes", dict(size=size, top=11)))
        J.append(("sizes", dict(size=size, top=25 if size < 7 else 40)))
    for size in (1, 2, 3, 5, 8):
        for counts in ((63, 64, 65), (99, 100, 101), (127, 128, 129), (255, 256, 257), (500,), (999,), (1000,), (1001,), (1024,)) + (((2048,), (5000,)) if deep else ()):
            J.append(("many", dict(size=size, counts=counts)))
    for size in (10, 12, 15, 16, 17, 24, 32, 33, 64) + ((100, 128) if deep else ()):
        J.append(("many", dict(size=size, counts=(1, size - 1, size, size + 1, 2 * size - 1, 2 * size + 1))))
    for n, (ec, b) in enumerate(it.product(("primal", "dual"), ("open", "toric", "periodic"))):
        for dims in ((2, 2, 2) if b == "open" else (3, 3, 3), (3, 3, 3) if b == "open" else (3, 3, 2) if b == "toric" else (3, 3, 4)):
            small = len(ref_of(dims, ec, b).qubits) < 30
            parts = 1 if not deep else 16
            for part in range(parts):
                J.append(("single", dict(dims=dims, ec=ec, b=b, kmax=(2 if small else 1) + deep, backend=("rustworkx", "networkx")[n % 2], part=part, parts=parts)))
        J.append(("one_trial", dict(dims=(2, 2, 2) if b != "periodic" else (3, 3, 3), ec=ec, b=b)))
    return J
