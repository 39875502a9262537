"""C20: the simulation results file stays complete and well-formed."""
import builtins, contextlib, csv, io, pathlib, runpy, shutil

from mc.core import need
from mc.lib import *
from mc import mpi

PROPERTY = "C20"
BOUNDS = {
    "quick": "9 families of settings (every value type: numbers, tuples, lists, arrays, None, nested options, text with commas, quotes and line breaks, functions): "
    "every sequence of 3 runs over their values from 6 file states at given and default locations; every sequence of 2 runs, the last one with an error, an interruption or a "
    "kill (buffer lost, written, or torn at every byte) at every file operation or trial, followed by a healthy run; sequences of up to 150 runs, files with up to 3000 earlier records and values of up to 70 kB; 1 to 4 processes in every order of arrival; "
    "the command line with every spelling of the decoder",
    "thorough": "as quick with sequences of 4 runs and faults in sequences of 3",
}
ASSUMPTIONS = ["the runs sharing a file use the same setting names", "an existing file is empty or starts with its header and ends a line",
               "a write torn by a kill leaves earlier records intact; the record being written may be partial",
               "files are accessed through open(), and a buffered text reaches the disk when flushed or closed"]
TAIL = ["errors", "trials", "current_time", "simulation_time", "mpi_size"]


# ---------------------------------------------------------------- settings
def code_class(name="SurfaceCode"):
    from flamingpy.codes import SurfaceCode

    return SurfaceCode


class Toy:
    """A code that is corrected by construction: results come from the noise."""


def make_noise(name, fails):
    """A noise class of the given name; trial i fails when fails[i]."""

    class N:
        def __init__(self, code, **kw):
            self.code, self.kw, self.i = code, kw, 0
            self.ref = ref_of(tuple(code.dims), code.ec[0], {"open_primal": "open", "open_dual": "open"}.get(code.bound_str, "periodic" if code.bound_str == "periodic" else "toric"))

        def apply_noise(self, rng=None):
            bad = fails[self.i % len(fails)] if fails else False
            self.i += 1
            set_bits(self.code, self.ref.unmask(self.ref.logicals()[0] if bad else 0))
            for p, d in self.code.graph.nodes.data():
                d["state"], d["p_phase_cond"], d["hom_val_p"] = "GKP", 0.1, 0.2

    N.__name__ = N.__qualname__ = name
    return N


def alternating(edge):
    return 1


FAMILIES = {
    # name: (code settings, noise settings, decoder settings), each a list of variants with the same names
    "plain": ([{"distance": 2, "ec": "primal", "boundaries": "open"}, {"distance": 2, "ec": "dual", "boundaries": "open"}], [{"delta": 0.09, "p_swap": 0.25}, {"delta": 1e-07, "p_swap": 0}], [("MWPM", {"weight_opts": {}}), ("UF", {"weight_opts": {}})]),
    "tuple": ([{"distance": (2, 2, 3), "ec": "primal"}, {"distance": (3, 2, 2), "ec": "dual"}], [{"error_probability": 0.1}, {"error_probability": 1}], [("MWPM", {"weight_opts": None}), ("UF", {"weight_opts": None})]),
    "list": ([{"distance": [2, 3, 2]}, {"distance": np.array([2, 2, 2])}], [{"shape": (1, (2, 3))}, {"shape": []}], [("MWPM", {"weight_opts": {"method": "uniform"}})]),
    "nested": ([{"distance": 2}], [{"delta": 0.01}], [("MWPM", {"weight_opts": {"method": "blueprint", "integer": True, "multiplier": 100, "delta": 0.01}}), ("MWPM", {"weight_opts": {"method": "blueprint", "prob_precomputed": True}})]),
    "text": ([{"distance": 2, "boundaries": "open"}], [{"label": 'a, "quoted", name'}, {"label": "two\nlines, and\r\nmore"}, {"label": ""}, {"label": ",;\t'"}], [("MWPM", {"note": "x,y"}), ("UF", {"note": '"'})]),
    "function": ([{"distance": 2, "polarity": None}, {"distance": 2, "polarity": alternating}], [{"delta": None}], [("MWPM", {"weight_opts": None})]),
    "bare": ([{"distance": 2}], [{}], [("MWPM", {}), ("UF", {})]),
    "many": ([{"distance": 2, "ec": "primal", "boundaries": "open", "backend": "networkx"}, {"distance": 2, "ec": "dual", "boundaries": "open", "backend": "rustworkx"}], [{"delta": 0.1, "p_swap": 0.5, "sampling_order": "initial", "states": {"p": [0, 1]}}], [("MWPM", {"weight_opts": {}, "decoder_opts": {"backend": "lemon, or not"}}), ("UF", {"weight_opts": {}, "decoder_opts": None})]),
    "numbers": ([{"distance": np.int64(2)}], [{"delta": np.float64(0.1)}, {"delta": 10**20}, {"delta": -0.0}, {"delta": True}, {"delta": float("inf")}, {"delta": 1 / 3}], [("UF", {"weight_opts": None})]),
}


def menu(family):
    """Every run of a family: (code settings, noise name, noise settings, decoder, its settings, failures)."""
    c, n, d = FAMILIES[family]
    res = []
    for i in range(max(len(c), len(n), len(d))):
        res.append((c[i % len(c)], ("IidNoise", "CVLayer")[i % 2], n[i % len(n)], d[i % len(d)], [(), (True,), (True, False, True), (False,) * 4, (True, True)][i % 5]))
    return res


def full_header(run):
    c, _, n, (_, d), _ = run
    return ["code", *c, "noise", *n, "decoder", *d] + TAIL


def expected(run):
    c, nn, n, (dec, d), fails = run
    return ["SurfaceCode", *map(text, c.values()), nn, *map(text, n.values()), dec, *map(text, d.values()), str(sum(fails)), str(len(fails))]


def text(v):
    return "" if v is None else repr(v) if isinstance(v, float) and not isinstance(v, np.floating) else str(v)


def execute(sim, run, fname):
    c, nn, n, (dec, d), fails = run
    args = [dict(c), dict(n), dict(d)]
    kw = {} if fname is None else {"fname": fname}
    sim.run_ec_simulation(len(fails), code_class(), args[0], make_noise(nn, fails), args[1], dec, args[2], **kw)
    need(repr(args) == repr([c, n, d]), "the settings were changed")


def parse(path):
    with open(path, newline="", encoding="utf8") as f:
        return [r for r in csv.reader(f) if r]


def record_ok(row, run, size=1):
    want = expected(run)
    need(len(row) == len(full_header(run)), lambda: f"record has {len(row)} fields, the header {len(full_header(run))}: {row}")
    for name, got, x in zip(full_header(run), row, want):
        same = got == x
        if not same:  # the same number or literal written another way
            try:
                same = float(got) == float(x)
            except ValueError:
                same = got.split() == x.split() and "\n" not in x
        need(same or (x == "" and got in ("None", "")), lambda: f"column {name} holds {got!r}, the value was {x!r}")
    clock, took, msize = row[len(want):]
    need(len(clock.split(":")) == 3 and all(t.isdigit() for t in clock.split(":")), lambda: f"current_time {clock!r}")
    need(float(took) >= 0, lambda: f"simulation_time {took!r}")
    need(msize == str(size), lambda: f"mpi_size {msize!r}")


def csv_text(rows):
    s = io.StringIO()
    csv.writer(s, lineterminator="\n").writerows(rows)
    return s.getvalue()


def old_record(run, k):
    return expected(run) + ["12:00:0%d" % k, "1.5", "1"]


def start(path, state, run):
    """Bring the file into a state; the complete records it then has."""
    if state == "absent":
        return None, []
    head = full_header(run)
    rows = {"empty": [], "header": [head], "one": [head, old_record(run, 0)], "three": [head] + [old_record(run, k) for k in range(3)], "blank": [head, []]}[state]
    txt = csv_text(rows)
    if state == "blank":
        txt = csv_text([head]) + "\n"
    with open(path, "w", newline="", encoding="utf8") as f:
        f.write(txt)
    return txt.encode(), rows[1:] if state != "blank" else []


STATES = ["absent", "empty", "header", "one", "three", "blank"]


def content(path):
    return pathlib.Path(path).read_bytes() if os.path.exists(path) else None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc-c20-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def file_ok(path, head, olds, runs, size=1):
    rows = parse(path)
    need(rows and rows[0] == head, lambda: f"header {rows[:1]}, should be {head}")
    need(rows[1:1 + len(olds)] == olds, "records from before are not there any more")
    new = rows[1 + len(olds):]
    need(len(new) == len(runs), lambda: f"{len(new)} records for {len(runs)} completed runs: {new}")
    for row, run in zip(new, runs):
        record_ok(row, run, size)
    return new


DEFAULT = os.path.join("flamingpy", ".sims_data", "sims_results.csv")


def histories(rep, family, depth):
    sim = mpi.simulations(False)
    M = menu(family)
    with scratch() as d:
        for state in STATES:
            for where in ("given", "default", "path", "folder"):
                for seq in it.product(range(len(M)), repeat=depth):
                    with rep.case([family, state, where, seq], states=depth + 1, transitions=depth):
                        shutil.rmtree(os.path.join(d, "flamingpy"), ignore_errors=True)
                        for f in os.listdir(d):
                            os.remove(os.path.join(d, f))
                        path = DEFAULT if where in ("default", "folder") else "results file.csv"
                        if where == "folder" or (where == "default" and state != "absent"):
                            os.makedirs(os.path.dirname(path))
                        if where == "path":
                            fname = pathlib.Path(d) / path
                        else:
                            fname = None if where in ("default", "folder") else path
                        before, olds = start(path, state, M[0])
                        for i, k in enumerate(seq):
                            execute(sim, M[k], fname)
                            now = content(path)
                            need(now is not None, "no results file")
                            need(before is None or now.startswith(before), "what was in the file has been altered")
                            file_ok(path, full_header(M[0]), olds, [M[j] for j in seq[:i + 1]])
                            before = now
                        left = sorted(str(p.relative_to(d)) for p in pathlib.Path(d).rglob("*") if p.is_file())
                        need(left == [path], lambda: f"files left: {left}")
                    rep.seen((family, state, where, len(before or b"") > 200))
    rep.sample([family, depth])


def long_files(rep, family, olds, runs):
    """A large file from before, very long values, and many runs."""
    sim = mpi.simulations(False)
    M = menu(family)
    if family == "bare":  # long values
        big = [{"label": "x" * n} for n in (100, 4095, 4096, 8192, 70000)]
        M = [({"distance": 2}, "IidNoise", n, ("UF", {"weight_opts": {"note": "y" * 300, "values": list(range(300))}}), (True,) * (i + 1)) for i, n in enumerate(big)]
    with scratch() as d, rep.case([family, "long", olds, runs], transitions=runs, states=runs, limit=600):
        path = os.path.join(d, "r.csv")
        rows = [full_header(M[0])] + [old_record(M[k % len(M)], k % 10) for k in range(olds)]
        with open(path, "w", newline="", encoding="utf8") as f:
            f.write(csv_text(rows))
        before, done = content(path), []
        for i in range(runs):
            run = M[i % len(M)]
            execute(sim, run, path)
            done.append(run)
            now = content(path)
            need(now.startswith(before), "what was in the file has been altered")
            file_ok(path, rows[0], rows[1:], done)
            before = now
        rep.seen((family, olds, runs))


# ---------------------------------------------------------------- faults
class Killed(BaseException):
    pass


class Plan:
    """A fault at the k-th operation on the results file."""

    def __init__(self, path, k, mode, torn=None):
        self.path, self.k, self.mode, self.torn = os.path.abspath(path), k, mode, torn
        self.n, self.fired, self.dead = 0, None, False
        self.files = []

    def step(self, what, effect):
        if self.dead:
            return None  # nothing happens after a kill
        self.n += 1
        if self.n != self.k:
            return effect()
        self.fired = what
        if self.mode == "error":
            raise OSError(28, "injected: no space left on device")
        if self.mode == "error-after":
            effect()
            raise OSError(5, "injected: input/output error")
        if self.mode == "interrupt":
            raise KeyboardInterrupt("injected")
        if self.mode == "kill-after":
            effect()
        for f in self.files:  # the process is gone; what had been buffered is lost, written, or torn
            f.drop(self.torn if self.mode == "kill-torn" else None if self.mode == "kill-lost" else "all")
        self.dead = True
        raise Killed()


class Faulty:
    """A text file with its own buffer, whose operations can fail."""

    def __init__(self, plan, real):
        self._p, self._f, self._pending = plan, real, ""
        plan.files.append(self)

    def _push(self):
        t, self._pending = self._pending, ""
        if t:
            self._f.write(t)
        self._f.flush()

    def drop(self, how):
        if self._f.closed:
            return
        if how == "all":
            self._push()
        elif isinstance(how, int):
            self._f.write(self._pending[:how])
            self._f.flush()
        self._pending = ""
        self._f.close()

    def write(self, s):
        def eff():
            self._pending += s
            return len(s)

        return self._p.step("write", eff)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        return self._p.step("flush", self._push)

    def tell(self):
        return self._p.step("tell", lambda: self._f.tell() + len(self._pending.encode("utf8")))

    def close(self):
        def eff():
            if not self._f.closed:
                self._push()
                self._f.close()

        if self._f.closed:
            return None
        try:
            return self._p.step("close", eff)
        except (OSError, KeyboardInterrupt):
            if not self._f.closed:
                self._pending = ""  # a close that fails gives the buffer up
                self._f.close()
            raise

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        x = getattr(self._f, name)
        if callable(x):
            def call(*a, **k):
                self._push_quiet()
                return self._p.step(name, lambda: x(*a, **k))
            return call
        return x

    def _push_quiet(self):
        if self._pending and not self._p.dead:
            self._push()


@contextlib.contextmanager
def faulty_open(plan):
    real = builtins.open

    def opener(file, mode="r", *a, **kw):
        try:
            mine = os.path.abspath(os.fspath(file)) == plan.path
        except TypeError:
            mine = False
        if not mine or "b" in mode:
            return real(file, mode, *a, **kw)
        return plan.step("open", lambda: Faulty(plan, real(file, mode, *a, **kw)))

    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open = io.open = real
        for f in plan.files:
            if not f._f.closed:
                f._f.close()


MODES = ["error", "error-after", "interrupt", "kill-lost", "kill-written", "kill-after"]


def complete_rows(raw):
    """Rows of the complete lines of a file's bytes."""
    return [r for r in csv.reader(io.StringIO(raw.decode("utf8"), newline="")) if r]


def faults(rep, family, depth):
    """A fault at every operation of every run of a sequence, and healthy runs around it."""
    sim = mpi.simulations(False)
    M = menu(family)
    head = full_header(M[0])
    path = "results.csv"
    with scratch() as d:
        for state in STATES:
            for pre in range(depth - 1):
                for k0 in range(len(M)):
                    for mode in MODES + ["kill-torn"]:
                        k = torn = 0
                        while True:
                            k += 1
                            fired = one_fault(rep, sim, d, path, family, state, M, k0, pre, k, mode, torn, head)
                            if fired is None:
                                break
                            if mode == "kill-torn":
                                # every length the buffered text could have been cut to
                                n = fired
                                for torn in range(1, n + 1):
                                    one_fault(rep, sim, d, path, family, state, M, k0, pre, k, mode, torn, head)
                                torn = 0
                            if k > 60:
                                break


def one_fault(rep, sim, d, path, family, state, M, k0, pre, k, mode, torn, head):
    fired = None
    with rep.case(["fault", family, state, k0, pre, k, mode, torn], transitions=pre + 2):
        if os.path.exists(path):
            os.remove(path)
        before, olds = start(path, state, M[0])
        done = []
        for j in range(pre):
            execute(sim, M[(k0 + 1 + j) % len(M)], path)
            done.append(M[(k0 + 1 + j) % len(M)])
        before = content(path)
        run = M[k0]
        plan = Plan(path, k, mode, torn if mode == "kill-torn" else None)
        pend = [0]
        if mode == "kill-torn":
            orig = Plan.step

            def drop_len(what, effect):
                if plan.n + 1 == plan.k and not plan.dead:
                    pend[0] = max([len(f._pending) for f in plan.files] or [0])
                return orig(plan, what, effect)

            plan.step = drop_len
        ended = "ok"
        with faulty_open(plan):
            try:
                execute(sim, run, path)
            except (OSError, KeyboardInterrupt, Killed) as e:
                ended = type(e).__name__
        now = content(path)
        need(before is None or (now or b"").startswith(before), lambda: f"{mode} at operation {k} ({plan.fired}): what was in the file has been altered: {before[-80:]!r} -> {(now or b'')[-80:]!r}")
        if plan.fired is None:
            need(ended == "ok", f"raised {ended} without a fault")
            file_ok(path, head, olds, done + [run])
            return None
        rows = complete_rows(now or b"")
        extra = rows[1 + len(olds) + len(done):] if rows else []
        if mode == "kill-torn" and 0 < (torn or 0) < pend[0]:
            fired = pend[0]
            rep.seen((plan.fired, mode, "torn"))
            # whatever was torn, the complete records are those from before
            need(rows[1:1 + len(olds)] == olds if rows and olds else True, "earlier records")
            for row, r in zip(rows[1 + len(olds):], done):
                record_ok(row, r)
            return fired
        need(not rows or rows[0] == head, lambda: f"after {mode} at {plan.fired}: first line {rows[0]}")
        need(len(extra) <= 1 and (ended != "ok" or len(extra) == 1), lambda: f"after {mode} at {plan.fired}: {len(extra)} records for one run (ended: {ended})")
        if extra:
            record_ok(extra[0], run)
            done = done + [run]
        # a healthy run afterwards adds exactly its record
        nxt = M[(k0 + 2) % len(M)]
        execute(sim, nxt, path)
        need(now is None or content(path).startswith(now), "the next run altered what was there")
        file_ok(path, head, olds, done + [nxt])
        rep.seen((plan.fired, mode, ended, len(extra)))
        fired = pend[0] if mode == "kill-torn" else 1
    return fired


def interrupted(rep, family):
    """Runs that end before all trials are done leave no trace."""
    sim = mpi.simulations(False)
    M = menu(family)
    path = "r.csv"
    with scratch() as d:
        for state in STATES:
            for k, run in enumerate(M):
                for exc in (KeyboardInterrupt, ValueError, MemoryError):
                    for at in range(4):
                        with rep.case(["interrupted", family, state, k, exc.__name__, at], transitions=2):
                            if os.path.exists(path):
                                os.remove(path)
                            _, olds = start(path, state, M[0])
                            before = content(path)
                            c, nn, n, (dec, dd), fails = run
                            N = make_noise(nn, (True, False))

                            class Broken(N):
                                def apply_noise(self, rng=None):
                                    if self.i == at:
                                        raise exc("injected")
                                    super().apply_noise(rng)

                            Broken.__name__ = nn
                            try:
                                sim.run_ec_simulation(4, code_class(), dict(c), Broken, dict(n), dec, dict(dd), fname=path)
                            except exc:
                                pass
                            else:
                                need(False, "the interruption was swallowed")
                            now = content(path)
                            need(now == before or (before is None and now == b""), lambda: f"a run interrupted in trial {at} changed the file: {before!r} -> {now!r}")
                            execute(sim, run, path)
                            file_ok(path, full_header(M[0]), olds, [run])
                rep.seen((family, state, k))


# ---------------------------------------------------------------- processes
def ranks(rep, size, family):
    sim = mpi.simulations(True)
    M = menu(family)
    proxy = sim._stand_in.COMM_WORLD
    perms = list(it.permutations(range(size)))
    with scratch() as d:
        for p in perms:
            for q in perms if size < 4 else [p[::-1], p]:
                for where, state, trials in it.product(("given", "default"), ("absent", "one"), (4, 0, 1, 2, 9)):
                        if trials != 4 and size > 2 and (p, q) not in ((perms[0], perms[0]), (perms[0], perms[-1]), (perms[-1], perms[0])):
                            continue
                        with rep.case(["processes", size, family, p, q, where, state, trials], transitions=size):
                            shutil.rmtree(os.path.join(d, "flamingpy"), ignore_errors=True)
                            for f in os.listdir(d):
                                os.remove(os.path.join(d, f))
                            path = DEFAULT if where == "default" else "r.csv"
                            if where == "default" and state == "one":
                                os.makedirs(os.path.dirname(path))
                            before, olds = start(path, state, M[0])
                            touched = []
                            real_open, real_mk = builtins.open, os.makedirs

                            def spy(file, mode="r", *a, **kw):
                                if isinstance(file, (str, os.PathLike)) and (set(mode) & set("wax+")):
                                    touched.append(getattr(proxy.local, "comm", None) and proxy.local.comm.rank)
                                return real_open(file, mode, *a, **kw)

                            def spy_mk(*a, **kw):
                                touched.append(getattr(proxy.local, "comm", None) and proxy.local.comm.rank)
                                return real_mk(*a, **kw)

                            run = M[0]
                            c, nn, n, (dec, dd), _ = run

                            def body(comm):
                                proxy.local.comm = comm
                                sim.run_ec_simulation(trials, code_class(), dict(c), make_noise(nn, (True,)), dict(n), dec, dict(dd), **({} if where == "default" else {"fname": path}))

                            builtins.open = io.open = spy
                            os.makedirs = spy_mk
                            try:
                                mpi.World(size, [p, q]).run(body)
                            finally:
                                builtins.open = io.open = real_open
                                os.makedirs = real_mk
                            need(set(touched) <= {0}, lambda: f"processes {sorted(set(touched))} wrote files")
                            need(before is None or content(path).startswith(before), "what was in the file has been altered")
                            file_ok(path, full_header(run), olds, [(c, nn, n, (dec, dd), (True,) * trials)], size)
                        rep.seen((size, where, state, trials))


# ---------------------------------------------------------------- command line
def command_line(rep, which):
    spell = {"UF": ["unionfind", "UF", "uf", "union-find", "Union Find", "UnionFind"], "MWPM": ["MWPM", "mwpm", "minimum weight perfect matching", "Minimum Weight Perfect Matching"]}
    noises = [("IidNoise", {"error_probability": 0}), ("IidNoise", {"error_probability": 0.0}), ("CVLayer", {"delta": 1e-09, "p_swap": 0}), ("CVMacroLayer", {"delta": 1e-09, "p_swap": 0})]
    codes = [{"distance": 2, "ec": "primal", "boundaries": "open"}, {"distance": (2, 3, 2), "ec": "dual", "boundaries": "open"}, {"distance": [3, 3, 3], "ec": "primal", "boundaries": "toric"}]
    opts = [{"weight_opts": None}, {"weight_opts": {"method": "uniform", "integer": True, "multiplier": 2}}, {}]
    with scratch() as d:
        for decoder, names in spell.items():
            for name in names:
                for (nn, n), c, o in it.product(noises, codes, opts) if which == decoder else ():
                    with rep.case(["command line", name, nn, n, c, o]):
                        shutil.rmtree(os.path.join(d, "flamingpy"), ignore_errors=True)
                        argv = sys.argv
                        sys.argv = ["simulations", "-code", "SurfaceCode", "-code_args", repr(c), "-noise", nn, "-noise_args", repr(n), "-decoder", name,
                                    "-decoder_args", repr(o), "-trials", "3"]
                        try:
                            runpy.run_module("flamingpy.simulations", run_name="__main__", alter_sys=True)
                        finally:
                            sys.argv = argv
                        file_ok(DEFAULT, ["code", *c, "noise", *n, "decoder", *o] + TAIL, [], [(c, nn, n, (decoder, o), (False,) * 3)])
                    rep.seen((decoder, nn, str(c)))
        for name in ("matching", "", "u-f") if which == "UF" else ():
            with rep.case(["unknown decoder", name]):
                argv = sys.argv
                shutil.rmtree(os.path.join(d, "flamingpy"), ignore_errors=True)
                sys.argv = ["simulations", "-code", "SurfaceCode", "-code_args", repr(codes[0]), "-noise", "IidNoise", "-noise_args", repr(noises[0][1]), "-decoder", name, "-decoder_args", "{}", "-trials", "1"]
                try:
                    runpy.run_module("flamingpy.simulations", run_name="__main__", alter_sys=True)
                except ValueError:
                    need(not os.path.exists(DEFAULT), "refused, but a record was written")
                else:
                    need(False, "an unknown decoder was accepted")
                finally:
                    sys.argv = argv


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for f in FAMILIES:
        n = len(menu(f))
        J.append(("histories", dict(family=f, depth=(3 if n <= 3 else 2) + deep)))
        J.append(("faults", dict(family=f, depth=3 + deep)))
        J.append(("interrupted", dict(family=f)))
    for f, olds, runs in (("plain", 0, 150), ("nested", 3000, 20), ("text", 1000, 40), ("bare", 0, 60), ("bare", 200, 5), ("many", 999, 12)):
        J.append(("long_files", dict(family=f, olds=olds, runs=runs)))
    for size in (1, 2, 3, 4):
        for f in ("plain", "tuple", "nested"):
            J.append(("ranks", dict(size=size, family=f)))
    for w in ("UF", "MWPM"):
        J.append(("command_line", dict(which=w)))
    return J
