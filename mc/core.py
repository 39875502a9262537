"""Runner shared by all checks.

A check module mc/cNN.py defines PROPERTY, BOUNDS (text), ASSUMPTIONS (list) and

    jobs(tier) -> list of (function name, kwargs)      # kwargs must be JSON-able

Each job function takes a Rep and its kwargs, and enumerates one slice of the
bounded space exhaustively, putting every case inside ``with rep.case(desc):``.
A case that raises -- Violation from an oracle, or anything at all from the code
under test -- is a violation.  Jobs are spread over all cores; the union of the
jobs is the bounded space.
"""
import contextlib, hashlib, importlib, io, json, multiprocessing as mp, os, resource, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLAMINGPY_REPO", "/repo")
CASE_LIMIT = 120.0          # seconds one case may take before it counts as a hang
MAX_PER_JOB = 3             # violations reported per job


class Violation(Exception):
    """The property does not hold on this case.  key identifies the finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class JobAbort(Exception):
    pass


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Rep:
    """What one job covered."""

    def __init__(self):
        self.states = 0           # distinct states / inputs enumerated
        self.transitions = 0      # operations of the code under test executed
        self.traces = 0           # executions on the real code compared with the oracle
        self.outcomes = {}        # distinct observed outcomes -> count
        self.samples = []
        self.violations = []
        self.desc = None

    def seen(self, outcome, n=1):
        outcome = str(outcome)
        if len(self.outcomes) < 2000 or outcome in self.outcomes:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def bad(self, msg, key=None, desc=None):
        self.violations.append(
            {"key": key or "", "what": str(msg)[:1500], "case": self.desc if desc is None else desc}
        )
        if len(self.violations) >= MAX_PER_JOB:
            raise JobAbort()

    @contextlib.contextmanager
    def case(self, desc, states=1, transitions=1, limit=CASE_LIMIT):
        self.desc = desc
        self.states += states
        self.transitions += transitions
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
            self.traces += 1
        except CaseTimeout:
            self.bad(f"did not finish within {limit:.0f} s")
        except JobAbort:
            raise
        except Violation as v:
            self.bad(str(v), v.key)
        except RecursionError as e:
            self.bad("raised RecursionError: " + str(e), None)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
            self.bad(f"raised {type(e).__name__}: {e} [{where}]", None)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def _run_job(arg):
    modname, i, fname, kwargs = arg
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter("ignore")
    mod = importlib.import_module(modname)
    rep = Rep()
    out = io.StringIO()
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(out):
            getattr(mod, fname)(rep, **kwargs)
    except JobAbort:
        pass
    except Violation as v:
        rep.violations.append({"key": v.key or "", "what": str(v)[:1500], "case": rep.desc})
    except CaseTimeout:
        rep.violations.append({"key": "", "what": "did not finish", "case": rep.desc})
    except Exception as e:
        # set-up of a job runs the code under test as well (it builds codes)
        rep.violations.append(
            {"key": "", "what": "job raised " + "".join(traceback.format_exception(e))[-1500:], "case": rep.desc}
        )
    d = rep.__dict__
    d["job"] = i
    d["wall"] = time.time() - t0
    d["peak"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    return d


def repo_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d["property"] == prop and d.get("status") == "known":
                        res.append(d)
    return res


def match_known(findings, v):
    """A listed finding matches on its exact key only."""
    for k in findings:
        if v["key"] and v["key"] == k["key"]:
            return k
    return None


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def _limit_memory(size):
    """A runaway allocation in the code under test fails that case (MemoryError)."""
    soft, hard = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (size if hard == resource.RLIM_INFINITY else min(size, hard), hard))


def main(modname, tier):
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    jobs = mod.jobs(tier)
    njobs = len(jobs)
    args = [(modname, i, f, k) for i, (f, k) in enumerate(jobs)]
    findings = known_findings(prop)
    tot = {"states": 0, "transitions": 0, "traces": 0}
    outcomes, samples, viols, knowns = {}, [], [], {}
    done = peak = 0
    workers = int(os.environ.get("MC_WORKERS", str(os.cpu_count() or 4)))
    ctx = mp.get_context("fork")
    stop_at = None
    timings = []
    pool = ctx.Pool(min(workers, max(1, njobs)), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None),
                    initializer=_limit_memory, initargs=((4 if tier == "quick" else 12) << 30,))
    job_limit, stall_limit = (820, 420) if tier == "quick" else (24 * 3600, 6 * 3600)
    last = t0
    complete = True
    try:
        it = pool.imap_unordered(_run_job, args, chunksize=1)
        while done < njobs:
            try:
                r = it.next(timeout=2.0)
            except mp.TimeoutError:
                if stop_at and time.time() > stop_at:
                    complete = False
                    break
                now = time.time()
                if now - last > stall_limit:  # single cases have their own limit; this is a dead or stuck worker
                    viols.append({"key": "", "what": f"a job did not finish within {stall_limit} s (crashed or hangs)", "case": None, "job": None})
                    complete = False
                    break
                if now - t0 > job_limit:
                    complete = False
                    break
                continue
            done += 1
            last = time.time()
            peak = max(peak, r["peak"])
            for k in tot:
                tot[k] += r[k]
            for o, n in r["outcomes"].items():
                outcomes[o] = outcomes.get(o, 0) + n
            timings.append((r["wall"], r["job"]))
            if len(samples) < 5 and r["samples"]:
                samples.append({"job": jobs[r["job"]], "case": r["samples"][0]})
            for v in r["violations"]:
                v["job"] = r["job"]
                k = match_known(findings, v)
                if k:
                    knowns.setdefault(k["key"], (k, v))
                else:
                    viols.append(v)
                    if stop_at is None:
                        stop_at = time.time() + 5
            now = time.time()
            if (stop_at and now > stop_at) or (done < njobs and now - t0 > job_limit):
                complete = False
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    if os.environ.get("MC_TIMINGS"):
        for w, j in sorted(timings, reverse=True)[:15]:
            print(f"  {w:7.1f}s {jobs[j]}")
        print(f"  peak memory of a worker: {peak >> 10} MB")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "distinct_outcomes": len(outcomes), "jobs": done, "jobs_planned": njobs, "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "samples": jsonable(samples), "exhaustive": bool(complete and not viols),
            "top_outcomes": jsonable([[str(o), n] for o, n in sorted(outcomes.items(), key=lambda t: -t[1])[:12]]),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} tier={tier} jobs={done}/{njobs} states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} distinct_outcomes={len(outcomes)} wall={wall:.1f}s")
    if not complete and not viols:
        print(f"{prop}: out of time after {done} of {njobs} jobs (slow machine); the rest was not explored")
    for key, (k, v) in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viols:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(viols[:8]):
            path = os.path.join(rdir, f"{prop}-{n}.json")
            job = None if v["job"] is None else jobs[v["job"]]
            with open(path, "w") as f:
                json.dump(jsonable({"property": prop, "tier": tier, "module": modname, "job": job, "violation": v}), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print("   " + str(v["what"])[:600])
            print("   case: " + str(v["case"])[:400])
        return 1
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(d["module"])
    if hasattr(mod, "prepare"):
        mod.prepare(d["tier"])
    fname, kwargs = d["job"]
    r = _run_job((d["module"], 0, fname, kwargs))
    for v in r["violations"]:
        print(json.dumps(jsonable(v), indent=1))
    return 1 if r["violations"] else 0
