"""Shared machinery: exploration context, parallel enumeration, evidence, replay files, known findings."""
import argparse, hashlib, importlib, json, os, resource, signal, sys, time, traceback, warnings
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

CALL_LIMIT_S = 150          # processor seconds one action of the code under test may use (non-termination guard);
                            # processor time, not wall time: other load on the machine does not count
ITEM_LIMIT_S = 400          # the same for one whole work item of a quick exploration (thorough: 20 times that)
MEMORY_LIMIT = 6 << 30      # address space per worker: runaway allocation ends in MemoryError, not in the machine's
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAIL_FAST = os.environ.get("VERIF_FAIL_FAST") == "1"   # developer runs (vlib/mutate.py): leave at the first violation
MAX_KEEP = 40               # violations kept per worker chunk


class Hang(BaseException):
    """Raised by the watchdog inside an action that does not come back."""


class Enough(BaseException):
    """Ends an exploration that has found violations and would take unreasonably long to finish."""


class _Guard:
    """Context manager: turns a non-terminating call into a Hang."""
    hung = False             # after one hang in this process the next ones are cut short

    def __init__(self, seconds=CALL_LIMIT_S, kind=(signal.ITIMER_PROF, signal.SIGPROF)):
        self.s, self.kind = seconds, kind

    def __enter__(self):
        s = 10 if _Guard.hung else self.s

        def fire(*_):
            _Guard.hung = True
            raise Hang(f"no result within {s} s of processor time")
        self.old = signal.signal(self.kind[1], fire)
        signal.setitimer(self.kind[0], s)

    def __exit__(self, *a):
        signal.setitimer(self.kind[0], 0)
        signal.signal(self.kind[1], self.old)
        return False


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.n_transitions = 0
        self.n_evals = 0
        self.n_traces = 0
        self._states = set()
        self._outcomes = set()
        self.samples = []
        self.violations = []          # dicts: key, msg, data
        self.n_violations = 0
        self.assumptions = []
        self.bounds = {}
        self.counters = {}
        self.known = {k for k, _ in known_findings(HERE, prop)}
        self.known_seen = set()
        self.t0 = time.time()
        self.cpu = self.slowest = 0.0      # processor seconds: in all work items, in the slowest one

    # -- bookkeeping ------------------------------------------------------
    def state(self, key):
        """Records a model/implementation state; returns True when it is new."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        self.n_transitions += n

    def outcome(self, key):
        if len(self._outcomes) < 500000:
            self._outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def trace(self, n=1):
        self.n_traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, text, limit=8):
        if len(self.samples) < limit:
            self.samples.append(text if isinstance(text, str) else repr(text))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def bound(self, name, value):
        self.bounds[name] = value

    # -- verdicts ---------------------------------------------------------
    def violation(self, key, msg, **data):
        """key identifies the specific failing input / call site / history."""
        if key in self.known:
            self.known_seen.add(key)
            return
        self.n_violations += 1
        if FAIL_FAST:
            print("FAIL-FAST", key, msg[:300], flush=True)
            os._exit(9)
        if len(self.violations) < MAX_KEEP or all(v["key"].split("|")[0] != key.split("|")[0] for v in self.violations):
            self.violations.append({"key": key, "msg": msg, "data": {k: repr(v) for k, v in data.items()}})

    def expect(self, ok, key, msg="", **data):
        if not ok:
            self.violation(key, msg, **data)
        return ok

    def call(self, key, fn, *a, **kw):
        """Calls the code under test; an unexpected exception or a hang is a violation. Returns (ok, value)."""
        try:
            with _Guard():
                return True, fn(*a, **kw)
        except Hang as e:
            self.violation(key, f"does not terminate: {e}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.violation(key, f"unexpected {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        return False, None

    # -- merging ----------------------------------------------------------
    def dump(self):
        d = dict(self.__dict__)
        return d

    def merge(self, d):
        self.cpu += d["cpu"]; self.slowest = max(self.slowest, d["cpu"])
        self.n_transitions += d["n_transitions"]; self.n_traces += d["n_traces"]; self.n_evals += d["n_evals"]
        self._states |= d["_states"]; self._outcomes |= d["_outcomes"]
        for s in d["samples"]:
            self.sample(s)
        self.n_violations += d["n_violations"]
        self.violations += d["violations"]
        self.known_seen |= d["known_seen"]
        for a in d["assumptions"]:
            self.assume(a)
        self.bounds.update(d["bounds"])
        for k, v in d["counters"].items():
            self.count(k, v)

    def pmap(self, fn, items):
        """fn(ctx, item) on every item, spread over the cores; results are merged in item order."""
        items = list(items)
        n = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(items)))
        if n <= 1:
            for it in items:
                _run_item(self, fn, it)
            return
        global _WORK
        _WORK = (fn, items, self.prop, self.tier, self.seed)
        with ProcessPoolExecutor(n, mp_context=mp.get_context("fork"), initializer=_limits) as pool:
            jobs = [pool.submit(_worker, i) for i in range(len(items))]
            try:
                for j in jobs:
                    self.merge(j.result())
                    if self.violations and time.time() - self.t0 > (200 if not self.thorough else 3600):
                        raise Enough()
            except BrokenProcessPool:
                self.violation("crash|worker", "the process running the code under test died")
                raise Enough()
            except Enough:
                for p in list(pool._processes.values()): p.kill()
                raise


_WORK = None


def _limits():
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))


def _run_item(ctx, fn, it):
    try:
        with _Guard(ITEM_LIMIT_S * (20 if ctx.thorough else 1), (signal.ITIMER_VIRTUAL, signal.SIGVTALRM)):
            fn(ctx, it)
    except Hang as e:
        ctx.violation(f"hang|{it!r}"[:300], f"exploration of {it!r} hung: {e}")
    except Exception as e:
        tb = traceback.format_exc()
        ctx.violation(f"exception|{type(e).__name__}|{str(it)[:120]}", f"{type(e).__name__}: {e}\n{tb}")


def _worker(i):
    fn, items, prop, tier, seed = _WORK
    warnings.simplefilter("ignore")
    c = Ctx(prop, tier, seed)
    t = time.process_time()
    _run_item(c, fn, items[i])
    c.cpu = time.process_time() - t
    return c.dump()


def known_findings(here, prop):
    """Lines 'known: property=<id> key=<key> -- <what fails>' of known_findings.txt."""
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" -- ")
                out.append((key.strip(), what.strip()))
    return out


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--keys", action="store_true", help="print every violation key")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    warnings.simplefilter("ignore")
    os.makedirs("/tmp/verif-mpl", exist_ok=True)
    t0 = time.time()
    ctx = Ctx(a.property, a.tier, seed)
    wanted = None
    if a.replay:
        wanted = json.load(open(a.replay))
        print("replaying", wanted["key"], ":", wanted["msg"])
    try:
        mod = importlib.import_module("checks." + a.property.lower())
        mod.run(ctx)
    except Enough:
        print("stopped early: the exploration had found violations")
    except Hang as e:
        ctx.violation("hang|run", str(e))
    except Exception as e:
        ctx.violation(f"exception|{type(e).__name__}", traceback.format_exc())
    wall = time.time() - t0
    known = known_findings(here, a.property)
    fresh = ctx.violations
    seen_known = ctx.known_seen
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(ctx._states), "transitions": ctx.n_transitions,
                       "traces_validated_against_impl": ctx.n_traces,
                       "distinct_outcomes": len(ctx._outcomes),
                       "evaluations": ctx.n_evals,
                       "exhaustive": True,
                       "bounds": ctx.bounds, "counters": ctx.counters,
                       "samples": ctx.samples or ["(none)"]},
          "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in known:
        if k in seen_known:
            print(f"KNOWN-FINDING: property={a.property} {what}")
    print(f"{a.property} {a.tier}: states={len(ctx._states)} transitions={ctx.n_transitions} evaluations={ctx.n_evals} "
          f"traces={ctx.n_traces} outcomes={len(ctx._outcomes)} wall={wall:.1f}s cpu={ctx.cpu:.0f}s slowest={ctx.slowest:.0f}s", flush=True)
    if a.keys:
        for v in fresh:
            print("  KEY", v["key"], "--", v["msg"][:300], v["data"])
    if a.replay:
        hit = [v for v in ctx.violations if v["key"] == wanted["key"]]
        print("reproduced" if hit else "not reproduced")
        for v in hit:
            print(json.dumps(v, indent=1))
    if fresh:
        d = os.path.join(here, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:3]):
            h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
            path = os.path.join(d, f"{a.property}-{h}.json")
            v = dict(v); v.update(property=a.property, tier=a.tier, seed=seed,
                                  rerun=f"/opt/venv/bin/python {here}/run.py {a.property} --tier {a.tier} --replay {path}")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['key']}: {v['msg'][:600]} {v['data']}")
            print(f"VIOLATION property={a.property} replay={path}", flush=True)
        print(f"  ({ctx.n_violations} violating observations in all)")
        return 1
    return 0
