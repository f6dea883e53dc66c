"""C24: simulated default times. Every pattern of certain and impossible default over the steps of a horizon, for every step size and
horizon of a grid; and the probability of default against its product formula."""
import contextlib, io, itertools
import numpy as np
from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths

def sim(*a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return np.asarray(default_bernoulli_paths(*a, **k), float)

def patterns(ctx, item):
    dt, n, extra = item
    T = dt * (n + extra)                     # steps at dt, 2dt, ..., the last one before T
    for pat in itertools.product((0, 1), repeat=n):
        for paths in (1, 3):
            key = f"pattern|{dt}|{T}|{pat}|{paths}"
            ctx.state(key); ctx.step(n); ctx.trace()
            asked = []
            def hazard(t):
                asked.append(t)
                k = int(round(t / dt)) - 1
                return 2.0 / dt if 0 <= k < n and pat[k] else 0.0
            ok, r = ctx.call(key, sim, hazard, T, dt, paths)
            if not ok: continue
            first = next((k for k in range(n) if pat[k]), None)
            want = np.nan if first is None else dt * (first + 1)
            ctx.expect(r.shape == (paths,) and np.allclose(r, want, rtol=0, atol=1e-9, equal_nan=True), key, f"default times {r}, want {want}")
            ctx.expect(all(0 <= t < T + 1e-9 for t in asked), key + "|horizon", "the hazard rate was read outside the horizon")
            ctx.outcome((dt, first))

def unstated(ctx, n):
    """No step or number of paths given: a thousand paths in steps of a hundredth."""
    key = f"unstated|{n}"
    ctx.state(key); ctx.step(n); ctx.trace()
    ok, r = ctx.call(key, sim, lambda t: 500.0 if t > (n - 0.5) / 100 else 0.0, 0.2)
    want = n / 100 if n < 20 else np.nan
    if ok: ctx.expect(r.shape == (1000,) and np.allclose(r, want, rtol=0, atol=1e-9, equal_nan=True), key, f"default times {r}, want 1000 of {want}")

LEVELS = (0.02, 0.3, 0.55, 0.97)

@contextlib.contextmanager
def scripted(draws, used):
    """numpy's uniform draws come from the script while this is open; used counts them"""
    def take(size):
        shape = () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = int(np.prod(shape, dtype=int))
        u = [draws[(used[0] + i) % len(draws)] for i in range(n)]
        used[0] += n
        return float(u[0]) if size is None else np.array(u).reshape(shape)
    names = {"uniform": lambda low=0.0, high=1.0, size=None: low + (high - low) * take(size), "rand": lambda *s: take(s or None)}
    names |= {n: (lambda size=None: take(size)) for n in ("random", "random_sample", "ranf", "sample")}
    old = {n: getattr(np.random, n) for n in names}
    try:
        for n, f in names.items(): setattr(np.random, n, f)
        yield
    finally:
        for n, f in old.items(): setattr(np.random, n, f)

def draws(ctx, item):
    """every sequence of uniform draws at the given levels: default occurs at the first step whose draw falls below hazard x dt (or,
    for a library that reads its draws the other way round, above one minus that)"""
    dt, n, hz = item
    T = dt * (n + 0.5)
    p = [h * dt for h in hz]
    wrong = {1: [], -1: []}
    for us in itertools.product(LEVELS, repeat=n):
        used = [0]
        with scripted(us, used):
            ok, r = ctx.call(f"draws|{item}|{us}", sim, lambda t: hz[min(max(int(round(t / dt)) - 1, 0), n - 1)], T, dt, 1)
        ctx.state((item, us)); ctx.step(n); ctx.trace()
        if not ok: return
        if used[0] == 0 or used[0] > n:
            ctx.count("draws from another source (left to the probability check)"); return
        for side in wrong:
            k = next((k for k in range(n) if (us[k] if side == 1 else 1 - us[k]) < p[k]), None)
            want = np.nan if k is None else dt * (k + 1)
            if not np.allclose(r, want, rtol=0, atol=1e-9, equal_nan=True): wrong[side].append((us, float(r[0]), want))
        ctx.outcome(float(r[0]))
    for us, got, want in min(wrong.values(), key=len)[:3]:
        ctx.violation(f"draws|{item}|{us}", f"draws {us} against probabilities {p}: default at {got}, want {want}")

def probability(ctx, item):
    h0, h1, dt, T, seed = item
    hz = lambda t: h0 if t < T / 2 else h1
    n = 3000
    np.random.seed(seed)
    key = f"probability|{item}"
    ctx.state(key); ctx.step(n); ctx.trace()
    ok, r = ctx.call(key, sim, hz, T, dt, n)
    if not ok: return
    surv, t, marks = 1.0, dt, []
    while t < T - 1e-9:
        surv *= 1 - hz(t) * dt; marks.append((t, surv)); t += dt
    for t, s in marks[:: max(1, len(marks) // 12)] + marks[-1:]:
        alive = np.mean(~(r <= t + 1e-9))
        ctx.expect(abs(alive - s) < 7 * np.sqrt(max(s * (1 - s), 1e-3) / n), f"{key}|{t:.4f}", f"a fraction {alive} survives to {t}, want {s}")
    ctx.expect(len(np.unique(r[~np.isnan(r)])) > 1 or s > 0.99, key + "|alike", "all paths default at the same time")

def run(ctx):
    top = 9 if ctx.thorough else 7
    ctx.bound("steps", top); ctx.bound("patterns", "every pattern of certain/impossible default")
    ctx.pmap(patterns, [(dt, n, e) for dt in (0.25, 0.1, 1 / 52) for n in range(0, top + 1) for e in (0.5, 0.9)])
    ctx.pmap(unstated, [1, 2, 7, 18, 25])
    ctx.pmap(draws, [(dt, n, hz) for dt in (0.25, 0.1) for n in range(1, 6 if ctx.thorough else 5)
                     for hz in itertools.product(*[(0.1 / dt, 0.4 / dt, 0.75 / dt)] * n)])
    ctx.pmap(probability, [(a, b, dt, T, s) for a, b in ((0.02, 0.02), (0.5, 0.1), (0.05, 1.0)) for dt in (0.05, 1 / 12) for T in (1.0, 5.0) for s in range(2 if not ctx.thorough else 6)])
    ctx.assume("the probability itself is confirmed to within seven standard errors of 3000 simulated paths per configuration; the enumeration decides everything else")
    ctx.sample("steps of 0.1, certain default in steps 3 and 5 only: default at 0.3 on every path")
