"""C19: Brownian paths. Every start x horizon x increment x dimension x correlation x day count of a grid: time grid, scaling,
correlation and interpolation of the path; and every history of path generation, increments and queries on one process."""
from datetime import datetime, timedelta
import itertools
import numpy as np
from dateutil.relativedelta import relativedelta as RD
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from checks.c03 import add_months
from checks.c07 import axis

DTS = {"6h": (timedelta(hours=6), 6), "5h": (RD(hours=5), 5), "1d": (RD(days=1), 24), "7d": (timedelta(days=7), 168), "31h30": (timedelta(hours=31, minutes=30), 31.5),
       "1m": (RD(months=1), "m1"), "3m": (RD(months=3), "m3")}
STARTS = [datetime(2023, 12, 30, 6, 30), datetime(2024, 2, 28), datetime(2023, 10, 31, 18), datetime(2023, 1, 1)]
CORR = {1: [None, [[1.0]]], 2: [None, [[1.0, 0.5], [0.5, 1.0]], [[1.0, -0.9], [-0.9, 1.0]]],
        3: [None, [[1.0, 0.75, -0.25], [0.75, 1.0, 0.1], [-0.25, 0.1, 1.0]]]}
ADD = [c for c in C if c is not C.THIRTY_OVER_THREESIXTY]

def grid(s, e, step):
    out, k = [], 0
    while True:
        d = add_months(s, int(step[1:]) * k) if isinstance(step, str) else s + timedelta(hours=step) * k
        if d >= e:
            return out + [e]
        out.append(d); k += 1

def tau(c, a, b):
    if c is C.THIRTY_OVER_THREESIXTY:
        from checks.c04 import REF
        return float(REF[c](a.date(), b.date()))
    ref = a.date()
    return axis(c, ref, b) - axis(c, ref, a)

def interp(c, g, path, d):
    """Reference value of a path at a datetime: linear in accrual between the two neighbouring grid points."""
    j = max(i for i, x in enumerate(g) if x <= d)
    if g[j] == d: return path[:, j]
    w = tau(c, g[j], d) / tau(c, g[j], g[j + 1])
    return path[:, j] + w * (path[:, j + 1] - path[:, j])

def chol(R):
    """Lower-triangular square root by its recursion."""
    n = len(R); L = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            t = R[i][j] - sum(L[i, k] * L[j, k] for k in range(j))
            L[i, j] = t ** 0.5 if i == j else t / L[j, j]
    return L

def same(a, b, tol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))

def probes(g):
    ps = []
    for i in {0, 1, len(g) // 2, len(g) - 2} & set(range(len(g) - 1)):
        span = g[i + 1] - g[i]
        ps += [g[i], g[i + 1]] + [g[i] + span * f for f in (0.125, 0.5, 0.875)]
    return sorted(set(ps))

def refused(ctx, key, fn, *a):
    ctx.step()
    try:
        fn(*a)
    except ValueError:
        return
    except Exception as e:
        ctx.violation(key, f"raises {type(e).__name__} instead of a ValueError"); return
    ctx.violation(key, "accepted")

def explore(ctx, item):
    s, dtn, dcc = item
    dt, step = DTS[dtn]
    thirty = dcc is C.THIRTY_OVER_THREESIXTY
    unit = timedelta(days=30 if step == "m1" else 91) if isinstance(step, str) else timedelta(hours=step)
    lengths = [unit * k for k in (1, 2, 3, 7)] + [unit * 2 + timedelta(hours=1), unit * 5 - timedelta(minutes=7), unit / 2]
    if isinstance(step, str):
        lengths += [add_months(s, int(step[1:]) * k) - s for k in (1, 4)]
    for ln in lengths:
        e = s + ln
        if thirty: e = e.replace(hour=s.hour, minute=s.minute, second=0) + timedelta(days=1)
        g = grid(s, e, step)
        taus = np.array([tau(dcc, a, b) for a, b in zip(g, g[1:])])
        for dim, Rs in CORR.items():
            base = None
            for ri, R in enumerate(Rs):
                key = f"{s}|{e}|{dtn}|{dcc.name}|{dim}|{ri}"
                ctx.state(key); ctx.trace(); ctx.step(); ctx.n_evals += 1
                bm = BrownianMotion(start_date_time=s, end_date_time=e, dimension=dim, correlation_matrix=None if R is None else np.array(R), day_count_convention=dcc)
                refused(ctx, key + "|nopath", bm, s)
                ok, r = ctx.call(key, bm.generate_increments, dt=dt, seed=7)
                if not ok: continue
                incs, dts = np.asarray(r[0]), np.asarray(r[1])
                if not ctx.expect(incs.shape == (dim, len(g) - 1) and same(dts, taus, 1e-12), key + "|dt", f"{incs.shape} increments over {dts[:3]}..., want {(dim, len(g) - 1)} over {taus[:3]}..."): continue
                if base is None: base = incs
                elif R is not None:
                    ctx.expect(same(incs, chol(R) @ base), key + "|corr", "the correlated increments are not the lower-triangular root of the correlation applied to the independent ones")
                ok, p = ctx.call(key, bm.generate_path, dt=dt, set_path=(ri % 2 == 0 or len(Rs) == 1), seed=7)
                if not ok: continue
                want = np.concatenate([np.zeros((dim, 1)), np.cumsum(incs, axis=1)], axis=1)
                ctx.expect(same(p, want), key + "|path", "the path is not the running sum of the increments from zero")
                ctx.expect(list(bm.datetimes) == g, key + "|grid", f"grid {list(map(str, bm.datetimes))[-3:]}, want {list(map(str, g))[-3:]}")
                if bm.path is None:
                    refused(ctx, key + "|unset", bm, s)
                    ok, p = ctx.call(key, bm.generate_path, dt=dt, seed=7)
                    if not ok: continue
                for d in probes(g) if not thirty else g:
                    ctx.step()
                    ok, v = ctx.call(f"{key}|{d}", bm, d)
                    if ok: ctx.expect(same(v, interp(dcc, g, want, d), 1e-10), f"{key}|{d}", f"value {v} at {d}, want {interp(dcc, g, want, d)}")
                refused(ctx, key + "|early", bm, s - timedelta(seconds=1)); refused(ctx, key + "|late", bm, e + timedelta(seconds=1))
                ctx.outcome((len(g), dim, ri))

def long_grid(ctx, item):
    """Many thousands of steps, up to the last."""
    n, dcc = item
    s = datetime(2023, 12, 1, 7); key = f"long|{n}|{dcc.name}"
    e = s + timedelta(minutes=n) - timedelta(seconds=20)
    bm = BrownianMotion(s, e, 2, np.array(CORR[2][1]), dcc)
    ok, p = ctx.call(key, bm.generate_path, timedelta(minutes=1), seed=5)
    ctx.state(key); ctx.trace(); ctx.step(n)
    if not ok: return
    p, dts, g = np.asarray(p), np.asarray(bm.dt_increments), list(bm.datetimes)
    if not ctx.expect(p.shape == (2, n + 1) and len(g) == n + 1 and len(dts) == n, key + "|grid", f"{p.shape[1] - 1} steps, want {n}"): return
    ctx.expect(all(g[k] == s + timedelta(minutes=k) for k in range(n)) and g[-1] == e, key + "|dates", f"grid ends {g[-3:]}")
    for k in (0, 1, 999, 1000, 1001, n // 2, n - 2, n - 1):
        ctx.expect(abs(dts[k] - tau(dcc, g[k], g[k + 1])) < 1e-12, f"{key}|dt|{k}", f"step {k} accrues {dts[k]}")
        ok, v = ctx.call(f"{key}|at|{k}", bm, g[k] + timedelta(seconds=15))
        if ok: ctx.expect(same(v, interp(dcc, g[k:k + 2], p[:, k:k + 2], g[k] + timedelta(seconds=15)), 1e-10), f"{key}|at|{k}", f"{v}")

def scaling(ctx, item):
    """Same number of steps, different increments and starts, same seed: shocks differ by the square root of the elapsed time only."""
    dim, ri, n = item
    R = CORR[dim][ri]
    ref = None
    for (dtn, (dt, step)), s, dcc in itertools.product(DTS.items(), STARTS, ADD):
        if isinstance(step, str): e = add_months(s, int(step[1:]) * n)
        else: e = s + timedelta(hours=step) * n
        g = grid(s, e, step)
        key = f"scaling|{dim}|{ri}|{n}|{dtn}|{s}|{dcc.name}"
        bm = BrownianMotion(s, e, dim, None if R is None else np.array(R), dcc)
        ctx.state(key); ctx.step(); ctx.trace()
        ok, r = ctx.call(key, bm.generate_increments, dt, 11)
        if not ok or len(g) != n + 1 or np.asarray(r[0]).shape != (dim, n): continue
        z = np.asarray(r[0]) / np.sqrt([tau(dcc, a, b) for a, b in zip(g, g[1:])])
        if ref is None: ref = z
        ctx.expect(same(z, ref, 1e-9), key, "increments are not standard shocks times the square root of the elapsed time")

def moments(ctx, item):
    """The size of the shocks: with 8000 steps the normalized increments have unit variance, no mean, the declared correlation and
    no serial correlation, within seven standard errors, for every seed of a range."""
    dim, ri, seed = item
    R = CORR[dim][ri]
    s = datetime(2023, 1, 1); n = 8000
    bm = BrownianMotion(s, s + timedelta(hours=n), dim, None if R is None else np.array(R), C.ACTUAL_OVER_365)
    key = f"moments|{dim}|{ri}|{seed}"
    ctx.state(key); ctx.trace()
    ok, r = ctx.call(key, bm.generate_increments, timedelta(hours=1), seed)
    ok2, r2 = ctx.call(key, bm.generate_increments, timedelta(hours=1), seed)
    ok3, r3 = ctx.call(key, bm.generate_increments, timedelta(hours=1), seed + 1000)
    ok4, r4 = ctx.call(key, bm.generate_increments, timedelta(hours=1), None)
    ok5, r5 = ctx.call(key, bm.generate_increments, timedelta(hours=1))
    if not (ok and ok2 and ok3 and ok4 and ok5): return
    ctx.step(5)
    ctx.expect(np.array_equal(r[0], r2[0]), key + "|seed", "the same seed gave different increments")
    for a, b in itertools.combinations((r, r3, r4, r5), 2):
        ctx.expect(not np.array_equal(a[0], b[0]), key + "|fresh", "different seeds (or none) gave the same increments")
    z = np.asarray(r[0]) * np.sqrt(365 * 24)
    err = 7 / np.sqrt(n)
    W = np.eye(dim) if R is None else np.array(R)
    ctx.expect(np.all(np.abs(z.mean(axis=1)) < err), key + "|mean", f"{z.mean(axis=1)}")
    ctx.expect(np.all(np.abs(z @ z.T / n - W) < 1.5 * err), key + "|covariance", f"{z @ z.T / n}, want {W}")
    ctx.expect(np.all(np.abs(z[:, 1:] @ z[:, :-1].T / n) < err), key + "|serial", "increments are serially correlated")
    ctx.expect(np.all(np.abs((z ** 4).mean(axis=1) - 3) < 7 * np.sqrt(96 / n)), key + "|normal", f"fourth moments {(z ** 4).mean(axis=1)}")

def twins(ctx, dim):
    """Processes that differ in one term, simulated in turns from the same seeds and steps: each has its own grid, scaling and correlation."""
    s, e = datetime(2023, 12, 30, 6, 30), datetime(2024, 1, 3, 2)
    base = dict(s=s, e=e, dim=dim, R=1, dcc=C.ACTUAL_OVER_ACTUAL)
    other = dict(s=(s - timedelta(hours=6), s + timedelta(hours=1), s - timedelta(days=365)), e=(e + timedelta(hours=1), e - timedelta(days=1), e - timedelta(seconds=1)), dim=[d for d in CORR if d != dim],
                 R=[i for i in range(len(CORR[dim])) if i != 1], dcc=[c for c in ADD if c is not C.ACTUAL_OVER_ACTUAL])
    vs = [base] + [{**base, k: v} for k, xs in other.items() for v in xs]
    R = lambda v: CORR[v["dim"]][v["R"]]
    mk = lambda v, R: BrownianMotion(v["s"], v["e"], v["dim"], None if R is None else np.array(R), v["dcc"])
    objs = [mk(v, R(v)) for v in vs]
    shock = {}
    def z(d, n, seed):         # the standard shocks of a seed, from an independent process of its own
        if (d, n, seed) not in shock:
            r = BrownianMotion(datetime(2021, 5, 1), datetime(2021, 5, 1) + timedelta(hours=n), d, None, C.ACTUAL_OVER_365).generate_increments(timedelta(hours=1), seed)
            shock[d, n, seed] = np.asarray(r[0]) / np.sqrt(np.asarray(r[1]))
        return shock[d, n, seed]
    for j in range(1, len(vs)):
        for dtn, seed in (("6h", 3), ("31h30", 3), ("6h", 4)):
            key = f"twins|{dim}|{[k for k in base if vs[j][k] != base[k]]}|{j}|{dtn}|{seed}"
            ctx.state(key); ctx.trace()
            paths = {}
            for x in (0, j, 0, j):
                v = vs[x]; g = grid(v["s"], v["e"], DTS[dtn][1])
                taus = np.array([tau(v["dcc"], a, b) for a, b in zip(g, g[1:])])
                ctx.step(2)
                want = z(v["dim"], len(taus), seed) * np.sqrt(taus)
                if R(v) is not None: want = chol(R(v)) @ want
                ok, r = ctx.call(key, objs[x].generate_increments, DTS[dtn][0], seed)
                if ok: ctx.expect(same(r[1], taus, 1e-12) and same(r[0], want, 1e-9), f"{key}|inc", f"process {x}: its increments are not those of its own terms")
                paths[x] = np.concatenate([np.zeros((v["dim"], 1)), np.cumsum(want, axis=1)], axis=1)
                ok, p = ctx.call(key, objs[x].generate_path, dt=DTS[dtn][0], set_path=True, seed=seed)
                if ok: ctx.expect(same(p, paths[x], 1e-9) and list(objs[x].datetimes) == g, f"{key}|path", f"process {x}: its path is not that of its own terms")
                for y, p in paths.items():
                    gy = grid(vs[y]["s"], vs[y]["e"], DTS[dtn][1])
                    for d in (gy[0], gy[1] + (gy[2] - gy[1]) / 4, gy[-1]):
                        ok, val = ctx.call(key, objs[y], d)
                        if ok: ctx.expect(same(val, interp(vs[y]["dcc"], gy, p, d), 1e-9), f"{key}|at", f"process {y} is {val} at {d}")

OPS = [("path", "6h", 1, True), ("path", "5h", 1, True), ("path", "5h", 2, False), ("path", "6h", 0, True), ("path", "7d", 1, False), ("inc", "6h", 3), ("inc", "1d", 1), ("ask",)]

def history(ctx, item):
    dim, first, depth = item
    s, e = datetime(2023, 12, 30, 6, 30), datetime(2024, 1, 1, 2)
    R = CORR[dim][1]
    mk = lambda: BrownianMotion(s, e, dim, np.array(R))
    fresh = {}
    for op in OPS:
        if op[0] == "path": fresh[op[1:3]] = np.array(mk().generate_path(DTS[op[1]][0], seed=op[2]))
        if op[0] == "inc": fresh[op] = np.array(mk().generate_increments(DTS[op[1]][0], seed=op[2])[0])
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        key = f"history|{dim}|{seq}"
        bm = mk(); cur = None; given = []
        ctx.trace()
        for op in seq:
            ctx.step()
            if op[0] == "path":
                ok, p = ctx.call(key, bm.generate_path, dt=DTS[op[1]][0], set_path=op[3], seed=op[2])
                if ok:
                    ctx.expect(same(p, fresh[op[1:3]]), key, f"{op} gives another path than a fresh process")
                    given.append((p, np.array(p)))
                if op[3]: cur = op[1:3]
            elif op[0] == "inc":
                ok, p = ctx.call(key, bm.generate_increments, DTS[op[1]][0], op[2])
                if ok: ctx.expect(same(p[0], fresh[op]), key, f"{op} gives other increments than a fresh process")
            if cur is None:
                ctx.expect(bm.path is None, key, "a path is stored that was not to be")
                if op[0] == "ask": refused(ctx, key, bm, s)
            else:
                ctx.expect(bm.path is not None and same(bm.path, fresh[cur]), key, f"the stored path is not the last one set {cur}")
                g = grid(s, e, DTS[cur[0]][1])
                for d in (s, g[-1], g[1], g[1] + (g[2] - g[1]) / 4, g[-2] + (g[-1] - g[-2]) * 0.75):
                    ok, v = ctx.call(key, bm, d)
                    if ok: ctx.expect(same(v, interp(C.ACTUAL_OVER_ACTUAL, g, fresh[cur], d), 1e-10), key, f"after {op}: value {v} at {d}")
            ctx.state((dim, cur, op))
        ctx.expect(all(np.array_equal(a, b) for a, b in given), key + "|alias", "a path handed out earlier changed")

def run(ctx):
    dcs = list(C) if ctx.thorough else [C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360, C.THIRTY_OVER_THREESIXTY]
    items = [(s, d, c) for s in STARTS for d in DTS for c in dcs if c is not C.THIRTY_OVER_THREESIXTY or (d in ("1d", "7d", "1m", "3m") and s.hour == 0)]
    ctx.bound("increments", list(DTS)); ctx.bound("dimensions", list(CORR)); ctx.bound("history_depth", 5 if ctx.thorough else 4)
    ctx.pmap(explore, items)
    ctx.pmap(long_grid, [(n, c) for n in (1002, 5000) + ((120_000, 400_000) if ctx.thorough else (120_000,)) for c in (dcs if n < 9999 else dcs[:1]) if c is not C.THIRTY_OVER_THREESIXTY])
    ctx.pmap(scaling, [(d, r, n) for d in CORR for r in range(len(CORR[d])) for n in (1, 2, 5, 12)])
    ctx.pmap(moments, [(d, r, k) for d in CORR for r in range(len(CORR[d])) for k in range(20 if ctx.thorough else 4)])
    ctx.pmap(history, [(d, f, 5 if ctx.thorough else 4) for d in (1, 2) for f in OPS])
    ctx.bound("twins", "processes that differ in one term, simulated in turns from the same seeds"); ctx.pmap(twins, [1, 2, 3])
    ctx.assume("the pseudo-random generator is trusted beyond its first moments; properties are stated relative to the shocks of a seed")
    ctx.sample("2-d correlated path from 2023-12-30 06:30 in steps of 5 hours, stored; then an unstored path in steps of 7 days; then queries")
