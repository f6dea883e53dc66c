"""C20: simulated diffusions. Every sequence of shocks in {-1,0,1} (up to a length and dimension) is fed through every process of a
pool and compared with the Euler recursion; and every history of simulations, step changes and queries on processes that share one
Brownian motion."""
from datetime import datetime, timedelta
import itertools
import numpy as np
from dateutil.relativedelta import relativedelta as RD
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from checks.c19 import grid, tau, interp, same, refused, DTS, CORR

class Shocks(BrownianMotion):
    """A Brownian motion whose standard shocks are given; everything else is the library's."""
    z = None
    def generate_increments(self, dt, seed=None):
        r = super().generate_increments(dt, seed)
        if self.z is None: return r
        z = np.asarray(self.z, float)
        return z[:, :r[0].shape[1]] * np.sqrt(r[1]), r[1]

v = np.atleast_1d
# name -> (number of Brownian motions, {coordinate: (drift, diffusion)}) as plain functions of (t, list of states)
MODELS = {
    "ou": (1, {"x": (lambda t, x: 0.8 * (0.5 - x[0]), lambda t, x: [0.3])}),
    "timed": (1, {"x": (lambda t, x: 2 * t - x[0] ** 2, lambda t, x: [0.1 + t + 0.2 * x[0]])}),
    "cir": (1, {"x": (lambda t, x: 1.5 * (0.04 - x[0]), lambda t, x: [0.2 * abs(x[0]) ** 0.5])}),
    "coupled": (2, {"zeta": (lambda t, x: x[1] - 0.5 * x[0], lambda t, x: [0.2, -0.1 * x[1]]), "alpha": (lambda t, x: 0.1 * t - x[0] * x[1], lambda t, x: [0.05 * t, 0.4])}),
    "wide": (2, {"x": (lambda t, x: -x[0], lambda t, x: [0.3, 0.7])}),
    "tall": (1, {"b": (lambda t, x: x[1] - x[0], lambda t, x: [0.3]), "a": (lambda t, x: x[2], lambda t, x: [x[0]]), "c": (lambda t, x: 1 - x[0], lambda t, x: [0.0])}),
}

def pairs(name):
    q, fs = MODELS[name]
    return {n: DriftDiffusionPair(drift=(lambda t, x, f=f: f(float(t), list(v(x)))), diffusion=(lambda t, x, g=g: np.array(g(float(t), list(v(x))), float))) for n, (f, g) in fs.items()}

def euler(name, x0, incs, taus):
    q, fs = MODELS[name]
    x, t, out = [float(a) for a in v(x0)], 0.0, []
    for k in range(len(taus)):
        out.append(x)
        x = [x[i] + f(t, x) * taus[k] + sum(a * b for a, b in zip(g(t, x), [row[k] for row in incs])) for i, (f, g) in enumerate(fs.values())]
        t += taus[k]
    return np.array(out + [x]).T

def shocks(ctx, item):
    name, dtn, n, dcc = item
    q, fs = MODELS[name]
    dt, step = DTS[dtn]
    s = datetime(2023, 12, 30, 6, 30)
    e = s + (timedelta(days=30) * n if isinstance(step, str) else timedelta(hours=step) * n - timedelta(hours=1))
    g = grid(s, e, step); n = len(g) - 1
    taus = [tau(dcc, a, b) for a, b in zip(g, g[1:])]
    p = len(fs)
    starts = [np.linspace(0.5, -0.25, p)] if p > 1 else [0.5, np.array([0.02]), 2]
    bm = Shocks(s, e, q, None, dcc)
    proc = DiffusionProcess(pairs(name), bm, dt)
    key0 = f"{name}|{dtn}|{n}|{dcc.name}"
    ctx.expect((proc.dimension, proc.dt, proc.start_date_time, proc.end_date_time, proc.day_count_convention) == (p, dt, s, e, dcc), key0 + "|facts")
    ctx.expect(proc.show_drift_diffusion_collection_keys().split("\n") == list(fs), key0 + "|names")
    for j, z in enumerate(itertools.product((0.0, 1.0, -1.0), repeat=q * n)):
        bm.z = np.array(z).reshape(q, n)
        incs = bm.z * np.sqrt(taus)
        x0 = starts[j % len(starts)]
        key = f"{key0}|{z}"
        ctx.state(key); ctx.step(n); ctx.trace()
        given = np.array(x0)
        ok, path = ctx.call(key, proc.generate_path, x0, set_path=j % 3 > 0)
        if not ok: continue
        want = euler(name, given, incs, taus)
        ctx.expect(same(path, want), key, f"path {np.asarray(path).tolist()}, the recursion gives {want.tolist()}")
        ctx.expect(np.array_equal(np.array(x0), given), key + "|start", "the starting value was changed")
        if j % 3 > 0:
            i = j % n
            for d in (g[0], g[i + 1], g[-1], g[i] + (g[i + 1] - g[i]) / 4, g[i] + (g[i + 1] - g[i]) * 0.75):
                ok, val = ctx.call(f"{key}|{d}", proc, d)
                if ok: ctx.expect(same(val, interp(dcc, g, want, d), 1e-10), f"{key}|{d}", f"value {val} at {d}, want {interp(dcc, g, want, d)}")
        ctx.outcome(np.round(want[:, -1], 6).tolist())
    fresh = DiffusionProcess(pairs(name), bm, dt)
    refused(ctx, key0 + "|nopath", fresh, s)
    refused(ctx, key0 + "|late", proc, e + timedelta(seconds=1)); refused(ctx, key0 + "|early", proc, s - timedelta(seconds=1))

def long(ctx, item):
    """Fine steps over long horizons, across a year end and a leap day, with the library's own noise."""
    name, n, dcc = item
    q, fs = MODELS[name]
    s = datetime(2023, 11, 29, 5); e = s + timedelta(hours=5) * n
    bm = BrownianMotion(s, e, q, None, dcc)
    proc = DiffusionProcess(pairs(name), bm, timedelta(hours=5))
    g = grid(s, e, 5)
    x0 = np.linspace(0.5, -0.25, len(fs)) if len(fs) > 1 else np.array([0.2])
    for seed in (0, 1):
        key = f"long|{item}|{seed}"
        ctx.state(key); ctx.step(n); ctx.trace()
        incs, taus = BrownianMotion(s, e, q, None, dcc).generate_increments(timedelta(hours=5), seed)
        ctx.expect(same(taus, [tau(dcc, a, b) for a, b in zip(g, g[1:])], 1e-12), key + "|dt")
        want = euler(name, x0, incs, taus)
        ok, path = ctx.call(key, proc.generate_path, x0, True, seed)
        if not ok: continue
        ctx.expect(same(path, want, 1e-8), key, "a long path departs from the recursion")
        for i in range(0, n, max(1, n // 40)):
            d = g[i] + (g[i + 1] - g[i]) * 0.6
            ok, val = ctx.call(f"{key}|{d}", proc, d)
            if ok: ctx.expect(same(val, interp(dcc, g, want, d), 1e-8), f"{key}|{d}", f"value {val} at {d}, want {interp(dcc, g, want, d)}")

def gbm(ctx, item):
    mu, sig, dim, dtn, n = item
    dt, step = DTS[dtn]
    s = datetime(2023, 12, 30, 6, 30); e = s + timedelta(hours=step) * n
    for ri, R in enumerate(CORR[dim]):
        R = None if R is None else np.array(R)
        proc = GeometricBrownianMotion(mu, sig, s, e, dim, R, dt)
        ref = BrownianMotion(s, e, dim, R)
        ctx.expect((proc.dimension, proc.dt, proc.start_date_time, proc.end_date_time) == (dim, dt, s, e) and proc.path is None, f"gbm|{item}|facts")
        last = None
        for j, (x0, seed) in enumerate(itertools.product([np.array([1.0, 0.5, 20.0][:dim]), [3, 2, 1][:dim]] + ([1, 2.5] if dim == 1 else []), range(12))):
            key = f"gbm|{item}|{ri}|{x0}|{seed}"
            ctx.state(key); ctx.step(n); ctx.trace()
            given = np.array(x0)
            incs, taus = ref.generate_increments(dt=dt, seed=seed)
            x, want = v(np.array(x0, float)), []
            for k in range(n):
                want.append(x); x = x * (1 + mu * taus[k] + sig * incs[:, k])
            want = np.array(want + [x]).T
            ok, path = ctx.call(key, proc.generate_path, x0, j % 2 == 0, seed)
            if not ok: continue
            ctx.expect(same(path, want, 1e-10), key, f"path ends at {np.asarray(path)[:, -1]}, the recursion at {want[:, -1]}")
            if j % 2 == 0: last = want
            ctx.expect(same(proc.path, last, 1e-10), key + "|stored", "the stored path is not the last one set")
            ctx.expect(np.array_equal(np.array(x0), given), key + "|start", "the starting value was changed")
            ctx.outcome(np.round(want[:, -1], 6).tolist())

def twins(ctx, kind):
    """Processes that differ in one term, simulated in turns from the same seeds: each follows its own recursion."""
    s, e = datetime(2023, 12, 30, 6, 30), datetime(2024, 1, 5, 2)
    if kind == "gbm": base, other = dict(s=s, e=e, mu=0.05, sig=0.4, R=1, dt="6h"), dict(s=(s - timedelta(hours=6),), e=(e + timedelta(hours=6), e - timedelta(hours=1)), mu=(0.9, -0.05), sig=(0.2, 1.5), R=(0, 2), dt=("7d", "31h30"))
    else: base, other = dict(s=s, e=e, name=kind, R=1, dt="6h", dcc=C.ACTUAL_OVER_ACTUAL), dict(s=(s - timedelta(hours=6),), e=(e + timedelta(hours=6), e - timedelta(hours=1)), name=[n for n in MODELS if MODELS[n][0] == MODELS[kind][0] and n != kind],
                                                                                               R=(0, 2) if MODELS[kind][0] == 2 else (0,), dt=("7d", "31h30"), dcc=(C.ACTUAL_OVER_360,))
    vs = [base] + [{**base, k: v} for k, xs in other.items() for v in xs]
    q = 2 if kind == "gbm" else MODELS[kind][0]
    R = lambda v: None if CORR[q][v["R"]] is None else np.array(CORR[q][v["R"]])
    bm = lambda v: BrownianMotion(v["s"], v["e"], q, R(v), v.get("dcc", C.ACTUAL_OVER_ACTUAL))
    objs = [GeometricBrownianMotion(v["mu"], v["sig"], v["s"], v["e"], q, R(v), DTS[v["dt"]][0]) if kind == "gbm" else DiffusionProcess(pairs(v["name"]), bm(v), DTS[v["dt"]][0]) for v in vs]
    def want(v, x0, seed):
        incs, taus = bm(v).generate_increments(DTS[v["dt"]][0], seed)
        if kind != "gbm": return euler(v["name"], x0, incs, taus)
        x, out = np.array(x0, float), []
        for k in range(len(taus)):
            out.append(x); x = x * (1 + v["mu"] * taus[k] + v["sig"] * incs[:, k])
        return np.array(out + [x]).T
    for j in range(1, len(vs)):
        for seed in (3, 4):
            key = f"twins|{kind}|{[k for k in base if vs[j][k] != base[k]]}|{j}|{seed}"
            ctx.state(key); ctx.trace()
            paths = {}
            for x, first in ((0, 0.4), (j, 0.4), (0, 0.4), (j, 0.7), (0, 0.7)):
                v = vs[x]; p = 2 if kind == "gbm" else len(MODELS[v["name"]][1])
                x0 = np.linspace(first, -0.2 if p > 1 else first, p)
                ctx.step()
                ok, got = ctx.call(key, objs[x].generate_path, np.array(x0), True, seed)
                paths[x] = want(v, x0, seed)
                if ok: ctx.expect(same(got, paths[x], 1e-9), f"{key}|path", f"process {x} from {x0}: another path than its own recursion gives")
                for y, p in paths.items():
                    g = grid(vs[y]["s"], vs[y]["e"], DTS[vs[y]["dt"]][1])
                    ctx.expect(same(objs[y].path, p, 1e-9), f"{key}|stored", f"process {y} holds another path")
                    for d in (g[0], g[-2] + (g[-1] - g[-2]) / 4, g[-1]) if kind != "gbm" else ():
                        ok, val = ctx.call(key, objs[y], d)
                        if ok: ctx.expect(same(val, interp(vs[y]["dcc"], g, p, d), 1e-9), f"{key}|at", f"process {y} is {val} at {d}")

OPS = [("A", "gen", 1, True), ("A", "gen", 2, False), ("B", "gen", 1, True), ("B", "gen", 3, False), ("W", "gen", 4, True), ("W", "gen", 1, False),
       ("A", "dt", "5h"), ("B", "dt", "1d"), ("A", "dt", "6h")]

def history(ctx, item):
    """Processes A and B and the Brownian motion W itself live on one source of noise."""
    first, depth = item
    s, e = datetime(2023, 12, 30, 6, 30), datetime(2024, 1, 1, 2)
    R = np.array(CORR[2][1]); X0 = {"A": [0.5, -0.25], "B": [0.1]}
    NAME = {"A": "coupled", "B": "wide"}
    memo = {}
    def want(who, dtn, seed):
        if (who, dtn, seed) not in memo:
            incs, taus = BrownianMotion(s, e, 2, R).generate_increments(DTS[dtn][0], seed)
            memo[who, dtn, seed] = euler(NAME[who], X0[who], incs, taus) if who != "W" else np.concatenate([np.zeros((2, 1)), np.cumsum(incs, axis=1)], axis=1)
        return memo[who, dtn, seed]
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        key = f"history|{seq}"
        bm = BrownianMotion(s, e, 2, R)
        obj = {"A": DiffusionProcess(pairs("coupled"), bm, DTS["6h"][0]), "B": DiffusionProcess(pairs("wide"), bm, DTS["7d"][0]), "W": bm}
        dts, cur, given = {"A": "6h", "B": "7d", "W": "31h30"}, {}, []
        ctx.trace()
        for who, op, *arg in seq:
            ctx.step()
            if op == "gen":
                seed, keep = arg
                ok, p = (ctx.call(key, bm.generate_path, DTS["31h30"][0], keep, seed) if who == "W"
                         else ctx.call(key, obj[who].generate_path, np.array(X0[who]), keep, seed))
                if ok:
                    ctx.expect(same(p, want(who, dts[who], seed), 1e-10), key, f"{who} simulates another path than on its own")
                    given.append((p, np.array(p)))
                if keep: cur[who] = (dts[who], seed)
            else:
                ctx.call(key, obj[who].set_dt, DTS[arg[0]][0]); dts[who] = arg[0]; cur.pop(who, None)
                ctx.expect(obj[who].dt == DTS[arg[0]][0], key, "the step was not changed")
            for w, o in obj.items():
                if w not in cur:
                    ctx.expect(o.path is None, key, f"{w} holds a path it should not")
                    refused(ctx, key + "|" + w, o, s); continue
                g = grid(s, e, DTS[cur[w][0]][1]); p = want(w, *cur[w])
                ctx.expect(same(o.path, p, 1e-10), key, f"the path stored by {w} is not its last one")
                for d in (s, g[-1], g[1], g[0] + (g[1] - g[0]) / 4, g[-2] + (g[-1] - g[-2]) * 0.75):
                    ok, val = ctx.call(key, o, d)
                    if ok: ctx.expect(same(val, interp(C.ACTUAL_OVER_ACTUAL, g, p, d), 1e-10), key, f"after {seq}: {w} is {val} at {d}, want {interp(C.ACTUAL_OVER_ACTUAL, g, p, d)}")
            ctx.state((tuple(sorted(cur.items())), tuple(dts.items()), who, op))
        ctx.expect(all(np.array_equal(a, b) for a, b in given), key + "|alias", "a path handed out earlier changed")

def run(ctx):
    top = 8 if ctx.thorough else 6
    items = []
    for nm, (q, fs) in MODELS.items():
        for dtn, dcc in itertools.product(("6h", "31h30", "7d", "1m"), (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_365)):
            for n in range(1, top // q + 1):
                items.append((nm, dtn, n, dcc))
    ctx.bound("shock_sequences", f"every sequence in {{-1,0,1}} of up to {top} shocks"); ctx.bound("processes", list(MODELS)); ctx.bound("history_depth", 4 if ctx.thorough else 3)
    ctx.pmap(shocks, items[::-1])
    ctx.pmap(long, [(m, n, c) for m in MODELS for n in (700, 4000 if ctx.thorough else 1500) for c in (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360)])
    ctx.pmap(gbm, [(m, s, d, t, n) for m in (0.05, -0.3, 0.0) for s in (0.2, 1.5) for d in CORR for t in ("6h", "7d", "31h30") for n in (1, 2, 9)])
    ctx.pmap(history, [(f, 4 if ctx.thorough else 3) for f in OPS])
    ctx.bound("twins", "processes that differ in one term, simulated in turns from the same seeds"); ctx.pmap(twins, ["gbm", *MODELS])
    ctx.sample("coupled 2-d process, steps of 31.5 hours, shocks (+1,-1),(0,+1),(-1,-1)")
