"""C21: simulated short rates. Every sequence of shocks in {-1,0,1} through processes x transformations: short rate, its integral,
accrual and discount curves; and every history of simulations, step changes, integrals and curves on one model."""
from datetime import datetime, timedelta
import itertools, math
import numpy as np
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.base_processes import DiffusionProcess
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from checks.c19 import grid, tau, interp, same, refused, DTS
from checks.c20 import Shocks, pairs, euler, MODELS

S0 = datetime(2023, 12, 30, 6, 30)
RATE = {"ou": {"x": lambda x: float(x[0]), "2x-0.3": lambda x: 2 * x[0] - 0.3, "sq": lambda x: x[0] ** 2},
        "coupled": {"sum": lambda x: x[0] + x[1], "first": lambda x: x[0] - 0.2}, "timed": {"neg": lambda x: -x[0]}}

def integral(rates, g, dcc):
    out = [0.0]
    for k in range(len(g) - 1):
        out.append(out[-1] + 0.5 * (rates[k] + rates[k + 1]) * tau(dcc, g[k], g[k + 1]))
    return np.array(out)

def probes(g):
    return sorted({g[0], g[-1], g[len(g) // 2], g[0] + (g[1] - g[0]) / 4, g[-2] + (g[-1] - g[-2]) * 0.75})

def check_curve(ctx, key, crv, g, vals, dcc):
    for d in probes(g):
        ctx.step()
        ok, val = ctx.call(f"{key}|{d}", crv, d)
        if ok: ctx.expect(abs(val - interp(dcc, g, np.array([vals]), d)[0]) < 1e-10, f"{key}|{d}", f"{val} at {d}, want {interp(dcc, g, np.array([vals]), d)[0]}")

def customs(g):
    mid = [a + (b - a) / 3 for a, b in zip(g, g[1:])]
    return {"sparse": g[::2] if len(g) > 2 else g, "mid": sorted(g + mid), "tail": g[:1] + g[2:] if len(g) > 2 else g, "two": [g[0], g[-1]], "off": [g[0]] + mid + [g[-1]]}

def shocks(ctx, item):
    name, tr, dtn, n, dcc = item
    q, fs = MODELS[name]; f = RATE[name][tr]
    dt, step = DTS[dtn]
    e = S0 + (timedelta(days=30) * n if isinstance(step, str) else timedelta(hours=step) * n - timedelta(hours=1))
    g = grid(S0, e, step); n = len(g) - 1
    taus = [tau(dcc, a, b) for a, b in zip(g, g[1:])]
    bm = Shocks(S0, e, q, None, dcc)
    m = ShortRateModel(lambda x: f(np.atleast_1d(x)), DiffusionProcess(pairs(name), bm, dt))
    x0 = np.linspace(0.3, -0.4, len(fs))
    for fn in (m.generate_integrated_path, m.accrual_curve, m.create_discount_curve, lambda: m(S0)):
        refused(ctx, f"{item}|nopath", fn)
    cs = list(customs(g).items())
    for j, z in enumerate(itertools.product((0.0, 1.0, -1.0), repeat=q * n)):
        bm.z = np.array(z).reshape(q, n)
        key = f"{name}|{tr}|{dtn}|{dcc.name}|{z}"
        ctx.state(key); ctx.step(n); ctx.trace()
        xs = euler(name, x0, bm.z * np.sqrt(taus), taus)
        want = np.array([f(c) for c in xs.T])
        ok, r = ctx.call(key, m.generate_path, np.array(x0))
        if not ok: continue
        ctx.expect(same(r, want) and same(m.path, want), key, f"short rates {r}, want {want}")
        for d in probes(g):
            ok, val = ctx.call(f"{key}|{d}", m, d)
            if ok: ctx.expect(isinstance(val, float) and abs(val - f(interp(dcc, g, xs, d))) < 1e-10, f"{key}|{d}", f"short rate {val!r} at {d}, want {f(interp(dcc, g, xs, d))}")
        for cn, dates in [("path", None), cs[j % len(cs)]]:
            gd = g if dates is None else dates
            I = integral([f(interp(dcc, g, xs, d)) for d in gd], gd, dcc)
            arg = [] if dates is None else [list(dates)]
            ok, got = ctx.call(f"{key}|{cn}|I", m.generate_integrated_path, *arg)
            if ok: ctx.expect(same(got, I, 1e-12), f"{key}|{cn}|I", f"integral {got}, want {I}")
            ok, crv = ctx.call(f"{key}|{cn}|accrual", m.accrual_curve, *arg)
            if ok: check_curve(ctx, f"{key}|{cn}|accrual", crv, gd, np.exp(I), dcc)
            ok, crv = ctx.call(f"{key}|{cn}|discount", m.create_discount_curve, *arg)
            if ok:
                check_curve(ctx, f"{key}|{cn}|discount", crv, gd, np.exp(-I), dcc)
                ctx.expect(m.discount_curve is not None and abs(m.discount_curve(gd[-1]) - math.exp(-I[-1])) < 1e-12 and same(m.integrated_path, I, 1e-12), f"{key}|{cn}|stored", "the stored curve or integral is not the last one made")
                refused(ctx, f"{key}|{cn}|beyond", crv, gd[-1] + timedelta(seconds=1))
        ctx.outcome(np.round(want, 6).tolist())

OPS = [("gen", 1, True), ("gen", 2, True), ("gen", 3, False), ("int", None), ("int", "mid"), ("disc", None), ("disc", "off"), ("acc", "sparse"), ("dt", "5h")]

def history(ctx, item):
    name, tr, first, depth = item
    q, fs = MODELS[name]; f = RATE[name][tr]
    e = datetime(2024, 1, 1, 2); dcc = C.ACTUAL_OVER_ACTUAL
    x0 = np.linspace(0.3, -0.4, len(fs)); memo = {}
    def states(dtn, seed):
        if (dtn, seed) not in memo:
            incs, taus = BrownianMotion(S0, e, q).generate_increments(DTS[dtn][0], seed)
            memo[dtn, seed] = euler(name, x0, incs, taus)
        return memo[dtn, seed]
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        if not any(o[0] == "gen" for o in seq): continue
        key = f"history|{name}|{tr}|{seq}"
        m = ShortRateModel(lambda x: f(np.atleast_1d(x)), DiffusionProcess(pairs(name), BrownianMotion(S0, e, q), DTS["6h"][0]))
        dtn, cur, curves, last_I, last_D = "6h", None, [], None, None
        ctx.trace()
        for op, *arg in seq:
            ctx.step()
            g = grid(S0, e, DTS[cur[0] if cur else dtn][1])
            if op == "gen":
                seed, keep = arg
                ok, r = ctx.call(key, m.generate_path, np.array(x0), keep, seed)
                want = np.array([f(c) for c in states(dtn, seed).T])
                if ok: ctx.expect(same(r, want, 1e-10), key, f"{op}{arg}: other short rates than a fresh model")
                if keep: cur, last_I, last_D = (dtn, seed), None, None
            elif op == "dt":
                ctx.call(key, m.set_dt, DTS[arg[0]][0]); dtn = arg[0]; cur = last_I = last_D = None
            else:
                fn = {"int": m.generate_integrated_path, "disc": m.create_discount_curve, "acc": m.accrual_curve}[op]
                if cur is None:
                    refused(ctx, key + "|" + op, fn)
                else:
                    gd = g if arg[0] is None else customs(g)[arg[0]]
                    I = integral([f(interp(dcc, g, states(*cur), d)) for d in gd], gd, dcc)
                    ok, r = ctx.call(key, fn, *([] if arg[0] is None else [list(gd)]))
                    if ok and op == "int": ctx.expect(same(r, I, 1e-12), key, f"{op}{arg}: integral {r}, want {I}")
                    if ok and op != "int":
                        curves.append((r, gd, np.exp(-I if op == "disc" else I)))
                        if op == "disc": last_D = (gd, np.exp(-I))
                    last_I = I
            g = grid(S0, e, DTS[cur[0] if cur else dtn][1])
            if cur is None:
                ctx.expect(m.path is None and m.discount_curve is None and m.integrated_path is None, key, "results of an outdated path are still stored")
                refused(ctx, key, m, S0)
            else:
                xs = states(*cur)
                ctx.expect(same(m.path, [f(c) for c in xs.T], 1e-10), key, "the stored short rates are not the last ones")
                for d in probes(g):
                    ok, val = ctx.call(key, m, d)
                    if ok: ctx.expect(abs(val - f(interp(dcc, g, xs, d))) < 1e-9, key, f"after {op}{arg}: short rate {val} at {d}, want {f(interp(dcc, g, xs, d))}")
                if m.integrated_path is not None:
                    ctx.expect(last_I is not None and same(m.integrated_path, last_I, 1e-12), key, "the stored integral is not that of the last path")
                if m.discount_curve is not None:
                    ctx.expect(last_D is not None and abs(m.discount_curve(last_D[0][-1]) - last_D[1][-1]) < 1e-10, key, "the stored discount curve is not that of the last path")
            ctx.state((name, tr, dtn, cur, last_I is None, last_D is None, op, str(arg)))
        for i, (crv, gd, vals) in enumerate(curves):
            check_curve(ctx, f"{key}|curve{i}", crv, gd, vals, dcc)

def twins(ctx, item):
    """Short-rate models that differ in one term, simulated and integrated in turns from the same seeds: each has its own rates, integral and curves."""
    name, tr = item
    e = datetime(2024, 1, 5, 2)
    base = dict(s=S0, e=e, name=name, tr=tr, dt="6h", dcc=C.ACTUAL_OVER_ACTUAL, x=0.3)
    other = dict(s=(S0 - timedelta(hours=6),), e=(e + timedelta(hours=1), e - timedelta(hours=1)), tr=[t for t in RATE[name] if t != tr], dt=("5h", "31h30"), dcc=(C.ACTUAL_OVER_360,), x=(0.31, -0.2))
    vs = [base] + [{**base, k: v} for k, xs in other.items() for v in xs]
    q, fs = MODELS[name]
    def mk(v):
        f = RATE[name][v["tr"]]
        return ShortRateModel(lambda x: f(np.atleast_1d(x)), DiffusionProcess(pairs(name), BrownianMotion(v["s"], v["e"], q, None, v["dcc"]), DTS[v["dt"]][0]))
    objs = [mk(v) for v in vs]
    for j in range(1, len(vs)):
        for seed in (3, 4):
            key = f"twins|{name}|{tr}|{[k for k in base if vs[j][k] != base[k]]}|{j}|{seed}"
            ctx.state(key); ctx.trace()
            seen = {}
            for x in (0, j, 0, j):
                v = vs[x]; f = RATE[name][v["tr"]]; m = objs[x]; dcc = v["dcc"]
                g = grid(v["s"], v["e"], DTS[v["dt"]][1])
                x0 = np.linspace(v["x"], -0.4 if len(fs) > 1 else v["x"], len(fs))
                incs, taus = BrownianMotion(v["s"], v["e"], q, None, dcc).generate_increments(DTS[v["dt"]][0], seed)
                rates = [f(c) for c in euler(name, x0, incs, taus).T]
                I = integral(rates, g, dcc)
                ctx.step(4)
                ok, r = ctx.call(key, m.generate_path, np.array(x0), True, seed)
                if ok: ctx.expect(same(r, rates, 1e-9), f"{key}|rates", f"model {x}: other short rates than its own")
                ok, r = ctx.call(key, m.generate_integrated_path)
                if ok: ctx.expect(same(r, I, 1e-9), f"{key}|integral", f"model {x}: another integral than its own")
                ok, acc = ctx.call(key, m.accrual_curve); ok2, dis = ctx.call(key, m.create_discount_curve)
                if ok and ok2: seen[x] = (m, acc, dis, g, rates, I, dcc)
                for y, (my, acc, dis, gy, ry, Iy, dy) in seen.items():
                    ctx.expect(same(my.path, ry, 1e-9) and same(my.integrated_path, Iy, 1e-9), f"{key}|stored", f"model {y} holds other rates or another integral")
                    check_curve(ctx, f"{key}|{y}|accrual", acc, gy, np.exp(Iy), dy); check_curve(ctx, f"{key}|{y}|discount", dis, gy, np.exp(-Iy), dy)
                    ctx.expect(abs(my.discount_curve(gy[-1]) - math.exp(-Iy[-1])) < 1e-9, f"{key}|{y}|curve", f"model {y} holds another discount curve")

def long(ctx, item):
    """Many fine steps over a year end and a leap day: integral and curves of a long path."""
    name, tr, n, dcc = item
    q, fs = MODELS[name]; f = RATE[name][tr]
    s = datetime(2023, 11, 29, 5); e = s + timedelta(hours=5) * n
    m = ShortRateModel(lambda x: f(np.atleast_1d(x)), DiffusionProcess(pairs(name), BrownianMotion(s, e, q, None, dcc), timedelta(hours=5)))
    g = grid(s, e, 5); x0 = np.linspace(0.03, 0.06, len(fs)); key = f"long|{item}"
    incs, taus = BrownianMotion(s, e, q, None, dcc).generate_increments(timedelta(hours=5), 4)
    xs = euler(name, x0, incs, taus)
    ctx.state(key); ctx.trace(); ctx.step(n)
    ok, r = ctx.call(key, m.generate_path, np.array(x0), True, 4)
    if not ok: return
    ctx.expect(same(r, [f(c) for c in xs.T], 1e-8), key, "the short rates of a long path")
    I = integral([f(c) for c in xs.T], g, dcc)
    ok, got = ctx.call(key + "|I", m.generate_integrated_path)
    if ok: ctx.expect(same(got, I, 1e-9), key + "|I", "the integral of a long path")
    ok, crv = ctx.call(key + "|D", m.create_discount_curve)
    for i in range(0, n, max(1, n // 40)):
        d = g[i] + (g[i + 1] - g[i]) * 0.6
        if ok: ctx.expect(abs(crv(d) - interp(dcc, g, np.array([np.exp(-I)]), d)[0]) < 1e-9, f"{key}|D|{d}", f"discount factor {crv(d)} at {d}")
        ok2, val = ctx.call(f"{key}|{d}", m, d)
        if ok2: ctx.expect(abs(val - f(interp(dcc, g, xs, d))) < 1e-8, f"{key}|{d}", f"short rate {val}")

def cashflows(ctx, item):
    """Simulated discount curves value payments like any other discount curve."""
    name, tr, seed = item
    q, fs = MODELS[name]; f = RATE[name][tr]
    e = S0 + timedelta(days=30); x0 = np.linspace(0.3, -0.4, len(fs)); dcc = C.ACTUAL_OVER_ACTUAL
    m = ShortRateModel(lambda x: f(np.atleast_1d(x)), DiffusionProcess(pairs(name), BrownianMotion(S0, e, q), DTS["31h30"][0]))
    m.generate_path(np.array(x0), seed=seed)
    g = grid(S0, e, 31.5)
    incs, taus = BrownianMotion(S0, e, q).generate_increments(DTS["31h30"][0], seed)
    xs = euler(name, x0, incs, taus)
    df = np.exp(-integral([f(c) for c in xs.T], g, dcc))
    crv = m.create_discount_curve(curve_index=CurveIndex.SOFR)
    ctx.expect(crv.index is CurveIndex.SOFR, f"cash|{item}|index")
    for a, b in itertools.product(range(0, 30, 3), repeat=2):
        ps = [(S0 + timedelta(days=a, hours=1), 5.0), (S0 + timedelta(days=b, hours=7), -2.0)]
        key = f"cash|{item}|{a}|{b}"
        ctx.step(); ctx.state(key); ctx.trace()
        ok, val = ctx.call(key, crv.present_value, Cashflow([Payment(d, x) for d, x in ps]))
        want = sum(x * interp(dcc, g, np.array([df]), d)[0] for d, x in ps)
        if ok: ctx.expect(abs(val - want) < 1e-9, key, f"worth {val}, want {want}")

def run(ctx):
    top = 7 if ctx.thorough else 6
    items = [(nm, tr, dtn, n, dcc) for nm in RATE for tr in RATE[nm] for dtn in ("6h", "31h30", "1m") for dcc in (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360)
             for n in range(1, top // MODELS[nm][0] + (0 if not ctx.thorough and MODELS[nm][0] == 1 else 1))]
    ctx.bound("shock_sequences", f"every sequence in {{-1,0,1}} of up to {top if ctx.thorough else 5}-{top} shocks"); ctx.bound("history_depth", 4 if ctx.thorough else 3)
    ctx.pmap(shocks, items[::-1])
    ctx.pmap(history, [(nm, tr, o, 4 if ctx.thorough else 3) for nm, tr in (("ou", "2x-0.3"), ("coupled", "sum")) for o in OPS])
    ctx.pmap(long, [(nm, tr, n, c) for nm in RATE for tr in RATE[nm] for n in (700, 1500) for c in (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360)])
    ctx.pmap(cashflows, [(nm, tr, s) for nm in RATE for tr in RATE[nm] for s in (1, 2)])
    ctx.bound("twins", "models that differ in one term, simulated in turns from the same seeds"); ctx.pmap(twins, [(n, t) for n in RATE for t in RATE[n]])
    ctx.sample("simulate (stored), discount curve at shifted dates, simulate (not stored), integral: all from the first path")
