"""C18: portfolio optimization: every market of a grid (means x volatilities x correlations x time scale) and target, judged by
exhaustive enumeration of the sets of held assets, each with its closed-form solution."""
import itertools
import numpy as np
from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer as PO

SCALES = {"annual": 1.0, "monthly": 1 / 12, "daily": 1 / 252, "percent": 100.0}

def solve(mu, S, target, risk, short):
    """min risk*w'Sw - (target is None)*mu'w over budget (and target return), by enumerating the supports."""
    n = len(mu); best = None
    for s in ([tuple(range(n))] if short else [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]):
        s = list(s)
        A = np.array([np.ones(len(s))] + ([mu[s]] if target is not None else [])); b = np.array([1.0] + ([target] if target is not None else []))
        g = np.zeros(len(s)) if target is not None else mu[s]
        if target is not None:
            A[1] /= np.abs(mu).max(); b[1] /= np.abs(mu).max()
        sc = S.max()
        K = np.block([[2 * risk * S[np.ix_(s, s)] / sc, A.T], [A, np.zeros((len(A), len(A)))]])
        x = np.linalg.lstsq(K, np.r_[g / sc, b], rcond=None)[0]
        w = np.zeros(n); w[s] = x[:len(s)]
        if abs(A @ w[s] - b).max() > 1e-8 or (not short and w.min() < -1e-10):
            continue
        f = risk * w @ S @ w - (mu @ w if target is None else 0.0)
        if best is None or f < best[0]:
            best = (f, w)
    return best

def market(mus, vols, rho, scale):
    n = len(mus)
    R = np.eye(n)
    for i in range(n):
        for j in range(i):
            R[i, j] = R[j, i] = rho * (1 if (i + j) % 2 else 0.5)
    return np.array(mus) * scale, np.outer(vols, vols) * R * (scale if scale < 2 else scale * scale)      # a time scale, or a unit such as percent

def judge(ctx, key, w, mu, S, target, risk, short):
    best = solve(mu, S, target, risk, short)
    w = np.asarray(w, float)
    ctx.step(); ctx.trace()
    ctx.expect(abs(w.sum() - 1) < 1e-6, key + "|budget", f"weights {w} add up to {w.sum()}")
    if target is not None: ctx.expect(abs(w @ mu - target) < 1e-5 * abs(mu).max(), key + "|target", f"returns {w @ mu}, want {target}")
    if not short: ctx.expect(w.min() > -1e-6, key + "|short", f"short position in {w}")
    f = risk * w @ S @ w - (mu @ w if target is None else 0.0)
    unit = abs(best[0]) if target is not None else max(abs(mu).max(), risk * S.max())
    ctx.expect(f <= best[0] + 1e-3 * unit, key + "|optimal", f"weights {w} give {f}; {best[1]} give {best[0]}")
    ctx.outcome((tuple(np.round(best[1], 2)), short))

def grid(ctx, item):
    mus, scale = item
    n = len(mus)
    V = (0.1, 0.2, 0.35)
    some = n == 3 and not ctx.thorough and list(mus) != sorted(mus) or n == 3 and scale != "annual" and not ctx.thorough      # every pair of volatilities
    for vols in [(a, V[(i + j) % 3], b) for i, a in enumerate(V) for j, b in enumerate(V)] if some else itertools.product(V, repeat=n) if n < 4 else [tuple(0.08 + 0.05 * ((i * k + k) % 6) for i in range(n)) for k in (1, 2, 5)] if n > 4 else [(0.1, 0.2, 0.35, 0.15), (0.3, 0.1, 0.2, 0.1), (0.2,) * 4, (0.35, 0.3, 0.12, 0.25)]:
        for rho in (-0.3, 0.0, 0.6) if n < 5 else (-0.05, 0.0, 0.3):
            mu, S = market(mus, vols, rho, SCALES[scale])
            po = PO(mu.copy(), S.copy())
            for short in ((False, True) if rho else (True, False)):
                key0 = f"{mus}|{vols}|{rho}|{scale}|{'short' if short else 'long'}"
                ctx.state(key0)
                lo, hi = mu.min(), mu.max()
                if hi > lo:
                    ends = [t for t, v in ((0.0, lo), (1.0, hi)) if list(mu).count(v) == 1]   # with a tie the extreme target is a degenerate corner
                    for t in [0.05, 0.3, 0.75] + ends if not short else (-0.5, 0.4, 1.6):
                        target = lo + t * (hi - lo)
                        key = f"{key0}|minvar|{t}"
                        ok, w = ctx.call(key, po.find_minimum_variance_portfolio, target, *([True] if short else []))
                        if ok: judge(ctx, key, w, mu, S, target, 1.0, short)
                for wealth, a in ((1.0, 3.0), (2.0, 1.0), (100.0, 0.5)):
                    key = f"{key0}|utility|{wealth}|{a}"
                    ok, w = ctx.call(key, po.find_maximum_utility_portfolio, wealth, a, short)
                    if ok: judge(ctx, key, w, mu, S, None, wealth * a / 2, short)
                if hi > lo:     # the first question once more, after all the others
                    ok, w = ctx.call(key0 + "|again", po.find_minimum_variance_portfolio, lo + 0.4 * (hi - lo), *([True] if short else []))
                    if ok: judge(ctx, key0 + "|again", w, mu, S, lo + 0.4 * (hi - lo), 1.0, short)
                ctx.expect(np.array_equal(po.mean_vector, mu) and np.array_equal(po.covariance_matrix, S), key0 + "|data", "the market data changed")

def frontier(ctx, item):
    mus, vols, rho, scale = item
    mu, S = market(mus, vols, rho, SCALES[scale])
    po = PO(mu, S)
    inc = (mu.max() - mu.min()) / 8
    for short in (False, True):
        for lo, hi in ((None, None), (mu.min() + inc, None), (None, mu.max() - 3 * inc), (mu.min() + 2 * inc, mu.min() + 5 * inc)) + (((0.0, None), (None, 0.0), (0.0, inc)) if mu.min() < 0 < mu.max() - inc else ()):
            if lo is not None and lo > mu.max() or hi is not None and hi < mu.min() + inc: continue
            key = f"frontier|{item}|{short}|{lo}|{hi}"
            ctx.state(key)
            ok, res = ctx.call(key, po.calculate_efficient_frontier, lo, hi, inc, short)
            if not ok: continue
            rets, vol, W = res
            a = mu.min() + inc if lo is None else lo
            b = mu.max() - inc if hi is None else hi
            ctx.expect(len(rets) == len(vol) == len(W) and abs(rets[0] - a) < 1e-9 and rets[-1] > b - 1e-3 * inc - 1e-12 and np.allclose(np.diff(rets), inc), key + "|grid", f"returns {rets}, want {a}..{b} by {inc}")
            for r, v, w in zip(rets, vol, W):
                if r > b + 1e-3 * inc: continue
                judge(ctx, f"{key}|{r:.6g}", w, mu, S, r, 1.0, short)
                ctx.expect(abs(v - np.sqrt(w @ S @ w)) < 1e-9, f"{key}|{r:.6g}|vol", f"volatility {v}")
            for rf in (0.0, 0.01, -0.02):
                ok, sh = ctx.call(key, po.sharpe_ratio, rets, vol, rf)
                if ok: ctx.expect(np.allclose(sh, [(x - rf) / y for x, y in zip(rets, vol)]), key + "|sharpe", f"{sh}")

def twins(ctx, item):
    """Optimizers whose markets differ in one number, asked in turns: each optimizes its own."""
    base, rho, scale = item
    mus, vols = base
    ms = [(mus, vols, rho)] + [(mus[:i] + (m + 0.015,) + mus[i + 1:], vols, rho) for i, m in enumerate(mus)] + [(mus, vols[:i] + (v * 1.4,) + vols[i + 1:], rho) for i, v in enumerate(vols)] + [(mus, vols, rho + 0.25)]
    ms += [(mus[::-1], vols[::-1], rho)]
    data = [market(*m, SCALES[scale]) for m in ms]
    pos = [PO(mu.copy(), S.copy()) for mu, S in data]
    target = 0.45 * min(mu.max() for mu, _ in data) + 0.55 * max(mu.min() for mu, _ in data)
    for j in range(1, len(ms)):
        for short in (False, True):
            key = f"twins|{item}|{j}|{short}"
            ctx.state(key)
            for x in (0, j, 0):
                mu, S = data[x]
                ok, w = ctx.call(key, pos[x].find_minimum_variance_portfolio, target, *([True] if short else []))
                if ok: judge(ctx, f"{key}|{x}|minvar", w, mu, S, target, 1.0, short)
                for wealth, a in ((1.0, 3.0), (2.0, 3.0), (1.0, 1.0)):
                    ok, w = ctx.call(key, pos[x].find_maximum_utility_portfolio, wealth, a, short)
                    if ok: judge(ctx, f"{key}|{x}|utility|{wealth}|{a}", w, mu, S, None, wealth * a / 2, short)

def run(ctx):
    vals = (0.02, 0.05, 0.08, 0.12)
    items = [(m, s) for n in (2, 3) for m in itertools.product(vals if ctx.thorough else vals[::3] + (0.05,), repeat=n) for s in (SCALES if ctx.thorough or n == 2 else ('annual', 'daily'))]
    items += [(m, s) for m in ((0.02, 0.05, 0.08, 0.12), (-0.03, 0.04, 0.04, 0.1), (0.1, 0.02, 0.06, -0.01)) for s in SCALES]
    items += [(tuple(0.01 + 0.012 * ((i * k) % (n + 1)) - 0.02 * (k == 3) for i in range(n)), s) for n in ((5, 6, 8, 10) if ctx.thorough else (5, 6, 8)) for k in (1, 3, 5) for s in SCALES]
    ctx.bound("markets", len(items)); ctx.bound("assets", "2 to 8 (thorough: 10)")
    ctx.pmap(grid, items[::-1])
    ctx.pmap(frontier, [(m, v, r, s) for m, v in (((0.02, 0.1), (0.1, 0.3)), ((-0.03, 0.05, 0.06), (0.1, 0.15, 0.35)), ((0.03, 0.05, 0.12), (0.1, 0.15, 0.35)), ((0.02, 0.05, 0.08, 0.12), (0.2, 0.1, 0.35, 0.3))) for r in (-0.3, 0.0, 0.6) for s in SCALES])
    ctx.bound("twins", "markets that differ in one number, optimized in turns")
    ctx.pmap(twins, [(m, r, s) for m in (((0.02, 0.08), (0.1, 0.3)), ((0.02, 0.05, 0.12), (0.1, 0.15, 0.35)), ((0.02, 0.05, 0.08, 0.12), (0.2, 0.1, 0.35, 0.3))) for r in (-0.1, 0.3) for s in ("annual", "daily")])
    ctx.assume("optimality is judged on the objective within 0.1%, as the weights of a flat optimum are not determined numerically")
    ctx.assume("long-only targets lie inside the range of the mean returns, or at an end reached by a single asset")
    ctx.assume("covariances are positive definite")
    ctx.sample("means (2%, 5%, 12%), volatilities (10%, 20%, 35%), correlation -0.3, daily scale, long only, target 75% of the way")
