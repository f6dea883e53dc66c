"""C23: riskless portfolios of zero-coupon bonds. Every selection, in every order, of maturities from a pool x model x purchase date: weights
hedge every state variable, and the hedged portfolio's drift earns the short rate (no arbitrage)."""
import itertools
import numpy as np
from checks.affine import *

POOL = [RD(months=1), RD(months=6), RD(years=1), RD(years=3), RD(years=7), RD(years=15), RD(years=30)]

def explore(ctx, item):
    name, P, ordered = item
    m, ref, dcc = simulated(name)
    s = S0 if P is None else P
    x = state(m, s)
    k = {} if P is None else {"purchase_date": P}
    r = ref.rate(x)
    Ts = {d: s + d for d in range(0)}
    pick = itertools.permutations if ordered else itertools.combinations
    for sel in pick(range(len(POOL)), ref.p + 1):
        mats = [s + POOL[i] for i in sel]
        hs = [(ref.at(t), ref.price(x, t), ref.fwd(x, t)) for t in (tau(dcc, s, T) for T in mats)]
        deltas = np.array([p * h["b"] for h, p, _ in hs])
        key = f"{name}|{P}|{sel}"
        ctx.state(key); ctx.trace()
        for kind in ("list", "once"):
            arg = lambda: list(mats) if kind == "list" else iter(list(mats))
            ctx.step()
            ok, w = ctx.call(key, m.weights_for_riskless_portfolio, arg(), **k)
            if not ok: continue
            w = np.asarray(w, float)
            if not ctx.expect(w.shape == (ref.p + 1,) and abs(w.sum() - 1) < 1e-9 * np.abs(w).sum(), key + "|budget", f"weights {w} add up to {w.sum()}"): continue
            ctx.expect(np.all(np.abs(w @ deltas) <= 1e-8 * (np.abs(w) @ np.abs(deltas))), key + "|hedge", f"weights {w} leave an exposure of {w @ deltas}")
            ctx.step()
            ok, cvx = ctx.call(key, m.riskless_portfolio_convexity, arg(), **k)
            parts = 0.5 * w * np.array([p * h["b"] @ ref.C @ h["b"] for h, p, _ in hs])
            if ok: ctx.expect(abs(cvx - parts.sum()) <= 1e-7 * np.abs(parts).sum() + 1e-15, key + "|convexity", f"convexity {cvx}, want {parts.sum()}")
            thetas = []
            for T, (h, p, f) in zip(mats, hs):
                ctx.step()
                ok2, th = ctx.call(key, m.zero_coupon_price_deriv_wrt_maturity, T, **k)
                if ok2:
                    thetas.append(th); ctx.expect(abs(th + p * f) <= 1e-8 * max(abs(p * f), 1e-4), key + f"|{T}|theta", f"price falls by {th} with maturity, want {-p * f}")
            ok3, prices = ctx.call(key, lambda: np.array([m.zero_coupon_bond_price(T, **k) for T in mats]))
            if ok and ok3 and len(thetas) == len(mats):
                lhs, rhs = cvx - w @ np.array(thetas), r * (w @ prices)
                size = abs(cvx) + np.abs(w) @ np.abs(thetas) + abs(r) * (np.abs(w) @ prices)
                ctx.expect(abs(lhs - rhs) <= 1e-7 * size, key + "|arbitrage", f"the hedged portfolio earns {lhs}, the short rate gives {rhs}")
        ctx.outcome(np.round(w / np.abs(w).max(), 4).tolist())
    for n in (ref.p, ref.p + 2):
        for nm in ("weights_for_riskless_portfolio", "riskless_portfolio_convexity"):
            ctx.step()
            try: got = getattr(m, nm)([s + d for d in POOL[:n]], **k)
            except Exception: continue
            ctx.violation(f"{name}|{P}|{nm}|{n}", f"{n} bonds hedge {ref.p} state variables: {got}")

def twins(ctx, name):
    """Models that differ in one argument, in the state they start from or in their path, asked in turns about the same bonds."""
    vs = twin_models(name)
    p = vs[0][2].p
    mats = [[S0 + POOL[i] for i in sel] for sel in ((6, 1, 3, 4)[:p + 1], (2, 4, 5, 3)[:p + 1])]
    for i, j in itertools.permutations(range(len(vs)), 2):
        if i and not ctx.thorough: continue
        key = f"twins|{name}|{i}|{vs[i][0]}|{j}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x, (Ts, P) in itertools.product((i, j, i), itertools.product(mats, (None, S0 + timedelta(days=95)))):
            what, m, ref, dcc = vs[x]
            s = S0 if P is None else P
            k = {} if P is None else {"purchase_date": P}
            y = state(m, s)
            hs = [(ref.at(t), ref.price(y, t), ref.fwd(y, t)) for t in (tau(dcc, s, T) for T in Ts)]
            deltas = np.array([q * h["b"] for h, q, _ in hs])
            ctx.step(2)
            ok, w = ctx.call(key, m.weights_for_riskless_portfolio, list(Ts), **k)
            if not ok: continue
            w = np.asarray(w, float)
            if not ctx.expect(w.shape == (p + 1,) and abs(w.sum() - 1) < 1e-9 * np.abs(w).sum(), f"{key}|{P}|budget", f"{what}: weights {w}"): continue
            ctx.expect(np.all(np.abs(w @ deltas) <= 1e-8 * (np.abs(w) @ np.abs(deltas))), f"{key}|{P}|hedge", f"{what}: weights {w} leave an exposure of {w @ deltas}")
            ok, cvx = ctx.call(key, m.riskless_portfolio_convexity, list(Ts), **k)
            parts = 0.5 * w * np.array([q * h["b"] @ ref.C @ h["b"] for h, q, _ in hs])
            if ok: ctx.expect(abs(cvx - parts.sum()) <= 1e-7 * np.abs(parts).sum() + 1e-15, f"{key}|{P}|convexity", f"{what}: convexity {cvx}, want {parts.sum()}")
            for T, (h, q, f) in zip(Ts, hs):
                ok, th = ctx.call(key, m.zero_coupon_price_deriv_wrt_maturity, T, **k)
                if ok: ctx.expect(abs(th + q * f) <= 1e-8 * max(abs(q * f), 1e-4), f"{key}|{P}|theta", f"{what}: price falls by {th} with maturity, want {-q * f}")

def run(ctx):
    names = [n for n in MODELS if n not in SCALAR]
    ctx.bound("models", names); ctx.bound("maturities", [str(d) for d in POOL]); ctx.bound("selections", "all orders of 1+dimension maturities")
    items = [(n, P, ctx.thorough or MODELS[n][1].p < 3 or P is None) for n in names for P in PURCHASES if P != S0]
    ctx.pmap(explore, items)
    ctx.bound("twins", "models that differ in one argument, their state or their path, asked in turns"); ctx.pmap(twins, [n for n in TWINS if n != "vasicek"])
    ctx.assume("maturities are distinct, so that the hedge is unique")
    ctx.sample("3-d correlated model on day 95 of the path: bonds of 30Y, 1M, 3Y, 1Y")
