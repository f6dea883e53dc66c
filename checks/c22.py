"""C22: affine term-structure models. Each model of a pool x purchase date x maturity: simulated dynamics, conditional moments, bond
prices, yields, forwards, volatilities and convexities against quadrature of the documented SDE; histories of queries on one model."""
import itertools, math
import numpy as np
from checks.affine import *

def rel(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1e-3, float(np.max(np.abs(b))))))

def table(name, m, ref, P, T, x, t, far=()):
    """query -> (call, expected)"""
    h = ref.at(t); C_, g = ref.C, ref.g
    k = {} if P is None else {"purchase_date": P}
    price, y = ref.price(x, t), ref.yld(x, t)
    var_y, var_f = h["b"] @ C_ @ h["b"] / t ** 2, h["db"] @ C_ @ h["db"]
    q = {
        "price": (lambda: m.zero_coupon_bond_price(T, **k), price), "yield": (lambda: m.zero_coupon_bond_yield(T, **k), y),
        "expected": (lambda: m.expected_short_rate(T, **k), ref.rate(ref.mean(x, t))), "average": (lambda: m.average_expected_short_rate(T, **k), ref.avg(x, t)),
        "variance": (lambda: m.short_rate_variance(T, **k), g @ h["cov"] @ g), "forward": (lambda: m.instantaneous_forward_rate(T, **k), ref.fwd(x, t)),
        "yieldvol": (lambda: m.yield_volatility(T, **k), math.sqrt(var_y)), "forwardvol": (lambda: m.instantaneous_forward_rate_volatility(T, **k), math.sqrt(var_f)),
        "convexity": (lambda: m.yield_convexity(T, **k), -0.5 * h["var"] / t), "priceconvexity": (lambda: m.price_convexities([T], **k), [-0.5 * t * t * price * var_y]),
    }
    if name in SCALAR:
        q["yield'"] = (lambda: m.zero_coupon_yield(T, **k), y)
    else:
        q |= {"mean": (lambda: m.expected_state_variable_mean(T, **k), ref.mean(x, t)), "covariance": (lambda: m.state_variable_covariance(T, **k), h["cov"]),
              "delta": (lambda: m.zero_coupon_bond_price_deriv_wrt_state_variables(T, **k), price * h["b"]),
              "theta": (lambda: m.zero_coupon_price_deriv_wrt_maturity(T, **k), -price * ref.fwd(x, t))}
    if far:         # several maturities at once, the first of them T
        Ts, ts = [T] + far[0], [t] + far[1]
        b = np.array([ref.at(u)["b"] / u for u in ts]); f = np.array([ref.at(u)["db"] for u in ts]); ps = np.array([ref.price(x, u) for u in ts])
        q["price_convexities"] = (lambda: m.price_convexities(Ts, **k), -0.5 * np.array(ts) ** 2 * ps * np.diag(b @ C_ @ b.T))
        if name not in SCALAR:
            q |= {"yield_covariance": (lambda: m.yield_covariance_matrix(iter(Ts), **k), b @ C_ @ b.T), "forward_covariance": (lambda: m.instantaneous_forward_rate_covariance(Ts, **k), f @ C_ @ f.T)}
            if ref.p < 3: q["riskless"] = (lambda: float(np.sum(m.weights_for_riskless_portfolio(Ts[:ref.p + 1], **k) * 0 + 1)), float(ref.p + 1))
    return q

TOL = {"convexity": 1e-6}

def start(P): return S0 if P is None else P

def grid(ctx, name):
    m, ref, dcc = simulated(name)
    if name not in SCALAR:          # the model's own statement of its dynamics
        for nm, want in (("variance_mat", ref.C), ("reversion_matrix", ref.K), ("reversion_level", ref.theta), ("short_rate_coefficients", ref.g), ("short_rate_intercept", ref.mu)):
            if hasattr(m, nm): ctx.expect(np.allclose(getattr(m, nm), want, rtol=1e-10, atol=1e-14), f"{name}|{nm}", f"{nm}: {getattr(m, nm)}, want {want}")
    for P in PURCHASES:
        x = state(m, start(P))
        ok, r = ctx.call(f"{name}|{P}|rate", m, start(P))
        if ok: ctx.expect(abs(r - ref.rate(x)) < 1e-12, f"{name}|{P}|rate", f"short rate {r}, want {ref.rate(x)}")
        Ts = [start(P) + d for d in TERMS]
        for T in Ts:
            t = tau(dcc, start(P), T)
            for nm, (fn, want) in table(name, m, ref, P, T, x, t).items():
                key = f"{name}|{P}|{T}|{nm}"
                ctx.state(key); ctx.step(); ctx.trace(); ctx.n_evals += 1
                ok, got = ctx.call(key, fn)
                # cancellation of the closed forms for very short horizons
                tol = max(TOL.get(nm, 1e-8), 1e-7 if t > 0.2 else 1e-5)
                if nm in ("convexity",) and t < 0.01: tol = 1e-3
                if ok: ctx.expect(rel(got, want, tol) if nm not in ("convexity", "variance") else abs(got - want) < tol * abs(want) + 1e-11, key, f"{nm}: {got}, want {want}")
                ctx.outcome((nm, np.round(want, 10).tolist()))
        for sub in [Ts[1:4], Ts[3::2], Ts[::-1]] + ([list(x_) for x_ in itertools.combinations(Ts, 2)] if ctx.thorough else []):
            t = [tau(dcc, start(P), T) for T in sub]; k = {} if P is None else {"purchase_date": P}
            b = np.array([ref.at(u)["b"] / u for u in t]); f = np.array([ref.at(u)["db"] for u in t])
            price = np.array([ref.price(x, u) for u in t])
            want = {"price_convexities": -0.5 * np.array(t) ** 2 * price * np.diag(b @ ref.C @ b.T)}
            if name not in SCALAR: want |= {"yield_covariance_matrix": b @ ref.C @ b.T, "instantaneous_forward_rate_covariance": f @ ref.C @ f.T}
            for nm, w in want.items():
                for kind, arg in (("list", list(sub)), ("tuple", tuple(sub)), ("once", iter(list(sub)))):
                    key = f"{name}|{P}|{[str(s) for s in sub]}|{nm}|{kind}"
                    ctx.state(key); ctx.step()
                    ok, got = ctx.call(key, getattr(m, nm), arg, **k)
                    if ok: ctx.expect(rel(got, w, 1e-6), key, f"{nm}: {got}, want {w}")
    # a bond can not mature before it is bought
    if name not in SCALAR:
        for nm in ("average_expected_short_rate", "zero_coupon_bond_yield", "yield_convexity"):
            for T, P in ((S0, S0), (S0, None), (S0 + timedelta(days=7), S0 + timedelta(days=8))):
                ctx.step()
                try: r = getattr(m, nm)(T, **({} if P is None else {"purchase_date": P}))
                except ValueError: continue
                except Exception as e: ctx.violation(f"{name}|{nm}|expired", f"{type(e).__name__}"); continue
                ctx.violation(f"{name}|{nm}|expired", f"gives {r} for a bond maturing {T}, bought {P}")
    for nm in ("price_convexities",) + (("instantaneous_forward_rate_covariance",) if name not in SCALAR else ()):
        ctx.step()
        try: r = getattr(m, nm)([S0 + timedelta(days=9), S0], purchase_date=S0)
        except ValueError: continue
        except Exception as e: ctx.violation(f"{name}|{nm}|expired", f"{type(e).__name__}"); continue
        ctx.violation(f"{name}|{nm}|expired", f"gives {r} with a bond that has matured")

def dynamics(ctx, name):
    """One Euler step from many states under every unit shock: drift K(theta - x) and covariance of the documented SDE."""
    mk, ref, dcc = MODELS[name]
    p = ref.p
    m = mk(); bm = m.brownian_motion
    real = bm.generate_increments
    z = [np.zeros(p)]
    def fake(dt, seed=None):
        incs, dts = real(dt=dt, seed=seed)
        L = np.linalg.cholesky(np.array(bm.correlation_matrix))
        return (L @ np.array(z[0]))[:, None] * np.sqrt(dts), dts
    bm.generate_increments = fake
    t = None
    for x in itertools.product((0.0, 0.04, -0.02), repeat=p):
        x = np.array(x)
        resp = []
        for j in range(-1, p):
            z[0] = np.array([1.0 if i == j else 0.0 for i in range(p)])
            key = f"dynamics|{name}|{x}|{j}"
            ctx.state(key); ctx.step(); ctx.trace()
            ok, r = ctx.call(key, m.generate_path, x if p > 1 or j % 2 else float(x[0]))
            if not ok: return
            t = tau(dcc, S0, S0 + timedelta(days=7))
            resp.append(state(m, S0 + timedelta(days=7)))
            ctx.expect(rel(state(m, S0), x, 1e-12), key + "|start", "the path does not begin at its starting state")
            ctx.expect(abs(r[1] - ref.rate(resp[-1])) < 1e-12, key + "|rate", f"short rate {r[1]}, want {ref.rate(resp[-1])}")
        want = x + ref.K @ (ref.theta - x) * t
        ctx.expect(rel(resp[0], want, 1e-10), f"dynamics|{name}|{x}|drift", f"drifts to {resp[0]}, want {want}")
        D = np.array([r - resp[0] for r in resp[1:]])
        ctx.expect(rel(D.T @ D, ref.C * t, 1e-9), f"dynamics|{name}|{x}|shock", f"one-step covariance {D.T @ D}, want {ref.C * t}")

class Current:
    """Stands for the model of the running history."""
    def __getattr__(self, nm): return getattr(self.__dict__["m"], nm)

def history(ctx, item):
    """Every sequence of queries on one model, with a new path in between: every answer as on a fresh model."""
    name, first, depth = item
    coarse = RD(months=2)
    P1, T1, T2 = S0 + timedelta(days=95), S0 + RD(years=2), S0 + RD(years=10)
    m, ref, dcc = simulated(name, 5, coarse)
    others = [S0 + RD(years=4), S0 + RD(years=7, months=1)]
    far = lambda P: (others, [tau(dcc, start(P), T) for T in others])
    names = list(table(name, m, ref, None, T1, state(m, S0), tau(dcc, S0, T1), far(None)))
    both = ctx.thorough or depth == 2
    acts = [(n, P, T) for i, n in enumerate(names) for P, T in ([(None, T1), (P1, T2)] if both else [[(None, T1), (P1, T2)][i % 2]])] + [("path", 9, None), ("path", 5, None)]
    if first >= len(acts): return
    st, hold, tables = {}, Current(), {}
    for s in (5, 9):
        m = simulated(name, s, coarse)[0]
        st[s] = {P: state(m, start(P)) for P in (None, P1)}
    for rest in itertools.product(acts, repeat=depth - 1):
        seq = (acts[first],) + rest
        key = f"history|{name}|{[(a, str(b), str(c)) for a, b, c in seq]}"
        hold.m = m = simulated(name, 5, coarse)[0]; cur = 5
        ctx.trace(); ctx.state(key)
        for nm, P, T in seq:
            ctx.step()
            if nm == "path":
                ctx.call(key, m.generate_path, np.array(START[ref.p]) if name != "dmr made" else np.array([0.03, 0.06]), seed=P); cur = P; continue
            if (P, T, cur) not in tables: tables[P, T, cur] = table(name, hold, ref, P, T, st[cur][P], tau(dcc, start(P), T), far(P))
            fn, want = tables[P, T, cur][nm]
            ok, got = ctx.call(key, fn)
            if ok: ctx.expect(rel(got, want, 1e-6), key, f"{nm}({P}, {T}): {got}, want {want}")

def parameters(ctx, item):
    """Vasicek parameters replaced from the calibration dictionary, in every order: prices and new paths follow them."""
    for seq in itertools.product(("vol", "shape", "price", "path", "yield"), repeat=4):
        m = MODELS["vasicek"][0](); par = dict(k=0.5, m=0.04, s=0.02); sim = None; n = 0
        key = f"parameters|{seq}"
        ctx.trace(); ctx.state(key)
        for a in seq:
            ctx.step(); n += 1
            if a == "vol":
                par.update(s=0.01 * (n + 2), k=0.2 + 0.1 * n); m.parameter_calibration_dict[CPT.VOLATILITY] = [par["s"], par["k"]]
                ctx.call(key, m.set_volatiltiy_parameters_from_dict)
            elif a == "shape":
                par.update(m=0.01 * n); m.parameter_calibration_dict[CPT.SHAPE] = [par["m"]]
                ctx.call(key, m.set_shape_parameters_from_dict)
            elif a == "path":
                ok, r = ctx.call(key, m.generate_path, 0.03, seed=n)
                incs, ts = BrownianMotion(S0, E0, 1).generate_increments(DT, seed=n)
                x, want = 0.03, [0.03]
                for w, t in zip(incs[0], ts):
                    x = x + par["k"] * (par["m"] - x) * t + par["s"] * w; want.append(x)
                if ok: ctx.expect(rel(r, want, 1e-9), key, "the path does not follow the current parameters")
                sim = 0.03
            elif sim is not None:
                ref = Ref([[par["k"]]], [par["m"]], [[par["s"] ** 2]], [1.0], 0.0); T = S0 + RD(years=3); t = tau(C.ACTUAL_OVER_ACTUAL, S0, T); x = np.array([sim])
                ok, got = ctx.call(key, (m.zero_coupon_bond_price if a == "price" else m.zero_coupon_bond_yield), T)
                want = ref.price(x, t) if a == "price" else ref.yld(x, t)
                if ok: ctx.expect(rel(got, want, 1e-8), key, f"{a}: {got}, want {want} with {par}")
            ctx.expect(abs(m.long_term_mean - par["m"]) + abs(m.reversion_speed - par["k"]) + abs(m.volatility - par["s"]) < 1e-15, key + "|parameters")
            ctx.expect(abs(m.convexity_limit + par["s"] ** 2 / 2 / par["k"] ** 2) < 1e-15, key + "|limit", f"{m.convexity_limit}")

TWO = ("vol", "shape", "path", "price", "mean")
def two_parameters(ctx, first):
    """The same for the doubly mean reverting model, whose reversion and volatility matrices hold the parameters."""
    x0 = np.array([0.03, 0.06])
    for rest in itertools.product(("vol", "shape", "path", "price", "yield", "mean", "sd", "fresh"), repeat=3):
        seq = (first,) + rest
        key = f"two_parameters|{seq}"
        ctx.trace(); ctx.state(key)
        par = [0.05, 0.0025, 0.5, 0.005, 0.25]; lvl = 0.05; n = 0; x = None
        m = DMR(short_rate_reversion_speed=par[2], short_rate_volatility=par[3], long_term_mean=lvl, long_term_reversion_speed=par[0], long_term_volatility=par[1],
                short_rate_long_term_correlation=par[4], start_datetime=S0, end_datetime=E0, dt=RD(months=2))
        other = MODELS["dmr"][0]() if "fresh" in rest else None
        for a in seq:
            ctx.step(); n += 1
            kl, sl, kr, sr, rho = par
            ref = Ref([[kl, 0], [-kr, kr]], [lvl, lvl], corr([sl, sr], {(0, 1): rho}), [0, 1], 0.0)
            if a == "vol":
                par = [0.05 + 0.02 * n, 0.002 * n, 0.3 + 0.1 * n, 0.004 + 0.003 * n, 0.2 * n - 0.5]; m.parameter_calibration_dict[CPT.VOLATILITY] = list(par)
                ctx.call(key, m.set_volatiltiy_parameters_from_dict)
            elif a == "shape":
                lvl = 0.01 * n + 0.005; m.parameter_calibration_dict[CPT.SHAPE] = [lvl]
                ctx.call(key, m.set_shape_parameters_from_dict)
            elif a == "path":
                ok, r = ctx.call(key, m.generate_path, x0, seed=n)
                incs, ts = BrownianMotion(S0, E0, 2).generate_increments(RD(months=2), seed=n)
                z, want, L = x0, [x0[1]], np.linalg.cholesky(ref.C)
                for w, t in zip(incs.T, ts):
                    z = z + ref.K @ (ref.theta - z) * t + L @ w; want.append(z[1])
                if ok: ctx.expect(rel(r, want, 1e-9), key, "the path does not follow the current parameters")
                x = x0
            elif x is not None:
                T = S0 + RD(years=3); t = tau(C.ACTUAL_OVER_ACTUAL, S0, T)
                if a == "fresh": ctx.expect(other.reversion_level[0] == 0.05 and abs(other.C_mat[0, 0] - 0.0025 ** 2) < 1e-15, key + "|other", "another model changed")
                else:
                    fn, want = {"price": (m.zero_coupon_bond_price, ref.price(x, t)), "yield": (m.zero_coupon_bond_yield, ref.yld(x, t)),
                                "mean": (m.expected_short_rate, ref.g @ ref.mean(x, t)), "sd": (m.short_rate_variance, ref.g @ ref.at(t)["cov"] @ ref.g)}[a]
                    ok, got = ctx.call(key, fn, T)
                    if ok: ctx.expect(rel(got, want, 1e-8), key, f"{a}: {got}, want {want} with {par}, {lvl}")
            want = [m.long_term_reversion_speed, m.long_term_volatility, m.short_rate_reversion_speed, m.short_rate_volatility, m.short_rate_long_term_correlation]
            ctx.expect(want == par and m.long_term_mean == lvl, key + "|parameters", f"{want} {m.long_term_mean}")
        m.parameter_calibration_dict[CPT.STATE_VARIABLES] = [0.02, 0.07]
        if ctx.call(key, m.set_state_variables_from_dict)[0]: ctx.expect(list(m.starting_state_variables) == [0.02, 0.07], key + "|state", f"{m.starting_state_variables}")

def twins(ctx, name):
    """Models that differ in one argument, in the state they start from or in their path, asked in turns: each answers for itself."""
    vs = twin_models(name)
    P1, T1, T2 = S0 + timedelta(days=95), S0 + RD(years=2), S0 + RD(years=10)
    others = [S0 + RD(years=4), S0 + RD(years=7, months=1)]
    label = "vasicek" if name == "vasicek" else "2d"
    tables = [[(P, T, table(label, m, ref, P, T, state(m, start(P)), tau(dcc, start(P), T), (others, [tau(dcc, start(P), U) for U in others]))) for P, T in ((None, T1), (P1, T2), (P1, T1))] for _, m, ref, dcc in vs]
    for i, j in itertools.permutations(range(len(vs)), 2):
        if i and not ctx.thorough: continue
        key = f"twins|{name}|{i}|{vs[i][0]}|{j}|{vs[j][0]}"
        ctx.trace(); ctx.state(key)
        for x in (i, j, i):
            for P, T, q in tables[x]:
                for nm, (fn, want) in q.items():
                    ctx.step()
                    ok, got = ctx.call(f"{key}|{nm}", fn)
                    if ok: ctx.expect(rel(got, want, 1e-6), f"{key}|{nm}", f"{vs[x][0]}: {nm}({P}, {T}): {got}, want {want}")

def run(ctx):
    ctx.bound("models", list(MODELS)); ctx.bound("purchase_dates", [str(p) for p in PURCHASES]); ctx.bound("terms", [str(t) for t in TERMS]); ctx.bound("history_depth", 3 if ctx.thorough else 2)
    ctx.pmap(grid, MODELS); ctx.pmap(dynamics, MODELS); ctx.pmap(parameters, [0]); ctx.pmap(two_parameters, TWO)
    ctx.pmap(history, [(n, f, d) for d in (2, 3) for n in ("vasicek", "2d correlated", "dmr made", "smpr") for f in range(48)])
    ctx.bound("twins", "models that differ in one argument, their state or their path, asked in turns"); ctx.pmap(twins, TWINS)
    ctx.assume("reversion matrices are diagonalizable with distinct, positive real eigenvalues")
    ctx.sample("doubly mean reverting model: price of a 5-year bond bought on day 400 of the path, then a new path, then a yield from the start")
