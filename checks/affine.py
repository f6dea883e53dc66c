"""Reference for affine (Vasicek) models: documented SDE dX = K(theta - X)dt + S dW, r = mu + <g, X>; conditional moments and zero-coupon
bonds by numerical integration of exp(-Ks), independent of any eigen-decomposition or closed form."""
from datetime import datetime, timedelta
import functools, math
import numpy as np
from scipy.linalg import expm
from dateutil.relativedelta import relativedelta as RD
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel, MultivariateVasicekModel, CalibrationParamterType as CPT
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek as DMR
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import TreblyMeanRevertingVasicek as TMR
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import StochasticMarketPriceOfRisk as SMPR
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from checks.c19 import tau

S0, E0 = datetime(2023, 11, 30), datetime(2026, 11, 30)
DT = RD(days=7)
GX, GW = np.polynomial.legendre.leggauss(10)

class Ref:
    def __init__(self, K, theta, cov, g, mu):
        self.K, self.theta, self.C, self.g, self.mu = (np.atleast_2d(np.array(K, float)), np.atleast_1d(np.array(theta, float)),
            np.atleast_2d(np.array(cov, float)), np.atleast_1d(np.array(g, float)), float(mu))
        self.p = len(self.theta); self.I = np.eye(self.p)
    def E(self, s): return expm(-self.K * s)
    def J(self, s): return np.linalg.solve(self.K, self.I - self.E(s))
    @functools.lru_cache(None)
    def at(self, t):
        """Everything about the horizon t, by composite Gauss-Legendre quadrature."""
        n = max(1, math.ceil(t / 0.5))
        cov = np.zeros((self.p, self.p)); var = 0.0
        for k in range(n):
            for x, w in zip(GX, GW):
                s = t / n * (k + 0.5 * (x + 1)); w = 0.5 * w * t / n
                E = self.E(s)
                B = np.linalg.solve(self.K, self.I - E).T @ self.g
                cov = cov + w * E @ self.C @ E.T; var += w * B @ self.C @ B
        E, J = self.E(t), self.J(t)
        b = -J.T @ self.g                                   # d log P / dx
        a = -self.mu * t - self.g @ (t * self.theta - J @ self.theta) + 0.5 * var
        db = -E.T @ self.g
        da = -self.mu - self.g @ (self.theta - E @ self.theta) + 0.5 * b @ self.C @ b
        return dict(E=E, J=J, cov=cov, var=var, b=b, a=a, da=da, db=db)
    def mean(self, x, t): h = self.at(t); return h["E"] @ x + self.theta - h["E"] @ self.theta
    def rate(self, x): return self.mu + self.g @ x
    def avg(self, x, t): h = self.at(t); return self.mu + self.g @ (self.theta + h["J"] @ (x - self.theta) / t)
    def price(self, x, t): h = self.at(t); return math.exp(h["a"] + h["b"] @ x)
    def yld(self, x, t): h = self.at(t); return -(h["a"] + h["b"] @ x) / t
    def fwd(self, x, t): h = self.at(t); return -(h["da"] + h["db"] @ x)

def corr(vols, rhos):
    """Covariance from volatilities and pairwise correlations {(i,j): rho}."""
    n = len(vols)
    return np.array([[vols[i] * vols[j] * (1 if i == j else rhos[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)])

def _v(m, k, s, dcc=C.ACTUAL_OVER_ACTUAL):
    return (lambda: VasicekModel(m, k, s, BrownianMotion(S0, E0, 1, None, dcc), DT), Ref([[k]], [m], [[s * s]], [1.0], 0.0), dcc)

def _m(mu, g, th, K, S, R=None, dcc=C.ACTUAL_OVER_ACTUAL):
    p = len(th); S_ = np.array(S, float); R_ = np.eye(p) if R is None else np.array(R)
    return (lambda: MultivariateVasicekModel(mu, np.array(g), np.array(th), np.array(K), np.array(S), BrownianMotion(S0, E0, p, None if R is None else np.array(R), dcc), DT),
            Ref(K, th, S_ @ R_ @ S_.T, g, mu), dcc)

def _dmr(kr, sr, m, kl, sl, rho, factory=False):
    def mk():
        if factory:
            return DMR.from_volatility_shape_parameters({CPT.VOLATILITY: [kl, sl, kr, sr, rho], CPT.SHAPE: [m], CPT.STATE_VARIABLES: [0.03, 0.06]}, S0, E0, DT, seed=5)
        return DMR(short_rate_reversion_speed=kr, short_rate_volatility=sr, long_term_mean=m, long_term_reversion_speed=kl, long_term_volatility=sl,
                   short_rate_long_term_correlation=rho, start_datetime=S0, end_datetime=E0, dt=DT)
    return mk, Ref([[kl, 0], [-kr, kr]], [m, m], corr([sl, sr], {(0, 1): rho}), [0, 1], 0.0), C.ACTUAL_OVER_ACTUAL

def _tmr(kr, sr, km, sm, m, kl, sl, rm, rl, ml):
    mk = lambda: TMR(kr, sr, km, sm, m, kl, sl, rm, rl, ml, S0, E0, DT)
    return mk, Ref([[kl, 0, 0], [-km, km, 0], [0, -kr, kr]], [m] * 3, corr([sl, sm, sr], {(0, 1): ml, (0, 2): rl, (1, 2): rm}), [0, 0, 1], 0.0), C.ACTUAL_OVER_ACTUAL

def _smpr(kr, sr, km, sm, mm, kp, sp, mp, rm, rp, mpc):
    mk = lambda: SMPR(kr, sr, km, sm, mm, kp, sp, mp, rm, rp, mpc, S0, E0, DT)
    lvl = mm + sm * mp / km                                # where kappa(theta_inf - x) + lambda sigma vanishes
    return mk, Ref([[kp, 0, 0], [-sm, km, 0], [0, -kr, kr]], [mp, lvl, lvl], corr([sp, sm, sr], {(0, 1): mpc, (0, 2): rp, (1, 2): rm}), [0, 0, 1], 0.0), C.ACTUAL_OVER_ACTUAL

K2 = [[0.6, 0.25], [0.1, 0.3]]
K3 = [[0.5, 0.1, 0.0], [-0.2, 0.9, 0.15], [0.05, -0.1, 1.4]]
S3 = [[0.01, 0.0, 0.002], [0.004, 0.012, 0.0], [-0.003, 0.001, 0.02]]
MODELS = {
    "vasicek": _v(0.04, 0.5, 0.02), "vasicek/360": _v(-0.01, 1.5, 0.1, C.ACTUAL_OVER_360), "vasicek slow": _v(0.05, 0.04, 0.008, C.ACTUAL_OVER_365),
    "1d": _m(0.0, [1.0], [0.04], [[0.5]], [[0.02]]), "1d affine": _m(0.01, [-2.0], [0.03], [[0.8]], [[0.015]], dcc=C.ACTUAL_OVER_360),
    "2d symmetric": _m(0.035, [0.02, 0.001], [0.03, 0.05], [[0.11, -0.04], [-0.04, 0.01 + 0.04]], [[1.0, 0.0], [0.0, 1.0]]),
    "2d": _m(0.01, [0.7, -0.3], [0.03, 0.05], K2, [[0.01, 0.004], [-0.006, 0.02]]),
    "2d correlated": _m(0.01, [0.7, -0.3], [0.03, 0.05], K2, [[0.01, 0.004], [-0.006, 0.02]], [[1.0, 0.6], [0.6, 1.0]], C.ACTUAL_OVER_365_POINT_25),
    "3d": _m(-0.005, [0.5, 0.25, 1.0], [0.02, 0.01, 0.03], K3, S3),
    "3d correlated": _m(0.0, [1.0, -0.5, 0.2], [0.02, 0.01, 0.03], K3, S3, [[1.0, 0.75, -0.25], [0.75, 1.0, 0.1], [-0.25, 0.1, 1.0]]),
    "dmr": _dmr(0.5, 0.005, 0.05, 0.05, 0.0025, 0.25), "dmr made": _dmr(0.3, 0.01, 0.04, 0.08, 0.006, -0.5, True),
    "tmr": _tmr(1.0547, 0.005, 0.6358, 0.01092, 0.10555, 0.0165, 0.00964, 0.5, 0.01, 0.212),
    "smpr": _smpr(0.1, 0.005, 0.25, 0.01, 0.02, 0.5, 0.05, 0.01, 0.5, 0.01, 0.2),
}
START = {1: [0.03], 2: [0.02, 0.06], 3: [0.05, 0.01, 0.03]}
SCALAR = ("vasicek", "vasicek/360", "vasicek slow")

def simulated(name, seed=5, dt=RD(days=7)):
    global DT
    mk, ref, dcc = MODELS[name]
    DT = dt
    try: m = mk()
    finally: DT = RD(days=7)
    m.generate_path(np.array(START[ref.p]) if name != "dmr made" else np.array([0.03, 0.06]), seed=seed)
    return m, ref, dcc

def state(m, d):
    return np.atleast_1d(np.asarray(m.state_variables_diffusion_process(d), float))

PURCHASES = [None, S0, S0 + timedelta(days=7), S0 + timedelta(days=400, hours=7), S0 + timedelta(days=95), E0]
TERMS = [timedelta(hours=6), timedelta(days=1), RD(months=3), RD(years=1), RD(months=18), RD(years=5), RD(years=10), RD(years=30)]

def _args(f, base, other):
    """A model and the models that differ from it in one argument only."""
    out = [("base", f(*base))]
    for i, vs in other.items():
        for v in vs:
            a = list(base); a[i] = v
            out.append((f"argument {i}", f(*a)))
    return out

_S2 = [[0.01, 0.004], [-0.006, 0.02]]
TWINS = {
    "vasicek": lambda: _args(_v, [0.04, 0.5, 0.02, C.ACTUAL_OVER_ACTUAL], {0: [0.01], 1: [0.9], 2: [0.05], 3: [C.ACTUAL_OVER_360]}),
    "2d": lambda: _args(_m, [0.01, [0.7, -0.3], [0.03, 0.05], K2, _S2, [[1.0, 0.6], [0.6, 1.0]], C.ACTUAL_OVER_ACTUAL],
                        {0: [0.03], 1: [[0.7, 0.4], [-0.2, -0.3]], 2: [[0.03, 0.01], [0.06, 0.05]], 3: [[[0.6, 0.25], [0.1, 0.5]], [[0.6, 0.1], [0.25, 0.3]]], 4: [[[0.02, 0.004], [-0.006, 0.02]]], 5: [None, [[1.0, -0.6], [-0.6, 1.0]]], 6: [C.ACTUAL_OVER_360, C.ACTUAL_OVER_365_POINT_25]}),
    "dmr": lambda: _args(_dmr, [0.5, 0.005, 0.05, 0.05, 0.0025, 0.25], {0: [0.8], 1: [0.01], 2: [0.02], 3: [0.1], 4: [0.009], 5: [-0.25]}),
    "tmr": lambda: _args(_tmr, [1.0547, 0.005, 0.6358, 0.01092, 0.10555, 0.0165, 0.00964, 0.5, 0.01, 0.212], {0: [1.5], 1: [0.01], 2: [0.4], 3: [0.02], 4: [0.05], 5: [0.03], 6: [0.004], 7: [0.1], 8: [0.3], 9: [-0.2]}),
    "smpr": lambda: _args(_smpr, [0.1, 0.005, 0.25, 0.01, 0.02, 0.5, 0.05, 0.01, 0.5, 0.01, 0.2], {0: [0.17], 1: [0.01], 2: [0.4], 3: [0.02], 4: [0.05], 5: [0.8], 6: [0.02], 7: [0.1], 8: [0.1], 9: [0.3], 10: [-0.2]}),
}

def twin_models(name):
    """[(what differs, model with a simulated path, reference, day count)]: the base first, then its variants, then its like from another state and from another path."""
    global DT
    out, vs = [], TWINS[name]()
    for what, (mk, ref, dcc), x0, seed in [(w, v, START[v[1].p], 5) for w, v in vs] + [("state", vs[0][1], [a + 0.01 for a in START[vs[0][1][1].p]], 5), ("path", vs[0][1], START[vs[0][1][1].p], 6)]:
        DT = RD(months=2)
        try: m = mk()
        finally: DT = RD(days=7)
        m.generate_path(np.array(x0), seed=seed)
        out.append((what, m, ref, dcc))
    return out
