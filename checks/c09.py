"""C09: curve calibration. Every subset (up to a size) of a pool of bonds, in every order, as list and as one-shot
iterable, for every interpolation method: the calibrated curve reprices each instrument, judged by an independent
pricer that only reads the curve's knots."""
from datetime import date, timedelta
import itertools, math
import numpy as np
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod as IM
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency as PF, DayCountConvention as C
from fixedIncome.src.assets.base_cashflow import CashflowKeys
from checks.c04 import clock
from checks.c07 import spline
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention as SC, BusinessDayAdjustment as BDA
from fixedIncome.src.scheduling_tools.holidays import US_FEDERAL_HOLIDAYS
from checks.c02 import Ref, SETTLE
from checks.c01 import ref_holidays

REFD = date(2023, 2, 27)
tau = lambda d: float(clock(d) - clock(REFD))
POOL = {
    "z1m": (99.65, 0.0, '1M', PF.ZERO_COUPON, date(2023, 3, 28)),
    "z6m": (97.55, 0.0, '6M', PF.ZERO_COUPON, date(2023, 8, 26)),     # matures on a Saturday
    "c9m": (99.10, 4.0, '1Y', PF.SEMI_ANNUAL, date(2023, 11, 30)),
    "c1y": (100.4, 5.25, '2Y', PF.QUARTERLY, date(2024, 2, 29)),
    "c15m": (98.2, 3.0, '2Y', PF.SEMI_ANNUAL, date(2024, 6, 15)),     # Saturday
    "c18m": (101.3, 5.5, '3Y', PF.ANNUAL, date(2024, 8, 31)),
}
SMALL_ = tuple(POOL)
POOL |= {     # only for the larger calibrations
    "z3m": (98.85, 0.0, '3M', PF.ZERO_COUPON, date(2023, 5, 31)), "c21m": (97.1, 2.5, '5Y', PF.SEMI_ANNUAL, date(2024, 11, 30)),
    "c2y": (103.0, 6.5, '3Y', PF.QUARTERLY, date(2025, 2, 28)), "c27m": (95.5, 2.0, '3Y', PF.SEMI_ANNUAL, date(2025, 5, 31)),
    "c3y": (108.0, 7.5, '5Y', PF.ANNUAL, date(2026, 2, 15)), "z40m": (86.5, 0.0, '5Y', PF.ZERO_COUPON, date(2026, 6, 30)),
    "d2y": (71.0, 3.0, '3Y', PF.SEMI_ANNUAL, date(2025, 1, 15)), "d4y": (55.0, 4.0, '5Y', PF.SEMI_ANNUAL, date(2027, 1, 31)),     # distressed
    "r5y": (126.0, 3.0, '7Y', PF.SEMI_ANNUAL, date(2028, 3, 31)),                                                            # negative yield
    "b10": (97.0, 3.5, '10Y', PF.SEMI_ANNUAL, date(2033, 2, 15)), "b30": (88.0, 3.625, '30Y', PF.SEMI_ANNUAL, date(2053, 2, 15)),
}
POOL |= {f"l{i}": (101 - 2.5 * i + 7 * (i % 3), 2 + i / 4, '30Y', PF.SEMI_ANNUAL, date(2023 + 2 * i, 5, 15)) for i in range(1, 10)}
def _ladder(c, price, step):
    return {f"{c}{i}": (price + step * i, 1.0, '10Y', PF.SEMI_ANNUAL, date(2023 + (7 + 4 * i) // 12, (7 + 4 * i) % 12 + 1, 20)) for i in range(12)}
POOL |= _ladder("x", 92, -6.0) | _ladder("y", 130, 5.0)      # far from par: the equations take many steps to solve
# the same quotes on bonds of other principals, settlement conventions, adjustments, calendars, day counts and kinds
OTHER = {"k": dict(principal=1000), "m": dict(principal=1_000_000), "f": dict(cls=FixedRateBond, principal=1000), "c": dict(cls=FixedRateBond), "0": dict(sc=SC.T_PLUS_ZERO_BUSINESS), "3": dict(sc=SC.T_PLUS_THREE_BUSINESS, principal=50_000),
         "w": dict(us=False, adj=BDA.MODIFIED_FOLLOWING), "a": dict(adj=BDA.MODIFIED_FOLLOWING, sc=SC.T_PLUS_TWO_BUSINESS), "d": dict(dcc=C.ACTUAL_OVER_360), "t": dict(dcc=C.THIRTY_OVER_THREESIXTY, cls=FixedRateBond, principal=250)}
TERMS_OF = {f"{n}@{k}": kw for n in SMALL_ + ("c2y", "z3m", "c21m") for k, kw in OTHER.items()}
POOL |= {n: POOL[n.split("@")[0]] for n in TERMS_OF}
of = lambda n, what: TERMS_OF.get(n, {}).get(what, dict(principal=100, cls=UsTreasuryBond, sc=SC.T_PLUS_ONE_BUSINESS, us=True, adj=BDA.FOLLOWING, dcc=C.ACTUAL_OVER_ACTUAL)[what])
FAR = tuple(f"x{i}" for i in range(12)), tuple("xy"[i % 2] + str(i) for i in range(8))
LONG = tuple(f"l{i}" for i in range(1, 10))
SMALL = ("z1m", "z6m", "c9m", "c1y", "c15m", "c18m")
MANY = SMALL + ("z3m", "c21m", "c2y", "c27m", "c3y", "z40m")
PURCH = REFD
def moved(refd, purch):
    """Runs the rest of this work item as of another reference date, with bonds bought on another day."""
    global REFD, PURCH
    REFD, PURCH = refd, purch
    _cache.clear()

_cache = {}
def bond(n):
    if n not in _cache:
        p, cpn, ten, pf, mat = POOL[n]
        _cache[n] = of(n, "cls")(price=p, coupon_rate=cpn, principal=of(n, "principal"), tenor=ten, payment_frequency=pf, purchase_date=PURCH, maturity_date=mat, settlement_convention=of(n, "sc"),
                                 day_count_convention=of(n, "dcc"), business_day_adjustment=of(n, "adj"), holiday_calendar=US_FEDERAL_HOLIDAYS if of(n, "us") else {})
    return _cache[n]

_bd = _wd = None
def flows(n):
    """(payment date, amount per 100 of principal) the buyer at REFD receives, from first principles: independent of the code."""
    global _bd, _wd
    if _bd is None:
        _bd = Ref(ref_holidays(1994, 2054), date(1994, 6, 1), date(2054, 6, 1))
        _wd = Ref(set(), date(1994, 6, 1), date(2054, 6, 1))
    k_ = _bd if of(n, "us") else _wd
    def pay(d):
        f = k_.add(d, 0)
        return k_.before_or_on(d) if of(n, "adj") is BDA.MODIFIED_FOLLOWING and f.month != d.month else f
    p, cpn, ten, pf, mat = POOL[n]
    from checks.c03 import add_months
    settle = k_.add(REFD, SETTLE[of(n, "sc")])
    out = [(pay(mat), 100.0)]
    if pf is not PF.ZERO_COUPON:
        step = 12 // pf.value
        life = int(ten[:-1]) * (12 if ten[-1] == 'Y' else 1)
        for k in range(life // step):
            u = add_months(mat, -step * k)
            if u >= settle:
                out.append((pay(u), cpn / pf.value))
    return out

def knot(n):
    return max(d for d, _ in flows(n))

def yld(method, knots, d):
    xs = [tau(k) for k, _ in knots]; ys = [v for _, v in knots]
    if d <= knots[0][0]: return ys[0]
    if d >= knots[-1][0]: return ys[-1]
    x = tau(d)
    if method is IM.LINEAR:
        return float(np.interp(x, xs, ys))
    if method is IM.PREVIOUS:
        return ys[max(i for i in range(len(xs)) if knots[i][0] <= d)]
    return spline(xs, ys, x, 3 if method is IM.CUBIC_SPLINE else 2)

def mypv(method, knots, n):
    return sum(a * math.exp(-yld(method, knots, d) * tau(d)) for d, a in flows(n))

def check(ctx, curve, method, names, key, tol=2e-7):
    knots = [(k.knot, float(k.value)) for k in curve.interpolation_values]
    if not ctx.expect([k for k, _ in knots] == sorted(knot(n) for n in names), key, f"knots {[str(k) for k, _ in knots]}"):
        return None
    for n in names:
        mine = mypv(method, knots, n)
        ctx.expect(abs(mine - POOL[n][0]) < tol, f"{key}|reprice|{n}", f"{n} reprices at {mine}, quoted {POOL[n][0]} (knots {knots})")
        ok, pv = ctx.call(f"{key}|pv|{n}", curve.present_value, bond(n))
        ctx.step()
        if ok:
            pv = pv * 100 / of(n, "principal")
            ctx.expect(abs(pv - POOL[n][0]) < tol, f"{key}|pv|{n}", f"curve values {n} at {pv}, quoted {POOL[n][0]}")
    return knots

def snap(b):
    """Everything about a bond a user can see."""
    plain = {k: v for k, v in sorted(vars(b).items()) if isinstance(v, (int, float, str, date, PF, C)) or v is None}
    return (tuple(plain.items()), tuple((str(k), tuple((p.payment_date, p.unadjusted_payment_date, p.payment) for p in b[k])) for k in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT)),
            b.accrued_interest, b.full_price, b.yield_to_maturity())

def run_one(ctx, item, f=None, kept=None):
    kind, method, names, form = item
    f = f or YieldCurveFactory()
    key = f"{kind}|{method.name}|{','.join(names)}|{form}"
    bonds = [bond(n) for n in names]
    arg = bonds if form == "list" else (b for b in bonds) if form == "generator" else tuple(bonds)
    fn = {"solve": f.construct_yield_curve, "bootstrap": f.bootstrap_yield_curve, "ytm": f.construct_curve_from_yield_to_maturities}[kind]
    ok, cv = ctx.call(key, fn, arg, method, REFD)
    ctx.step(); ctx.state(key); ctx.trace()
    if form == "list":
        ctx.expect(len(arg) == len(names) and all(a is bond(n) for a, n in zip(arg, names)), f"{key}|arg", "the caller's list of bonds was rearranged")
    if not ok:
        return
    if kept is not None:
        kept.append((cv, [(k.knot, float(k.value)) for k in cv.interpolation_values], float(cv(REFD + timedelta(200)))))
    if kind == "ytm":
        for n in names:
            # the curve's value at the maturity discounts the bond's payments back to its full price
            y = float(cv(knot(n)))
            p, cpn, ten, pf, mat = POOL[n]
            m = pf.value or 2
            if pf is PF.ZERO_COUPON:
                pv = sum(a / (1 + y / m) ** (m * tau(d)) for d, a in flows(n))
                want = p
            else:
                pv = sum(a / (1 + y / m) ** (m * tau(d)) for d, a in flows(n))
                from checks.c03 import add_months
                settle = _bd.add(REFD, 1)
                step = 12 // m
                k = 0
                while add_months(mat, -step * k) >= settle: k += 1
                lo, hi = add_months(mat, -step * k), add_months(mat, -step * (k - 1))
                want = p + cpn / m * float((clock(settle) - clock(lo)) / (clock(hi) - clock(lo)))
            ctx.expect(abs(pv - want) < 1e-5, f"{key}|{n}", f"value {y} at the maturity of {n} discounts it to {pv}, full price {want}")
        return
    knots = check(ctx, cv, method, names, key)
    if knots:
        ctx.outcome((kind, method, tuple(sorted(names)), tuple(round(v, 6) for _, v in knots)))
        # order independence is judged through uniqueness: knots of the sorted order
        ref_key = (method, tuple(sorted(names)))
        ctx.counters.setdefault("solved", 0); ctx.counters["solved"] += 1
        _results.append((kind, method.name, tuple(sorted(names)), names, form, tuple(v for _, v in knots)))
        _check_order(ctx)

_results = []
LOCAL = (IM.LINEAR, IM.PREVIOUS)     # bootstrapping fixes knots from the left, so it needs values that do not depend on later knots
def _check_order(ctx):
    pass

def group(ctx, item):
    """All orders of one subset under one method, solved and (for local interpolation) bootstrapped."""
    method, names, full = item
    _results.clear()
    perms = list(itertools.permutations(names)) if full else [names, names[::-1], names[1:] + names[:1]]
    before = {n: snap(bond(n)) for n in names}
    f, kept = YieldCurveFactory(), []        # one factory serves the whole group; the curves stay in use
    for i, p in enumerate(perms):
        run_one(ctx, ("solve", method, p, ("list", "generator", "tuple")[i % 3]), f, kept)
        if method in LOCAL:
            run_one(ctx, ("bootstrap", method, p, ("generator", "list", "tuple")[i % 3]), f, kept)
        run_one(ctx, ("ytm", method, p, ("tuple", "list", "generator")[i % 3]), f, kept)
    for n in names:
        ctx.expect(snap(bond(n)) == before[n], f"bond|{method.name}|{names}|{n}", f"calibrating changed the bond {n}")
    for i, (cv, knots, v) in enumerate(kept):
        got = [(k.knot, float(k.value)) for k in cv.interpolation_values]
        ctx.expect(got == knots and float(cv(REFD + timedelta(200))) == v, f"kept|{method.name}|{names}|{i}", f"a curve calibrated earlier now has knots {got}, had {knots}")
    if _results:
        r0 = _results[0]
        for r in _results[1:]:
            if len(r[5]) == len(r0[5]):
                d = max(abs(a - b) for a, b in zip(r[5], r0[5]))
                ctx.expect(d < 1e-7, f"order|{method.name}|{r0[0]}:{r0[3]}|{r[0]}:{r[3]}", f"calibrating in another order or way moves a knot by {d}")

def elsewhen(ctx, item):
    """The same quotes as of other reference dates (just before, on and after a coupon date, a year end, a leap day),
    the bonds bought before, on or after that date."""
    refd, back, method, names = item
    try:
        moved(refd, refd - timedelta(back))
        f, key = YieldCurveFactory(), f"elsewhen|{refd}|{back}|"
        for nm, fn in (("solve", f.construct_yield_curve), ("bootstrap", f.bootstrap_yield_curve)):
            if nm == "bootstrap" and method not in LOCAL: continue
            k = f"{key}{nm}|{method.name}|{names}"
            ok, cv = ctx.call(k, fn, [bond(n) for n in names], method, refd)
            ctx.step(); ctx.state(k); ctx.trace()
            if ok:
                check(ctx, cv, method, names, k)
    finally:
        moved(date(2023, 2, 27), date(2023, 2, 27))

def many(ctx, item):
    """As many bonds as a real curve has, and distressed or negatively yielding ones, in one calibration."""
    _results.clear()
    method, names, turn = item
    order = names[turn:] + names[:turn]
    kept = []
    for i, (kind, p) in enumerate((("solve", order), ("bootstrap", order[::-1]), ("ytm", order))):
        if kind == "bootstrap" and method not in LOCAL: continue
        run_one(ctx, (kind, method, p, ("list", "generator", "tuple")[i]), None, kept)
    for r in _results[1:]:
        d = max((abs(a - b) for a, b in zip(r[5], _results[0][5])), default=0)
        ctx.expect(d < 1e-7, f"many|{method.name}|{order}", f"calibrating in another way moves a knot by {d}")

def terms(ctx, item):
    """Bonds of every principal, settlement convention, adjustment, calendar, day count and kind, alone and mixed in one calibration."""
    method, names = item
    f, kept = YieldCurveFactory(), []
    before = {n: snap(bond(n)) for n in names}
    for kind in ("solve", "bootstrap", "solve"):
        if kind == "bootstrap" and method not in LOCAL: continue
        run_one(ctx, (kind, method, names, "list"), f, kept)
    for n in names: ctx.expect(snap(bond(n)) == before[n], f"bond|{method.name}|{names}|{n}", f"calibrating changed the bond {n}")
    for i, (cv, knots, v) in enumerate(kept):
        got = [(k.knot, float(k.value)) for k in cv.interpolation_values]
        ctx.expect(got == knots and float(cv(REFD + timedelta(200))) == v, f"kept|{method.name}|{names}|{i}", f"a curve calibrated earlier now has knots {got}, had {knots}")

def requotes(ctx, item):
    """One factory calibrates a set, then the set with one quote, coupon or date changed, then the first again: each curve fits its own quotes."""
    method, names, kind, i, other = item
    global POOL
    f, old = YieldCurveFactory(), POOL[names[i]]
    news = {"price": (old[0] - 0.85,) + old[1:], "coupon": (old[0], old[1] + 0.5) + old[2:], "requote": (old[0] + 0.6,) + old[1:]}
    try:
        for turn in range(3):
            if other == "date":
                moved(date(2023, 2, 27) + timedelta(turn % 2), date(2023, 2, 27) + timedelta(turn % 2))
            elif other == "requote":               # the quote of the very same bond object moves
                b = bond(names[i]); POOL[names[i]] = news[other] if turn == 1 else old; b.price = POOL[names[i]][0]
            else:
                POOL[names[i]] = news[other] if turn == 1 else old; _cache.clear()
            key = f"requotes|{kind}|{method.name}|{names}|{other}{i}|{turn}"
            ctx.step(); ctx.state(key); ctx.trace()
            ok, cv = ctx.call(key, f.construct_yield_curve if kind == "solve" else f.bootstrap_yield_curve, [bond(n) for n in names], method, REFD)
            if ok: check(ctx, cv, method, names, key)
    finally:
        POOL[names[i]] = old; moved(date(2023, 2, 27), date(2023, 2, 27))

def flat(ctx, item):
    """Zero-coupon quotes generated from a flat continuously compounded yield give back a flat curve."""
    y, method, mats = item
    bs = [UsTreasuryBond(price=100 * math.exp(-y * tau(_adj(m))), coupon_rate=0.0, principal=100, tenor='1Y', payment_frequency=PF.ZERO_COUPON, purchase_date=REFD, maturity_date=m) for m in mats]
    for order in (bs, bs[::-1]):
        key = f"flat|{y}|{method.name}|{[str(m) for m in mats]}|{order is bs}"
        for nm in ("solve", "bootstrap"):
            if nm == "bootstrap" and method is not IM.LINEAR:
                continue
            fn = YieldCurveFactory().construct_yield_curve if nm == "solve" else YieldCurveFactory().bootstrap_yield_curve
            ok, cv = ctx.call(key + nm, fn, order, method, REFD)
            ctx.step(); ctx.state(key + nm); ctx.trace()
            if ok:
                for j in range(0, 800, 9):
                    v = float(cv(REFD + timedelta(j)))
                    ctx.expect(abs(v - y) < 1e-7, f"{key}{nm}|{j}", f"flat {y} curve gives {v} after {j} days")

def _adj(m):
    flows("z1m")
    return _bd.add(m, 0)

def work_item(ctx, item):
    globals()[item[0]](ctx, item[1])

def run(ctx):
    clock(date(2000, 1, 1)); flows("z1m")
    names = list(SMALL)
    items = []
    lo = {IM.LINEAR: 2, IM.PREVIOUS: 2, IM.QUADRATIC_SPLINE: 3, IM.CUBIC_SPLINE: 4}
    for m in (IM.LINEAR, IM.PREVIOUS, IM.QUADRATIC_SPLINE, IM.CUBIC_SPLINE):
        for r in range(lo[m], 5 if ctx.thorough else max(lo[m], 3) + 1):
            for sub in itertools.combinations(names, r):
                if not ctx.thorough and r > lo[m] and r > 2 and names.index(sub[0]) > 0:
                    continue
                items.append((m, sub, ctx.thorough or r <= 2))
    items.sort(key=lambda it: -len(it[1]))
    ctx.bound("pool", list(POOL)); ctx.bound("calibration_sets", len(items))
    work = [("group", it) for it in items]
    sets = [MANY[:k] for k in ((8, 10, 12) if ctx.thorough else (9,))] + [("z6m", "c9m", "d2y", "d4y"), ("z1m", "c1y", "c3y", "r5y"), ("z6m", "c1y", "d2y", "r5y")] + [MANY + ("d4y",)] * ctx.thorough
    todo = [(m, s, k) for s in sets[::-1] for m in (IM.LINEAR, IM.PREVIOUS, IM.CUBIC_SPLINE) for k in ((0, 3, 5) if ctx.thorough else (3,))]
    for m in (IM.LINEAR, IM.CUBIC_SPLINE) if ctx.thorough else (): todo[:0] = (m, LONG, 4), (m, ("z3m", "c1y", "c2y", "c3y", "b10", "b30"), 2)
    todo[:0] = (IM.LINEAR, LONG[1::3], 1), (IM.LINEAR, ("z3m", "c1y", "b30"), 1)
    todo += [(m, s, 2) for s in FAR for m in (IM.LINEAR, IM.PREVIOUS, IM.CUBIC_SPLINE) if ctx.thorough or (m is IM.LINEAR) == (s is FAR[0])]
    work[:0] = [("many", it) for it in todo]
    ctx.bound("largest_calibrations", [len(s) for s in sets])
    when = [date(2022, 12, 30), date(2023, 1, 3), date(2023, 2, 14), date(2023, 2, 24), date(2023, 2, 28)]
    work += [("elsewhen", it) for it in [(d, back, m, ns) for d in when for back in ((0, 20, -1) if ctx.thorough else (0, 20)) for m, ns in
                        ((IM.LINEAR, ("c18m", "z1m", "c9m")), (IM.LINEAR, ("c1y", "c15m", "z6m")), (IM.PREVIOUS, ("c15m", "z6m", "c9m")), (IM.CUBIC_SPLINE, ("c1y", "c9m", "z6m", "c18m")))]]
    ctx.bound("reference_dates", [str(d) for d in when])
    sets = [tuple(f"{n}@{k}" for n in ("z6m", "c9m", "c18m")) for k in OTHER] + [("z1m@m", "c9m", "c15m@f", "c18m@3", "c2y@w"), ("z6m@c", "c9m@k", "c1y@a", "c15m@0"), ("z6m@w", "c15m@d", "c18m@t", "c21m@m")]
    work += [("terms", (m, s)) for s in sets for m in (IM.LINEAR, IM.PREVIOUS, IM.QUADRATIC_SPLINE) if ctx.thorough or m is not IM.PREVIOUS or len(s) > 3]
    ctx.bound("terms", "principal, settlement, adjustment, calendar, day count and kind of the bonds")
    work += [("requotes", (m, ns, k, i, o)) for ns in (("z6m", "c9m", "c18m"), ("c9m", "c15m@k", "z1m")) for i in range(3) for o in ("price", "requote", "date") + (("coupon",) if POOL[ns[i]][1] else ()) for m in (IM.LINEAR, IM.PREVIOUS) for k in ("solve", "bootstrap")
             if (o != "date" or i == 0) and (ctx.thorough or m is IM.LINEAR)]
    ctx.bound("requotes", "three calibrations by one factory, a quote, coupon or date changed in the second")
    mats = [date(2023, 8, 28), date(2024, 2, 28), date(2024, 8, 31), date(2025, 3, 1)]
    work += [("flat", it) for it in [(y, m, tuple(mats[:k])) for y in (0.0, 0.03, -0.01) for m, k in ((IM.LINEAR, 2), (IM.LINEAR, 4), (IM.QUADRATIC_SPLINE, 3), (IM.CUBIC_SPLINE, 4))]]
    ctx.pmap(work_item, work)
    ctx.assume("prices in the pool are arbitrage-plausible, so the calibration equations have the unique solution near zero yields")
    ctx.sample("bootstrap LINEAR of (c18m, z1m, c1y) given as a generator")
