"""C13: yields, durations and convexity of bonds: every reference date of a life x price x convention, histories of queries."""
from datetime import date, timedelta
import itertools
import numpy as np
from fixedIncome.src.assets.base_cashflow import CashflowKeys as K
from checks.bonds import *

SHAPES = [(PF.SEMI_ANNUAL, '2Y', date(2025, 2, 28), 5.0), (PF.QUARTERLY, '1Y', date(2024, 8, 31), 3.0), (PF.ANNUAL, '3Y', date(2026, 2, 15), 0.0),
          (PF.ANNUAL, '5Y', date(2026, 12, 31), 7.25), (PF.ZERO_COUPON, '1Y', date(2024, 11, 16), 0.0), (PF.SEMI_ANNUAL, '10Y', date(2031, 5, 15), 1.125)]

FAR = [(PF.SEMI_ANNUAL, '30Y', date(2052, 8, 31), 2.25), (PF.QUARTERLY, '5Y', date(2028, 12, 31), 9.0), (PF.ANNUAL, '10Y', date(2033, 10, 8), 0.0), (PF.ZERO_COUPON, '20Y', date(2041, 7, 5), 0.0)]
SCS = (SC.T_PLUS_ZERO_BUSINESS, SC.T_PLUS_TWO_BUSINESS, SC.T_PLUS_THREE_BUSINESS, SC.T_PLUS_ONE_BUSINESS)
STD = (SC.T_PLUS_ONE_BUSINESS, BDA.FOLLOWING, True, False)

def rel(a, b, tol):
    return abs(float(a) - b) <= tol * max(1.0, abs(b))

def queries(rb, b, d, is_corp):
    """name -> (call, oracle, tolerance) for one bond object bought on its purchase date P, asked about d."""
    P = b.purchase_date
    y0 = rb.ytm(P)
    full0 = rb.full(P) * rb.principal / 100
    q = {
        "ytm": (lambda: b.yield_to_maturity(), y0, 2e-7),
        "ytm@d": (lambda: b.yield_to_maturity(d), rb.ytm(d), 2e-7),
        "pv4": (lambda: b.discount_cashflows_by_fixed_rate(0.04), rb.pv(0.04, P), 1e-10),
        "pv@d": (lambda: b.discount_cashflows_by_fixed_rate(-0.01, d), rb.pv(-0.01, d), 1e-10),
        "pvytm": (lambda: b.discount_cashflows_by_fixed_rate(b.yield_to_maturity(d), d), rb.full(d) * rb.principal / 100, 1e-6),
        "duration": (lambda: b.duration(), -rb.dpv(y0, P) / full0, 2e-6),
        "convexity": (lambda: b.convexity(), rb.d2pv(y0, P) / full0, 2e-3),
        "pvderiv": (lambda: b.pv_deriv(), rb.dpv(y0, P), 2e-6),
        "pvderiv+": (lambda: b.pv_deriv(0.01, 0.03), rb.dpv(0.04, P), 2e-6),
        "pvderiv0": (lambda: b.pv_deriv(0.0, 0.0), rb.dpv(0.0, P), 2e-6),
        "pv0": (lambda: b.discount_cashflows_by_fixed_rate(np.array([0.0]), d), rb.pv(0.0, d), 1e-10),
        "full": (lambda: b.get_full_price(), rb.full(P), 1e-10),
        "full@d": (lambda: b.get_full_price(d), rb.full(d), 1e-10),
    }
    if is_corp:
        q["mac"] = (lambda: b.macaulay_duration(y0), rb.mac(y0, P) / full0, 1e-7)
        q["mac0"] = (lambda: b.macaulay_duration(0.0), rb.mac(0.0, P) / full0, 1e-9)
        q["mac@d"] = (lambda: b.macaulay_duration(0.03, d), rb.mac(0.03, d) / (rb.full(d) * rb.principal / 100), 1e-9)
    return q

def sweep(ctx, item):
    (pf, ten, mat, cpn), price, cls, principal, dcc, (sc, adj, us, few) = item
    rb = RBond(price, cpn, principal, ten, mat, pf, sc, dcc, adj, us)
    P = rb.dated + timedelta(37)
    tag = f"{cls.__name__}|{pf.name}|{ten}|{mat}|{price}|{principal}|{dcc.name}|{sc.name}|{adj.name}|{us}"
    b = rb.make(cls, P)
    full = range((mat - rb.dated).days)
    days = [n for n in full if rb.accrued(rb.dated + timedelta(n)) is not None]
    # every day around coupon dates, every 7th (thorough: every) day otherwise; yields of bonds about to expire are ill-conditioned
    grid = {(u - rb.dated).days + j for u in rb.unadj for j in (range(-4, 4) if ctx.thorough else (-2, -1, 0))}
    step = 7 if ctx.thorough else 67
    if few: grid, step = set(days[len(days) // 2:][:2]), max(1, len(days) // (40 if ctx.thorough else 5))
    for n in days:
        if not (n % step == 0 or n in grid):
            continue
        d = rb.dated + timedelta(n)
        if (mat - d).days < 20:
            continue
        for nm, (fn, want, tol) in queries(rb, b, d, cls is FixedRateBond).items():
            if "@d" not in nm and nm not in ("pvytm", "pv0"):
                continue
            key = f"{tag}|{d}|{nm}"
            ctx.step(); ctx.state(key)
            ok, v = ctx.call(key, fn)
            if ok: ctx.expect(rel(v, want, tol), key, f"{nm}: got {v}, want {want}")
        fresh_ok, fb = ctx.call(f"{tag}|{d}|fresh", rb.make, cls, d)
        ctx.trace()
        if fresh_ok:
            for nm, (fn, want, tol) in queries(rb, fb, d, cls is FixedRateBond).items():
                if "@d" in nm or nm == "pv0": continue
                key = f"{tag}|{d}|fresh|{nm}"
                ctx.step()
                ok, v = ctx.call(key, fn)
                if ok:
                    ctx.expect(rel(v, want, tol), key, f"{nm}: got {v}, want {want}")
            y = rb.ytm(d)
            ctx.outcome((tag, round(y, 4)))
            if cls is FixedRateBond:   # discounted weights of the Macaulay duration add up to one at the yield: D_mod = D_mac/(1+y/m)
                ok, v = ctx.call(f"{tag}|{d}|mod", lambda: fb.duration() * (1 + y / rb.m) - fb.macaulay_duration(y))
                if ok: ctx.expect(abs(v) < 1e-5, f"{tag}|{d}|mod", f"duration x (1+y/m) - macaulay = {v}")

def history(ctx, item):
    """All sequences of queries up to a depth on one object: every answer as on a fresh one."""
    (pf, ten, mat, cpn), cls, first = item
    rb = RBond(98.75, cpn, 100, ten, mat, pf)
    P, d = rb.dated + timedelta(37), rb.dated + timedelta(220 if months(ten) > 9 else 100)
    names = list(queries(rb, rb.make(cls, P), d, cls is FixedRateBond))
    if first not in names:
        return
    q0 = None
    depth = 3 if ctx.thorough else 2
    for seq in itertools.product(names, repeat=depth - 1):
        b = rb.make(cls, P)
        q0 = queries(rb, b, d, cls is FixedRateBond) if q0 is None else {k: (v[0], q0[k][1], v[2]) for k, v in _rebind(rb, b, d, cls, q0).items()}
        key = f"history|{cls.__name__}|{pf.name}|{ten}|{(first,) + seq}"
        ctx.trace(); ctx.state(key)
        for n in (first,) + seq:
            fn, want, tol = q0[n]
            ctx.step()
            ok, v = ctx.call(key, fn)
            if ok: ctx.expect(rel(v, want, tol), key, f"{n}: got {v}, want {want}")

def _rebind(rb, b, d, cls, old):
    f = {"ytm": lambda: b.yield_to_maturity(), "ytm@d": lambda: b.yield_to_maturity(d), "pv4": lambda: b.discount_cashflows_by_fixed_rate(0.04),
         "pv@d": lambda: b.discount_cashflows_by_fixed_rate(-0.01, d), "pvytm": lambda: b.discount_cashflows_by_fixed_rate(b.yield_to_maturity(d), d),
         "duration": lambda: b.duration(), "convexity": lambda: b.convexity(), "pvderiv": lambda: b.pv_deriv(), "pvderiv+": lambda: b.pv_deriv(0.01, 0.03),
         "pvderiv0": lambda: b.pv_deriv(0.0, 0.0), "pv0": lambda: b.discount_cashflows_by_fixed_rate(np.array([0.0]), d), "mac0": lambda: b.macaulay_duration(0.0),
         "full": lambda: b.get_full_price(), "full@d": lambda: b.get_full_price(d), "mac": lambda: b.macaulay_duration(old["ytm"][1]), "mac@d": lambda: b.macaulay_duration(0.03, d)}
    return {k: (f[k], v[1], v[2]) for k, v in old.items()}

def twins(ctx, item):
    """Bonds that differ in one term, asked alternately: each has its own yield, duration and convexity; a changed quote moves its yield."""
    cls, base, P, part = item
    vs = variants(base)
    d = P + timedelta(43)
    objs = [r.make(cls, P) for _, r in vs]
    qs = [queries(r, b, d, cls is FixedRateBond) for (_, r), b in zip(vs, objs)]
    for i, j in ((i, j) for i in range(len(vs)) for j in range(len(vs)) if i != j and (i == 0 or ctx.thorough) and (i + j) % 4 == part):
        key = f"twins|{cls.__name__}|{base.mat}|{base.pf.name}|{P}|{vs[i][0]}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x in (i, j, i):
            for nm, (fn, want, tol) in qs[x].items():
                ctx.step()
                ok, v = ctx.call(f"{key}|{nm}", fn)
                if ok: ctx.expect(rel(v, want, tol), f"{key}|{nm}", f"{vs[x][0]}: {nm} {v}, want {want}")
    if cls is CLASSES[0] and not part:
        for i, (what, r) in enumerate(vs):
            for new in (93.5, 104.0, r.price):
                moved = RBond(new, r.coupon, r.principal, r.tenor, r.mat, r.pf, r.sc, r.dcc, r.adj, r.us)
                objs[i].price = new
                for x in (d, P):
                    ctx.step()
                    ok, v = ctx.call(f"requote|{what}|{new}|{x}", objs[i].yield_to_maturity, x)
                    if ok: ctx.expect(rel(v, moved.ytm(x), 2e-7), f"requote|{what}|{new}|{x}", f"yield {v} at a quote of {new}, want {moved.ytm(x)}")

def run(ctx):
    cal(True)
    items = []
    for i, sh in enumerate(SHAPES):
        for j, price in enumerate((100.0, 92.5, 108.0)):
            for cls in CLASSES:
                for k, principal in enumerate((100, 1000, 1_000_000)):
                    for m, dcc in enumerate((C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360, C.THIRTY_OVER_THREESIXTY)):
                        if ctx.thorough or (k, m) == (j % 3, (i + j) % 3) or (j == 0 and k == 1 and m == 0):
                            items.append((sh, price, cls, principal, dcc))
    items = [it + (STD,) for it in items]
    for i, sh in enumerate(FAR):             # distressed, precious and long bonds, on every settlement convention
        for j, price in enumerate((38.0, 71.0, 100.0, 165.0)):
            for cls in CLASSES:
                for k in range(4) if ctx.thorough else ((i + j) % 4,):
                    items.append((sh, price, cls, (100, 1_000_000)[(i + j) % 2], (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_365)[k % 2], (SCS[k], (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING)[(j + k) % 2], (i + j) % 3 != 0, True)))
    items.sort(key=lambda it: -len(it[0][1]))
    ctx.bound("far_bonds", [(p.name, t, str(m), c) for p, t, m, c in FAR]); ctx.bound("prices", [38, 71, 92.5, 100, 108, 165])
    ctx.bound("bonds", [(p.name, t, str(m), c) for p, t, m, c in SHAPES]); ctx.bound("configurations", len(items)); ctx.bound("history_depth", 3 if ctx.thorough else 2)
    ctx.pmap(sweep, items)
    names = ["ytm", "ytm@d", "pv4", "pv@d", "pvytm", "duration", "convexity", "pvderiv", "pvderiv+", "pvderiv0", "pv0", "full", "full@d", "mac", "mac0", "mac@d"]
    ctx.pmap(history, [(sh, cls, n) for sh in SHAPES[:4:3] for cls in CLASSES for n in names])
    ctx.bound("twins", "a bond and 21 bonds that differ from it in one term, asked in turns")
    ctx.pmap(twins, [(cls, RBond(97.5, 6.0, 100, t, m, pf, sc, dcc, adj, us), P, part) for part in range(4) for cls in CLASSES for t, m, pf, sc, dcc, adj, us, P in (
        ("2Y", date(2025, 8, 31), PF.SEMI_ANNUAL, SC.T_PLUS_ONE_BUSINESS, C.ACTUAL_OVER_ACTUAL, BDA.FOLLOWING, True, date(2024, 6, 14)),
        ("2Y", date(2026, 1, 4), PF.QUARTERLY, SC.T_PLUS_TWO_BUSINESS, C.ACTUAL_OVER_360, BDA.MODIFIED_FOLLOWING, True, date(2024, 10, 11)))])
    ctx.assume("reference dates at least 20 days before maturity: the yield of an expiring bond is ill-conditioned")
    ctx.sample("2Y semi-annual 5% maturing 2025-02-28 at 92.5: yield, duration and convexity on 2024-08-28")
