"""C11: bond payment schedules. Every maturity day of a leap-year window x every frequency/tenor x adjustment x calendar."""
from datetime import date, timedelta
from fixedIncome.src.assets.base_cashflow import CashflowKeys as K
from checks.bonds import *

SHAPES = [(PF.ANNUAL, '1Y'), (PF.ANNUAL, '3Y'), (PF.SEMI_ANNUAL, '6M'), (PF.SEMI_ANNUAL, '2Y'), (PF.SEMI_ANNUAL, '18M'), (PF.SEMI_ANNUAL, '5Y'),
          (PF.QUARTERLY, '9M'), (PF.QUARTERLY, '1Y'), (PF.QUARTERLY, '2Y'), (PF.ZERO_COUPON, '1Y'), (PF.ZERO_COUPON, '3M')]

LONG = [(PF.SEMI_ANNUAL, '30Y'), (PF.QUARTERLY, '30Y'), (PF.ANNUAL, '20Y'), (PF.SEMI_ANNUAL, '10Y'), (PF.QUARTERLY, '7Y'), (PF.SEMI_ANNUAL, '120M'), (PF.ANNUAL, '24M'),
        (PF.QUARTERLY, '36M'), (PF.SEMI_ANNUAL, '9M'), (PF.ANNUAL, '18M'), (PF.QUARTERLY, '7M'), (PF.SEMI_ANNUAL, '1M'), (PF.ZERO_COUPON, '30Y')]
MONEY = [(101.25, 4.5, 1000), (55.0, 0.0, 100), (99.0, 12.5, 1_000_000), (100.0, -0.25, 250)]

def month(ctx, item):
    y, mth, shapes = item
    d = date(y, mth, 1)
    while d.month == mth:
        for i, (pf, ten) in enumerate(shapes):
            if shapes == LONG and d.day not in (1, 15, 28) and (d + timedelta(1)).month == mth: continue
            price, cpn, principal = MONEY[(i + d.day) % 4] if shapes == LONG else MONEY[0]
            for adj in (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING):
                for us in (True, False):
                    for cls in CLASSES if ctx.thorough or (us and shapes != LONG) else CLASSES[(d.day + i) % 2:][:1]:
                        rb = RBond(price, cpn, principal, ten, d, pf, adj=adj, us=us)
                        key = f"{cls.__name__}|{d}|{pf.name}|{ten}|{adj.name}|{'US' if us else 'weekends'}"
                        ok, b = ctx.call(key, rb.make, cls, d - timedelta(25))
                        ctx.step()
                        if not ok:
                            continue
                        ctx.state(key); ctx.trace()
                        cp = [(p.unadjusted_payment_date, p.payment_date, p.payment) for p in b[K.COUPON_PAYMENTS]]
                        want = [(u, rb.pay(u), rb.amount) for u in rb.unadj]
                        ctx.expect(len(cp) == len(want) and all(a[:2] == w[:2] and abs(a[2] - w[2]) < 1e-12 * principal for a, w in zip(cp, want)), key + "|coupons", f"coupons {cp}, want {want}")
                        pr = [(p.unadjusted_payment_date, p.payment_date, float(p.payment)) for p in b[K.SINGLE_PAYMENT]]
                        ctx.expect(pr == [(d, rb.pay(d), float(principal))], key + "|principal", f"principal {pr}, want {(d, rb.pay(d))}")
                        ctx.expect(b.dated_date == rb.dated, key + "|dated", f"dated date {b.dated_date}, want {rb.dated}")
                        kn = b.to_knot_value_pair()
                        ctx.expect(kn.knot == rb.pay(d) and kn.value == price, key + "|knot", f"knot {kn}")
                        ctx.outcome(((rb.pay(d) - d).days, len(cp), pf))
        d += timedelta(1)

def run(ctx):
    cal(True); cal(False)
    years = (2023, 2024, 2025, 2026) if ctx.thorough else (2024, 2025)
    ctx.bound("maturities", f"every day of {years}"); ctx.bound("shapes", [(p.name, t) for p, t in SHAPES])
    far = (1999, 2000, 2023, 2024, 2052, 2060) if ctx.thorough else (2000, 2024, 2052)
    ctx.bound("long_shapes", [(p.name, t) for p, t in LONG]); ctx.bound("long_maturities", f"1st, 15th, 28th and last day of every month of {far}")
    ctx.pmap(month, [(y, m, LONG) for y in far for m in range(1, 13)] + [(y, m, SHAPES) for y in years for m in range(1, 13)])
    ctx.sample("semi-annual 18M bond maturing 2024-08-31: coupons due 2023-08-31, 2024-02-29, 2024-08-31")
