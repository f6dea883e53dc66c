"""C12: accrued interest, invoice price and entitlement to payments on every purchase date of a bond's life."""
from datetime import date, timedelta
from fixedIncome.src.assets.base_cashflow import CashflowKeys as K
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair as KV
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod as IM, EndBehavior as EB
from checks.bonds import *

SHAPES = [(PF.SEMI_ANNUAL, '18M', date(2025, 2, 28)), (PF.QUARTERLY, '1Y', date(2024, 8, 31)), (PF.ANNUAL, '2Y', date(2025, 2, 15)),
          (PF.SEMI_ANNUAL, '1Y', date(2024, 7, 4)), (PF.SEMI_ANNUAL, '1Y', date(2025, 1, 1)), (PF.QUARTERLY, '9M', date(2024, 2, 29)),
          (PF.ZERO_COUPON, '1Y', date(2024, 11, 16)), (PF.SEMI_ANNUAL, '1Y', date(2024, 12, 31))]

def close(a, b):
    return abs(float(a) - b) < 1e-9 * max(1.0, abs(b))

def explore(ctx, item):
    (pf, ten, mat), sc, dcc, cls, adj, us = item
    rb = RBond(97.5, 6.0, 100, ten, mat, pf, sc, dcc, adj, us)
    big = RBond(97.5, 6.0, 1_000_000, ten, mat, pf, sc, dcc, adj, us)
    shared = rb.make(cls, rb.unadj[0] if rb.unadj else rb.dated + timedelta(40))
    bshared = big.make(cls, rb.dated + timedelta(17))
    s0 = (shared.accrued_interest, shared.full_price)
    tag = f"{cls.__name__}|{pf.name}|{ten}|{mat}|{sc.name}|{dcc.name}|{adj.name}|{'US' if us else 'weekends'}"
    d = rb.dated - timedelta(9)
    while d <= mat + timedelta(6):
        key = f"{tag}|{d}"
        want = rb.accrued(d)
        ctx.state(key); ctx.trace()
        for obj, r, nm in ((shared, rb, "shared"), (bshared, big, "big")):
            w = r.accrued(d)
            ctx.step(2)
            if w is None:
                for fn in (obj.calculate_accrued_interest, obj.get_full_price):
                    try:
                        v = fn(d)
                        ctx.violation(f"{key}|{nm}|refuse", f"settlement {r.settle(d)} lies outside the bond's life, but {fn.__name__} gave {v}")
                    except ValueError:
                        pass
                    except Exception as e:
                        ctx.violation(f"{key}|{nm}|refuse", f"{type(e).__name__}: {e}")
                continue
            ok, v = ctx.call(f"{key}|{nm}|accrued", obj.calculate_accrued_interest, d)
            if ok: ctx.expect(close(v, w), f"{key}|{nm}|accrued", f"accrued {v}, want {w} (settles {r.settle(d)})")
            ok, v = ctx.call(f"{key}|{nm}|full", obj.get_full_price, d)
            if ok: ctx.expect(close(v, r.full(d)), f"{key}|{nm}|full", f"full price {v}, want {r.full(d)}")
            ctx.outcome((pf, round(w / r.principal, 3)))
        # entitlement on the shared object and through a fresh object bought on d
        s = rb.settle(d)
        for p in list(shared[K.COUPON_PAYMENTS]) + list(shared[K.SINGLE_PAYMENT]):
            ok, v = ctx.call(f"{key}|received|{p.payment_date}", shared.is_payment_received, p, d)
            ctx.n_evals += 1
            if ok: ctx.expect(bool(v) == (p.unadjusted_payment_date >= s), f"{key}|received|{p.unadjusted_payment_date}", f"due {p.unadjusted_payment_date}, settled {s}: received={v}")
        crv = DiscountCurve([KV(d, 1.0), KV(d + timedelta(4000), 0.2)], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, d, EB.ERROR, EB.ERROR)
        ok, v = ctx.call(f"{key}|pv", shared.present_value, crv)
        w = sum(a * (1 - 0.8 * (p - d).days / 4000) for p, a in rb.flows(d))
        if ok: ctx.expect(close(v, w), f"{key}|pv", f"worth {v} to a buyer, want {w}")
        if want is None:
            try:
                rb.make(cls, d)
                ctx.violation(f"{key}|construct", f"a purchase settling {s} outside [{rb.dated}, {mat}] was accepted")
            except ValueError:
                pass
            except Exception as e:
                ctx.violation(f"{key}|construct", f"{type(e).__name__}: {e}")
        else:
            ok, b = ctx.call(f"{key}|construct", rb.make, cls, d)
            ctx.step()
            if ok:
                ctx.expect(b.settlement_date == s, f"{key}|settlement", f"settles {b.settlement_date}, want {s}")
                ctx.expect(close(b.accrued_interest, want) and close(b.full_price, rb.full(d)) and close(b.get_full_price(), rb.full(d)) and close(b.calculate_accrued_interest(), want),
                           f"{key}|fresh", f"accrued {b.accrued_interest}, full {b.full_price}; want {want}, {rb.full(d)}")
                got = [p.unadjusted_payment_date for p in b[K.COUPON_PAYMENTS] if b.is_payment_received(p)]
                ctx.expect(got == [u for u in rb.unadj if u >= s], f"{key}|fresh-received", f"{got}")
                if any(abs((u - d).days) <= 5 for u in (*rb.unadj, mat)):      # and about the days around its purchase
                    for e in (d - timedelta(2), d - timedelta(1), d, d + timedelta(1), d + timedelta(2), d + timedelta(4)):
                        w, se = rb.accrued(e), rb.settle(e)
                        got = [p.unadjusted_payment_date for k in (K.COUPON_PAYMENTS, K.SINGLE_PAYMENT) for p in b[k] if b.is_payment_received(p, e)]
                        ctx.expect(got == [u for u in (*rb.unadj, mat) if u >= se], f"{key}|asked {e}|received", f"bought {d}, asked {e}: entitled to {got}")
                        ctx.n_evals += 1
                        if w is None: continue
                        ok, v = ctx.call(f"{key}|asked {e}|accrued", b.calculate_accrued_interest, e)
                        if ok: ctx.expect(close(v, w), f"{key}|asked {e}|accrued", f"bought {d}, asked {e}: accrued {v}, want {w}")
                        ok, v = ctx.call(f"{key}|asked {e}|full", b.get_full_price, e)
                        if ok: ctx.expect(close(v, rb.full(e)), f"{key}|asked {e}|full", f"bought {d}, asked {e}: full price {v}, want {rb.full(e)}")
        d += timedelta(1)
    ctx.expect((shared.accrued_interest, shared.full_price) == s0, f"{tag}|history", "asking about other dates changed the bond's own accrued interest or full price")
    ctx.expect(close(shared.calculate_accrued_interest(), s0[0]) and close(shared.get_full_price(), s0[1]), f"{tag}|history2", "default queries changed after asking about other dates")

def twins(ctx, item):
    """Bonds that differ in one term, asked alternately about the same dates: each answers for itself; a changed price shows."""
    cls, base, P = item
    vs = variants(base)
    objs = [r.make(cls, P) for _, r in vs]
    ds = [P, P + timedelta(3), P + timedelta(40), base.unadj[1], base.unadj[1] - timedelta(1)]
    def ask(i, key):
        r, b = vs[i][1], objs[i]
        for d in ds:
            if r.accrued(d) is None: continue
            ctx.step()
            ok, v = ctx.call(f"{key}|{d}|accrued", b.calculate_accrued_interest, d)
            if ok: ctx.expect(close(v, r.accrued(d)), f"{key}|{d}|accrued", f"{vs[i][0]}: accrued {v}, want {r.accrued(d)}")
            ok, v = ctx.call(f"{key}|{d}|full", b.get_full_price, d)
            if ok: ctx.expect(close(v, r.full(d)), f"{key}|{d}|full", f"{vs[i][0]}: full price {v}, want {r.full(d)}")
            s = r.settle(d)
            got = [p.unadjusted_payment_date for p in b[K.COUPON_PAYMENTS] if b.is_payment_received(p, d)]
            ctx.expect(got == [u for u in r.unadj if u >= s], f"{key}|{d}|received", f"{vs[i][0]}: entitled to {got}")
            crv = DiscountCurve([KV(d, 1.0), KV(d + timedelta(4000), 0.2)], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, d, EB.ERROR, EB.ERROR)
            ok, v = ctx.call(f"{key}|{d}|pv", b.present_value, crv)
            w = sum(a * (1 - 0.8 * (p - d).days / 4000) for p, a in r.flows(d))
            if ok: ctx.expect(close(v, w), f"{key}|{d}|pv", f"{vs[i][0]}: worth {v}, want {w}")
        ctx.expect(close(b.accrued_interest, r.accrued(P)) and close(b.full_price, r.full(P)) and close(b.calculate_accrued_interest(), r.accrued(P)) and close(b.get_full_price(), r.full(P)) and b.settlement_date == r.settle(P),
                   f"{key}|own", f"{vs[i][0]}: own accrued {b.accrued_interest}, full {b.full_price}")
    for i, j in ((i, j) for i in range(len(vs)) for j in range(len(vs)) if i != j and (i == 0 or j == 0 or ctx.thorough)):
        key = f"twins|{cls.__name__}|{base.mat}|{base.pf.name}|{P}|{vs[i][0]}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x in (i, j, i): ask(x, key)
        ok, b = ctx.call(key, vs[j][1].make, cls, P)          # and one built after the other was asked
        if ok: ctx.expect(close(b.full_price, vs[j][1].full(P)) and b.settlement_date == vs[j][1].settle(P), f"{key}|built", f"{vs[j][0]}: full price {b.full_price}, want {vs[j][1].full(P)}")
    if cls is CLASSES[0]:                                     # the quoted price is a public attribute of the treasury
        for i, (what, r) in enumerate(vs):
            b = objs[i]
            for new in (93.5, 104.0, r.price):
                moved = RBond(new, r.coupon, r.principal, r.tenor, r.mat, r.pf, r.sc, r.dcc, r.adj, r.us)
                b.price = new
                for d in ds:
                    if moved.accrued(d) is None: continue
                    ctx.step()
                    ok, v = ctx.call(f"requote|{what}|{new}|{d}", b.get_full_price, d)
                    if ok: ctx.expect(close(v, moved.full(d)), f"requote|{what}|{new}|{d}", f"full price {v} at a quote of {new}, want {moved.full(d)}")
                ctx.expect(b.to_knot_value_pair().value == new, f"requote|{what}|{new}|knot", "the bond's knot does not show its quoted price")

def run(ctx):
    cal(True); cal(False)
    scs = [SC.T_PLUS_ZERO_BUSINESS, SC.T_PLUS_ONE_BUSINESS, SC.T_PLUS_TWO_BUSINESS, SC.T_PLUS_THREE_BUSINESS]
    items = []
    for i, sh in enumerate(SHAPES):
        for j, sc in enumerate(scs):
            for k, dcc in enumerate((C.ACTUAL_OVER_ACTUAL, C.THIRTY_OVER_THREESIXTY, C.ACTUAL_OVER_360, C.ACTUAL_OVER_365)):
                for cls in CLASSES:
                    if ctx.thorough or (k == 0) or (i + j) % 4 == k:
                        items.append((sh, sc, dcc, cls, BDA.MODIFIED_FOLLOWING if (i + j + k) % 2 else BDA.FOLLOWING, (i + 2 * j + k) % 3 != 0))
    ctx.bound("purchase_dates", "every day from 9 days before the dated date to 6 days after maturity")
    ctx.bound("bonds", [(p.name, t, str(m)) for p, t, m in SHAPES])
    ctx.pmap(explore, items)
    ctx.sample("18M semi-annual maturing Fri 2025-02-28, bought 2024-08-27, T+1: settles on the coupon date")
    tw = [(cls, RBond(97.5, 6.0, 100, t, m, pf, sc, dcc, adj, us), P) for cls in CLASSES for t, m, pf, sc, dcc, adj, us, P in (
        ("2Y", date(2025, 8, 31), PF.SEMI_ANNUAL, SC.T_PLUS_ONE_BUSINESS, C.ACTUAL_OVER_ACTUAL, BDA.FOLLOWING, True, date(2024, 6, 14)),
        ("2Y", date(2026, 1, 4), PF.QUARTERLY, SC.T_PLUS_TWO_BUSINESS, C.ACTUAL_OVER_360, BDA.MODIFIED_FOLLOWING, True, date(2024, 10, 11)))]
    ctx.bound("twins", "a bond and 21 bonds that differ from it in one term, asked in turns")
    ctx.pmap(twins, tw)
