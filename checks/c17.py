"""C17: portfolios. Every sequence (up to a size) of positions from a pool holding each kind of asset, judged by an independent
pricer; and every history of valuations, iterations, changes of holdings and risk mappings on shared objects."""
from datetime import date, timedelta
import itertools
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.assets.base_cashflow import ZeroCoupon
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair as KV
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod as IM, EndBehavior as EB
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentTime as PT
from dateutil.relativedelta import relativedelta as RD
from vlib.iters import interleaved
from checks.bonds import RBond, BDA, SC, PF, C, UsTreasuryBond, FixedRateBond, cal
from checks.c14 import RSwap, TermInterestRateSwap as Term
from checks.c15 import flows as swap_flows, RATES, DIR
from checks.c16 import dates as loan_dates, plan, level
import checks.c16 as L

REFD = date(2023, 12, 18)
MAT = date(2024, 11, 15)

def D(kind, ref, d):
    r = {"a": 0.05, "b": -0.02}[kind]
    return 1 - r * (d - ref).days / 365

def curve(kind, ref=REFD):
    far = ref + timedelta(3650 if kind == "a" else 3000)
    return DiscountCurve([KV(ref, 1.0), KV(far, D(kind, ref, far))], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, ref, EB.ERROR, EB.ERROR)

def pool():
    """name -> (asset, flows as of a reference date, knot date or None)"""
    out = {}
    for n, (d, p) in {"z1": (date(2024, 3, 29), 0.98), "z2": (MAT, 0.95)}.items():
        out[n] = (ZeroCoupon(d, p), (lambda ref, d=d: [(d, 1.0)] if d >= ref else []), d)
    rb = RBond(99.0, 5.0, 100, '2Y', MAT, PF.SEMI_ANNUAL)
    out["ust"] = (rb.make(UsTreasuryBond, REFD), rb.flows, rb.pay(MAT))
    rc = RBond(101.0, 6.5, 1000, '1Y', date(2024, 8, 31), PF.QUARTERLY)
    out["corp"] = (rc.make(FixedRateBond, REFD), rc.flows, rc.pay(rc.mat))
    rs = RSwap(REFD, tenor='9M', ff=PF.QUARTERLY, xf=PF.QUARTERLY)
    s = rs.make(Term, DIR.RECEIVER_FIXED, 0.05, 1000)
    s.generate_floating_leg_cashflow(RATES["saw"]); s.generate_fixed_leg_cashflow()
    sf = [(d, -a) for d, a in swap_flows(rs, Term, RATES["saw"], True, notional=1000)] + swap_flows(rs, Term, None, False, 0.05, 1000)
    out["swap"] = (s, lambda ref: [x for x in sf if x[0] >= ref], rs.end)
    org = date(2023, 12, 5)
    ln = Loan(250_000, 0.06, org, RD(years=1), C.THIRTY_OVER_THREESIXTY, PF.QUARTERLY, PT.START_OF_MONTH)
    w, _ = plan(loan_dates(org, "1Y", PF.QUARTERLY, PT.START_OF_MONTH), C.THIRTY_OVER_THREESIXTY, 0.06, level(org, "1Y", PF.QUARTERLY, C.THIRTY_OVER_THREESIXTY, 0.06), 0.0)
    out["loan"] = (ln, lambda ref: [(d, i + p) for d, i, p in w if d >= ref], None)
    return out

REFS = (REFD, date(2024, 2, 15), date(2024, 5, 16))

def twins(ctx, kind):
    """Pairs of assets that differ in one term only, held together in every combination of signs: each is valued as itself."""
    out = []        # (what differs, asset, flows as of a date); the first is the one the others vary from
    if kind in ("ust", "corp"):
        cls = UsTreasuryBond if kind == "ust" else FixedRateBond
        base = dict(price=99.0, coupon=5.0, principal=100, tenor="2Y", mat=MAT, pf=PF.SEMI_ANNUAL)
        for what, v in ((None, None), ("coupon", 4.0), ("coupon", 0.0), ("principal", 1000), ("pf", PF.QUARTERLY), ("pf", PF.ANNUAL), ("price", 101.5), ("mat", date(2024, 11, 17)), ("mat", date(2025, 11, 14)), ("tenor", "3Y"), ("adj", BDA.MODIFIED_FOLLOWING), ("mat", date(2024, 8, 31)), ("sc", SC.T_PLUS_ZERO_BUSINESS), ("us", False)):
            r = RBond(**{**base, **({what: v} if what else {})})
            out.append((what, r.make(cls, REFD), r.flows))
        r = RBond(**base)
        out.append(("purchase", r.make(cls, date(2023, 12, 12)), r.flows)); out.append(("equal", r.make(cls, REFD), r.flows))
    elif kind == "zero":
        for d, p in ((MAT, 0.95), (MAT, 0.9), (date(2024, 11, 18), 0.95), (MAT, 0.95)): out.append(((d, p), ZeroCoupon(d, p), lambda ref, d=d: [(d, 1.0)] if d >= ref else []))
    elif kind == "loan":
        org = date(2023, 12, 5)
        for rate, term, o, pf, pt, dcc, amt in ((0.06, "1Y", org, PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000), (0.03, "1Y", org, PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000),
                                           (0.06, "18M", org, PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000), (0.06, "1Y", date(2023, 11, 5), PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000),
                                           (0.06, "1Y", org, PF.MONTHLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000), (0.06, "1Y", org, PF.QUARTERLY, PT.END_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 250_000),
                                           (0.06, "1Y", org, PF.QUARTERLY, PT.START_OF_MONTH, C.ACTUAL_OVER_360, 250_000), (0.06, "1Y", org, PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 500_000)):
            w, _ = plan(loan_dates(o, term, pf, pt), dcc, rate, level(o, term, pf, dcc, rate), 0.0)
            out.append(((rate, term, o, pf.name, pt.name, dcc.name, amt), Loan(amt, rate, o, L.TERMS[term], dcc, pf, pt), lambda ref, w=w, k=amt / 250_000: [(d, k * (i + p)) for d, i, p in w if d >= ref]))
    else:
        for ff, fx, n, tenor, sign in ((PF.QUARTERLY, 0.05, 1000, "9M", 1), (PF.QUARTERLY, 0.03, 1000, "9M", 1), (PF.QUARTERLY, 0.05, 4000, "9M", 1), (PF.QUARTERLY, 0.05, 1000, "6M", 1), (PF.QUARTERLY, 0.05, 1000, "9M", -1), (PF.SEMI_ANNUAL, 0.05, 1000, "9M", 1)):
            for rate in ("saw", "neg"):
                rs = RSwap(REFD, tenor=tenor, ff=ff, xf=PF.QUARTERLY)
                s = rs.make(Term, DIR.RECEIVER_FIXED if sign > 0 else DIR.PAYER_FIXED, fx, n)
                s.generate_floating_leg_cashflow(RATES[rate]); s.generate_fixed_leg_cashflow()
                fl = [(d, -sign * a) for d, a in swap_flows(rs, Term, RATES[rate], True, notional=n)] + [(d, sign * a) for d, a in swap_flows(rs, Term, None, False, fx, n)]
                out.append(((ff.name, fx, n, tenor, sign, rate), s, lambda ref, fl=fl: [x for x in fl if x[0] >= ref]))
    P = {i: (a, f, None) for i, (_, a, f) in enumerate(out)}
    for i, j in itertools.permutations(range(len(out)), 2):
        key = f"twins|{kind}|{i}|{j}|{out[i][0]}|{out[j][0]}"
        ctx.state(key); ctx.trace()
        for q, r in ((1, -1), (2.0, 3.0), (-4, 1)):
            pf = Portfolio([PortfolioEntry(q, P[i][0]), PortfolioEntry(r, P[j][0])], 5.0)
            for ck in "ab":
                for ref in REFS:
                    ctx.step()
                    ok, v = ctx.call(key, pf.present_value, curve(ck, ref))
                    want = pv(P, ((q, i), (r, j)), 5.0, ck, ref)
                    if ok: ctx.expect(near(v, want), f"{key}|{q}|{r}|{ck}|{ref}", f"worth {v}, want {want}")

QTY = (-2.0, 0, 1, 3.5)
near = lambda a, b: abs(a - b) <= 1e-9 * max(1000.0, abs(b))

def pv(P, pos, cash, kind, ref):
    return cash + sum(q * sum(a * D(kind, ref, d) for d, a in P[n][1](ref)) for q, n in pos)

def linear(ctx, item):
    first, size = item
    P = pool()
    for rest in itertools.product(itertools.product(QTY, P), repeat=size - 1):
        pos = (first,) + rest
        for cash in (0.0, -50.25) if size < 3 else (100,):
            key = f"linear|{pos}|{cash}"
            entries = [PortfolioEntry(q, P[n][0]) for q, n in pos]
            pf = Portfolio(iter(entries), cash) if cash else Portfolio(iter(entries))        # holds no cash unless told
            ctx.state(key); ctx.trace()
            for kind in "ab":
                for ref in (REFD, date(2024, 2, 15), date(2024, 5, 16)) if size < 3 else (REFD,):
                    ctx.step()
                    ok, v = ctx.call(key, pf.present_value, curve(kind, ref))
                    want = pv(P, pos, cash, kind, ref)
                    if ok: ctx.expect(near(v, want), f"{key}|{kind}|{ref}", f"worth {v}, want {want}")
            if all(P[n][2] for _, n in pos):
                ok, kr = ctx.call(key, pf.to_key_rate_collection, C.ACTUAL_OVER_ACTUAL)
                if ok:
                    got = [k.key_rate_date for k in kr]
                    ctx.expect(got == sorted({P[n][2] for _, n in pos}), key + "|keyrates", f"key rates {got}, want {sorted({P[n][2] for _, n in pos})}")
                    ctx.expect(all(k.day_count_convention is C.ACTUAL_OVER_ACTUAL for k in kr), key + "|dcc")
                    ctx.expect(all(abs(kr(d) - 1e-4) < 1e-15 for d in (REFD, MAT, date(2024, 6, 3))), key + "|parallel", "the key rates of a portfolio do not add up to a parallel bump")

def history(ctx, item):
    first, depth = item
    P = pool()
    acts = ["pv a", "pv b", "iter", "next", "add ust", "add z1", "cash", "kr", "break", "del"]
    for seq in itertools.product(acts, repeat=depth - 1):
        seq = (first,) + seq
        key = f"history|{seq}"
        given = [PortfolioEntry(2.0, P["z2"][0]), PortfolioEntry(-1.0, P["corp"][0])]
        pf = Portfolio(given, 10.0)
        pos, cash, cur = [(2.0, "z2"), (-1.0, "corp")], 10.0, 0
        ctx.trace()
        for a in seq:
            ctx.step()
            op, _, arg = a.partition(" ")
            if op == "pv":
                ok, v = ctx.call(key, pf.present_value, curve(arg))
                if ok: ctx.expect(near(v, pv(P, pos, cash, arg, REFD)), key, f"worth {v}, want {pv(P, pos, cash, arg, REFD)}")
            elif op in ("iter", "break"):
                ok, v = ctx.call(key, lambda: [[(x.quantity, x.asset) for x in pf] for _ in pf][:1] if op == "iter" else [[(x.quantity, x.asset) for x in itertools.islice(pf, 1)]])
                want = [(q, P[n][0]) for q, n in (pos if op == "iter" else pos[:1])]
                if ok: ctx.expect([[(q, id(s)) for q, s in r] for r in v] == ([[(q, id(s)) for q, s in want]] if pos or op == "break" else []), key, f"iteration gives {v}")
            elif op == "next":
                try:
                    e = next(pf); got = (e.quantity, id(e.asset))
                except StopIteration:
                    got = None
                want = (pos[cur][0], id(P[pos[cur][1]][0])) if cur < len(pos) else None
                cur = cur + 1 if want else 0
                ctx.expect(got == want, key, f"next position is {got}, want {want}")
            elif op == "add":
                pf.assets.append(PortfolioEntry(0.5, P[arg][0])); pos.append((0.5, arg))
            elif op == "del":
                if pos: pf.assets.pop(); pos.pop()
            elif op == "cash":
                pf.cash_amount += 7.0; cash += 7.0
            elif op == "kr" and pos:
                ok, kr = ctx.call(key, pf.to_key_rate_collection, C.ACTUAL_OVER_360)
                if ok:
                    ctx.expect([k.key_rate_date for k in kr] == sorted({P[n][2] for _, n in pos}), key, "key rates")
                    kr.set_bump_val(0.01)
            ctx.state((tuple(pos), cash, cur))
        ctx.expect(len(given) == 2, key + "|given", "the caller's own list was changed")
        if ctx.state(("walks", tuple(pos), cur)):
            interleaved(ctx, pf, [(q, id(P[n][0])) for q, n in pos], key, between=lambda: pf.present_value(curve("a")), show=lambda e: (e.quantity, id(e.asset)), limit=1)
        ctx.outcome((tuple(pos), cash))

def large(ctx, item):
    """Portfolios of many positions, the same asset held several times and the amounts of every size, and ladders as long."""
    n, stride = item
    P = pool()
    names = list(P)
    for shift in range(len(names)):
        for only in (names, [x for x in names if P[x][2]]):
            pos = [((-1.5) ** (i % 7) * (1000.0 if i % 11 == 5 else 1.0) if i % 6 else 0, only[(shift + i * stride + i // len(only)) % len(only)]) for i in range(n)]
            for cash in (0, 12345.75):
                key = f"large|{n}|{stride}|{shift}|{len(only)}|{cash}"
                ctx.state(key); ctx.trace()
                pf = Portfolio((PortfolioEntry(q, P[x][0]) for q, x in pos) if shift % 2 else [PortfolioEntry(q, P[x][0]) for q, x in pos], cash)
                for kind in "ab":
                    for ref in (REFD, date(2024, 2, 15), date(2024, 5, 16), date(2024, 9, 3)):
                        ctx.step()
                        ok, v = ctx.call(key, pf.present_value, curve(kind, ref))
                        want = pv(P, pos, cash, kind, ref)
                        if ok: ctx.expect(abs(v - want) <= 1e-9 * (1e6 + abs(want)), f"{key}|{kind}|{ref}", f"worth {v}, want {want}")
                walks = [[(e.quantity, id(e.asset)) for e in pf] for _ in range(2)]
                ctx.expect(walks == [[(q, id(P[x][0])) for q, x in pos]] * 2, key + "|walk", "iteration")
                if len(only) < len(names):
                    ok, kr = ctx.call(key, pf.to_key_rate_collection, C.ACTUAL_OVER_365)
                    want = sorted({P[x][2] for _, x in pos})
                    if ok: ctx.expect([k.key_rate_date for k in kr] == want and all(abs(kr(d) - 1e-4) < 1e-15 for d in (REFD, MAT, date(2024, 6, 3))), key + "|keyrates", f"{[str(k.key_rate_date) for k in kr]}, want {want}")
    rs = [Risk(REFD + timedelta(40 * i * stride % 9973), (-1.0) ** i * 3.25 * i, CurveIndex.US_TREASURY if i % 3 else CurveIndex.SOFR) for i in range(n)]
    ld = RiskLadder(r for r in rs)
    ctx.expect(list(ld) == rs and len(ld) == n and (ld.get_key_rate_dates(), ld.get_pv01s(), ld.get_indices()) == ([r.key_rate_date for r in rs], [r.pv01 for r in rs], [r.index for r in rs]) and all(r in ld for r in rs), f"large-ladder|{n}|{stride}", "ladder")
    interleaved(ctx, ld, rs, f"large-ladder|{n}|{stride}", between=lambda: (len(ld), rs[0] in ld), limit=1)

def ladders(ctx, _):
    risks = [Risk(MAT + timedelta(k % 2), 0.5 * k, CurveIndex.US_TREASURY) for k in range(4)]
    for n in range(5):
        for pick in itertools.product(range(4), repeat=n):
            key = f"ladder|{pick}"
            rs = [risks[i] for i in pick]
            ld = RiskLadder(iter(rs))
            ctx.step(); ctx.state(key); ctx.trace()
            ctx.expect(list(ld) == rs and list(ld) == rs and len(ld) == n, key, "iteration")
            ctx.expect((ld.get_key_rate_dates(), ld.get_pv01s(), ld.get_indices()) == ([r.key_rate_date for r in rs], [r.pv01 for r in rs], [r.index for r in rs]), key, "columns")
            ctx.expect([r in ld for r in risks] == [i in pick for i in range(4)], key, "membership")
            for _ in range(2):   # a full pass with next(), twice
                out = []
                while True:
                    try: out.append(next(ld))
                    except StopIteration: break
                ctx.expect(out == rs, key, f"next() gives {out}")
            interleaved(ctx, ld, rs, key, between=lambda: (len(ld), risks[0] in ld))
            s = str(ld).splitlines()
            ctx.expect(len(s) == n + 2 and all(str(r.key_rate_date) in line and format(r.pv01, '0.2f') in line for r, line in zip(rs, s[2:])), key, "printed ladder")

def run(ctx):
    cal(True)
    names = list(pool())
    size = 3 if ctx.thorough else 2
    ctx.bound("positions", size); ctx.bound("quantities", QTY); ctx.bound("assets", names); ctx.bound("history_depth", 5 if ctx.thorough else 4)
    ctx.pmap(linear, [((q, n), k) for k in range(1, size + 1) for q in QTY for n in names])
    acts = ["pv a", "pv b", "iter", "next", "add ust", "add z1", "cash", "kr", "break", "del"]
    ctx.pmap(history, [(a, 5 if ctx.thorough else 4) for a in acts])
    ctx.bound("large", "portfolios and ladders of 11, 24 and 60 entries over the whole pool")
    ctx.pmap(large, [(n, k) for n in (60, 24, 11) for k in (1, 2, 5)])
    ctx.bound("twins", "every ordered pair of assets of a kind that differ in one term, three pairs of quantities")
    ctx.pmap(twins, ["ust", "corp", "zero", "loan", "swap"])
    ctx.pmap(ladders, [0])
    ctx.sample("-2 x treasury + 3.5 x swap + 100 cash, valued on two curves at three dates")
