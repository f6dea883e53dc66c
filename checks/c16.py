"""C16: loan amortization: every origination day of a window x frequency x payment time x rate x payment plan, against the
textbook recursion (interest on the outstanding balance, the rest to principal, never more than is owed)."""
from datetime import date, timedelta
import itertools
from dateutil.relativedelta import relativedelta as RD
from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod as IM, EndBehavior as EB
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair as KV
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency as PF, PaymentTime as PT, DayCountConvention as C
from checks.c03 import add_months
from checks.c04 import REF

FREQ = {PF.MONTHLY: 1, PF.QUARTERLY: 3, PF.SEMI_ANNUAL: 6, PF.ANNUAL: 12}
last = lambda d: add_months(d.replace(day=1), 1) - timedelta(1)
TERMS = {"1Y": RD(years=1), "18M": RD(months=18), "40M": RD(months=40), "5Y": RD(years=5), "400d": timedelta(400), "137M": RD(years=11, months=5), "30Y": RD(years=30)}
MONTHS = {"1Y": 12, "18M": 18, "40M": 40, "5Y": 60, "137M": 137, "30Y": 360}
P = 250_000

def dates(o, term, pf, pt):
    start = last(o) if pt is PT.END_OF_MONTH else add_months(o.replace(day=1), 1)
    end = start + timedelta(400) if term == "400d" else add_months(start, MONTHS[term])
    if pt is PT.END_OF_MONTH: end = last(end)
    out, k = [], 0
    while True:
        d = add_months(start.replace(day=1), FREQ[pf] * k)
        if pt is PT.END_OF_MONTH: d = last(d)
        if d > end: return out
        out.append(d); k += 1

def plan(ds, dcc, rate, amount, extras):
    owed, out = float(P), []
    for i, (a, b) in enumerate(zip(ds, ds[1:])):
        interest = float(REF[dcc](a, b)) * rate * owed
        x = extras if isinstance(extras, (int, float)) else extras[i] if i < len(extras) else 0.0
        principal = min(owed, amount + x - interest)
        out.append((b, interest, principal)); owed -= principal
    return out, owed

def level(o, term, pf, dcc, rate):
    end = o + timedelta(400) if term == "400d" else add_months(o, MONTHS[term])
    n = float(REF[dcc](o, end)) * pf.value
    i = rate / pf.value
    return P / n if rate == 0 else P * i / (1 - (1 + i) ** -n)

close = lambda a, b: abs(a - b) < 1e-6
EXTRAS = {"none": None, "zero": 0, "scalar": 500, "float": 1234.5, "short": (1000.0, 0.0, 5000), "long": (250.0,) * 400, "lump": (0.0, 240_000.0), "empty": ()}
CALLERS = {k: list(v) for k, v in EXTRAS.items() if isinstance(v, tuple)}      # one list of extra payments for every loan, as a caller comparing loans keeps it

def compare(ctx, key, got, ds, dcc, rate, amount, extras):
    want, owed = plan(ds, dcc, rate, amount, extras)
    g = [(p.payment_date, p.interest_payment, p.principal_payment) for p in got]
    w = list(want)
    while g and abs(g[-1][1]) + abs(g[-1][2]) < 1e-9: g.pop()      # nothing is due once the loan is paid off
    while w and abs(w[-1][1]) + abs(w[-1][2]) < 1e-9: w.pop()
    bad = next((i for i, (x, y) in enumerate(itertools.zip_longest(g, w)) if x is None or y is None or x[0] != y[0] or not close(x[1], y[1]) or not close(x[2], y[2])), None)
    ctx.expect(bad is None, key, f"payment {bad}: got {g[bad:bad + 1] if bad is not None else ''}, want {w[bad:bad + 1] if bad is not None else ''}")
    ctx.expect(all(close(p.payment, p.interest_payment + p.principal_payment) for p in got), key + "|sum", "a payment is not its principal plus its interest")
    ctx.expect(sum(p.principal_payment for p in got) <= P + 1e-5, key + "|over", "repays more than was lent")
    return owed

def block(ctx, item):
    global P
    o0, n = item
    for k in range(n):
        o = o0 + timedelta(k)
        for i, (term, pf, pt) in enumerate(itertools.product(TERMS, FREQ, (PT.END_OF_MONTH, PT.START_OF_MONTH))):
            dccs = list(C) if ctx.thorough else [list(C)[(o.toordinal() + i) % 5], C.THIRTY_OVER_THREESIXTY]
            for j, dcc in enumerate(dict.fromkeys(dccs)):
                if term in ("30Y", "137M") and (o.toordinal() + i) % (2 if ctx.thorough else 5): continue
                rate = (0.06125, 0.0, 0.15, 0.0001)[(o.toordinal() + i + j) % 4]
                P = (250_000, 558_750.0, 1000, 250_000)[(o.toordinal() + i) % 4]
                loan = Loan(P, rate, o, TERMS[term], dcc, pf, pt)
                key = f"{o}|{term}|{pf.name}|{pt.name}|{dcc.name}|{rate}"
                ctx.state(key); ctx.trace()
                ds = dates(o, term, pf, pt)
                ok, lv = ctx.call(key, loan.calculate_fixed_payment_amount)
                if ok: ctx.expect(abs(lv - level(o, term, pf, dcc, rate)) < 1e-10 * P, key + "|level", f"level payment {lv}, want {level(o, term, pf, dcc, rate)}")
                lv = level(o, term, pf, dcc, rate)
                amounts = {"level": lv, "half": lv / 2, "double": 2 * lv, "all": P * 2, "nothing": 0, "int": 20_000}
                names = list(EXTRAS)
                combos = [(a, names[(o.toordinal() + i + q) % len(names)]) for q, a in enumerate(amounts)] if not ctx.thorough else itertools.product(amounts, names)
                for a, e in combos:
                    ctx.step()
                    ex = EXTRAS[e]
                    arg = ex if not isinstance(ex, tuple) else iter(ex) if o.day % 3 == 0 else ex if o.day % 3 == 1 else CALLERS[e]
                    kk = f"{key}|{a}|{e}"
                    ok, got = ctx.call(kk, loan.generate_payment_schedule, amounts[a], arg)
                    if ok:
                        owed = compare(ctx, kk, got, ds, dcc, rate, amounts[a], 0.0 if ex is None else ex)
                        ctx.outcome((len(got), round(owed)))
                    if arg is CALLERS.get(e) and arg is not None:
                        if not ctx.expect(arg == list(ex), kk + "|caller", "the caller's list of extra payments was changed"): CALLERS[e] = list(ex)
                if dcc is C.THIRTY_OVER_THREESIXTY and pt is PT.START_OF_MONTH and term != "400d" and MONTHS[term] % FREQ[pf] == 0 and (o.day < 29 or term in ("1Y", "5Y", "30Y")):
                    ok, got = ctx.call(key, loan.generate_payment_schedule, loan.calculate_fixed_payment_amount())
                    if ok:
                        ctx.expect(abs(sum(p.principal_payment for p in got) - P) < 1e-9 * P and len(got) == MONTHS[term] // FREQ[pf] and all(abs(p.payment - lv) < 1e-9 * P for p in got),
                                   key + "|retires", f"the level payment does not retire the loan: {len(got)} payments, {sum(p.principal_payment for p in got)} repaid")
                ctx.expect(loan.principal == P, key + "|principal", "the lent amount changed")

def values(ctx, o):
    global P
    P = 250_000
    for dt in (1, 15, 28, 31):
        for term, pf, pt, rate, dcc in itertools.product(("1Y", "18M", "5Y") + ("30Y",) * (dt == 28 and o.month % 4 == 0), FREQ, PT, (0.06, 0.0), (C.THIRTY_OVER_THREESIXTY, C.ACTUAL_OVER_365)):
            org = date(o.year, o.month, min(dt, last(o).day))
            if pt not in (PT.END_OF_MONTH, PT.START_OF_MONTH): continue
            key = f"pv|{org}|{term}|{pf.name}|{pt.name}|{rate}|{dcc.name}"
            ds = dates(org, term, pf, pt)
            want, _ = plan(ds, dcc, rate, level(org, term, pf, dcc, rate), 0.0)
            loan = Loan(P, rate, org, TERMS[term], dcc, pf, pt)
            for ref in (org, ds[1], ds[1] + timedelta(1), ds[-1]):
                crv = DiscountCurve([KV(ref, 1.0), KV(ref + timedelta(12000), 0.4)], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, ref, EB.ERROR, EB.CONSTANT)
                ctx.step(); ctx.state((key, ref))
                ok, v = ctx.call(key, loan.present_value, crv)
                w = sum((i + p) * (1 - 0.6 * (d - ref).days / 12000) for d, i, p in want if d >= ref)
                if ok: ctx.expect(abs(v - w) < 1e-4, f"{key}|{ref}", f"worth {v}, want {w}")

def twins(ctx, item):
    """Loans that differ in one term, asked in turns: each has its own level payment, schedule and value."""
    global P
    org, term, pf, pt, dcc, rate, amt, part = item
    base = dict(o=org, term=term, pf=pf, pt=pt, dcc=dcc, rate=rate, amt=amt)
    other = dict(o=(org + timedelta(1), add_months(org, 1), add_months(org, -12)), term=[t for t in ("1Y", "18M", "40M", "400d", "5Y") if t != term], pf=[f for f in FREQ if f is not pf],
                 pt=[t for t in (PT.END_OF_MONTH, PT.START_OF_MONTH) if t is not pt], dcc=[c for c in C if c is not dcc], rate=(0.0, 0.031, 0.125), amt=(100_000, 2 * amt))
    vs = [("base", base)] + [(f"{w}={getattr(v, 'name', v)}", {**base, w: v}) for w, xs in other.items() for v in xs]
    objs = [Loan(v["amt"], v["rate"], v["o"], TERMS[v["term"]], v["dcc"], v["pf"], v["pt"]) for _, v in vs]
    def ask(i, key):
        global P
        what, v = vs[i]
        P = v["amt"]
        b = objs[i]
        ds = dates(v["o"], v["term"], v["pf"], v["pt"])
        lv = level(v["o"], v["term"], v["pf"], v["dcc"], v["rate"])
        ok, x = ctx.call(key, b.calculate_fixed_payment_amount)
        if ok: ctx.expect(abs(x - lv) < 1e-10 * P, f"{key}|level", f"{what}: level payment {x}, want {lv}")
        for a, e in ((lv, None), (lv, 500), (20_000, (1000.0, 0.0, 5000)), (lv / 2, None)):
            ctx.step()
            ok, got = ctx.call(key, b.generate_payment_schedule, a, e)
            if ok: compare(ctx, f"{key}|{what}|{a == lv}|{e}", got, ds, v["dcc"], v["rate"], a, 0.0 if e is None else e)
            if ok and isinstance(got, list) and i: got.clear()       # the returned schedule is the caller's
        want, _ = plan(ds, v["dcc"], v["rate"], lv, 0.0)
        for ref in (org, ds[1] + timedelta(1)):
            crv = DiscountCurve([KV(ref, 1.0), KV(ref + timedelta(12000), 0.4)], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, ref, EB.ERROR, EB.CONSTANT)
            ok, x = ctx.call(key, b.present_value, crv)
            w = sum((i + p) * (1 - 0.6 * (d - ref).days / 12000) for d, i, p in want if d >= ref)
            if ok: ctx.expect(abs(x - w) < 1e-9 * P, f"{key}|{what}|pv|{ref}", f"{what}: worth {x}, want {w}")
    for i, j in itertools.permutations(range(len(vs)), 2):
        if (i and not ctx.thorough) or (i + j) % 3 != part: continue
        key = f"twins|{org}|{term}|{pf.name}|{pt.name}|{vs[i][0]}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x in (i, j, i): ask(x, key)

def run(ctx):
    first, n = date(2023, 11, 20), (430 if ctx.thorough else 130)
    ctx.bound("origination", f"{n} consecutive days from {first}"); ctx.bound("terms", list(TERMS)); ctx.bound("extras", list(EXTRAS))
    ctx.pmap(block, [(first + timedelta(k), min(5, n - k)) for k in range(0, n, 5)])
    ctx.pmap(values, [add_months(date(2023, 11, 1), k) for k in range(13)])
    ctx.bound("twins", "a loan and about 20 loans that differ from it in one term, asked in turns")
    ctx.pmap(twins, [it + (k,) for k in range(3) for it in ((date(2023, 12, 5), "18M", PF.QUARTERLY, PT.START_OF_MONTH, C.THIRTY_OVER_THREESIXTY, 0.06, 250_000),
                                                           (date(2024, 1, 31), "5Y", PF.MONTHLY, PT.END_OF_MONTH, C.ACTUAL_OVER_ACTUAL, 0.045, 312_500.0))])
    ctx.assume("interest starts to accrue at the first payment date's month boundary, as the schedule is documented to start there")
    ctx.sample("250000 at 6.125% from 2024-01-31, monthly at month ends, level payment with a 240000 lump in the second month")
