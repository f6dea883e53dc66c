"""C15: swap cash flows, present values and par rates, for every trade date of a window x contract x rate path, judged by an
independent pricer; and every history of leg generation, par rate and valuation calls on one swap."""
from datetime import date, timedelta
import itertools
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import TermInterestRateSwap as Term, OvernightIndexSwap as Ois, InterestRateSwapDirection as DIR
from fixedIncome.src.assets.base_cashflow import CashflowKeys as K
from fixedIncome.src.curves.base_curve import DiscountCurve, Curve, KnotValuePair as KV
from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod as IM, EndBehavior as EB
from checks.c14 import RSwap, FREQS, SCS, SC, PF, BDA, C, cal, SETTLE, variants, BASES

ANCH = date(2022, 1, 3)
RATES = {
    "saw": lambda d: 0.01 + 0.0005 * ((d.toordinal() * 37) % 101),
    "neg": lambda d: -0.004 + 0.0001 * ((d.toordinal() * 11) % 53),
    "flat": lambda d: 0.05,
}
def knots(kind):
    rate = {"flat": 0.05, "inv": -0.01, "steep": 0.02}[kind]
    return [(ANCH + timedelta(90 * k), (1 + rate * (1 + 0.3 * k * (kind == "steep"))) ** (-k / 4)) for k in range(50)]

def disc(kind, d):
    ks = knots(kind)
    if d >= ks[-1][0]: return ks[-1][1]
    i = (d - ANCH).days // 90
    (a, u), (b, v) = ks[i], ks[i + 1]
    return u + (v - u) * (d - a).days / (b - a).days

def lib_curve(kind, ref=None):
    ks = knots(kind)
    if ref:
        ks = [(ref, disc(kind, ref))] + [k for k in ks if k[0] > ref]
    return DiscountCurve([KV(*k) for k in ks], IM.LINEAR, CurveIndex.NONE, C.ACTUAL_OVER_365, ref, EB.ERROR, EB.CONSTANT)

def flows(r, cls, rate, floating, fixed=None, notional=1_000_000):
    out = []
    for a, b, f in r.leg(floating):
        pay = r.k.add(b, SETTLE[r.delay])
        if not floating:
            x = fixed
        elif cls is Term:
            x = rate(r.k.add(a, SETTLE[r.fix]))
        else:  # daily compounding over the business days of the period
            ds = r.k.days[r.k.idx[a]:r.k.idx[b] + 1]
            g = 1.0
            for u, v in zip(ds, ds[1:]):
                g *= 1 + rate(u) * (v - u).days / 360
            x = (g - 1) * 360 / (ds[-1] - ds[0]).days
        out.append((pay, x * f * notional))
    return sorted(out)

def pv(fl, kind, ref=ANCH):
    return sum(disc(kind, d) * a for d, a in fl if d >= ref)

close = lambda a, b, s=1.0: abs(a - b) <= 1e-9 * max(s, abs(b))

def same(got, want):
    g = sorted((p.payment_date, p.payment) for p in got)
    return len(g) == len(want) and all(x[0] == y[0] and close(x[1], y[1]) for x, y in zip(g, want))

def price(ctx, item):
    d0, n, *tenors = item
    curves = {k: lib_curve(k) for k in ("flat", "inv", "steep")}
    for k in range(n):
        d = d0 + timedelta(k)
        for i, (cls, tenor, ff, xf) in enumerate(itertools.product((Term, Ois), tenors or (('3M', '1Y', '18M', '3Y') if ctx.thorough else ('6M', '18M')), FREQS, FREQS)):
            if cls is Ois and (ff is xf or tenor == '30Y' or i % 2) if tenors else cls is Ois and not ctx.thorough and (tenor != '6M' or ff is xf): continue
            o = d.toordinal() + i
            fixes = (SC.T_MINUS_TWO_BUSINESS, SC.T_MINUS_ONE_BUSINESS, SC.T_PLUS_ZERO_BUSINESS)
            delays = (SC.T_PLUS_TWO_BUSINESS, SC.T_PLUS_ZERO_BUSINESS, SC.T_PLUS_ONE_BUSINESS)
            r = RSwap(d, SCS[o % 4], tenor, ff, xf, list(C)[o % 5], list(C)[(o + 3) % 5], (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING)[o % 2], fixes[o % 3], delays[(o // 3) % 3], us=o % 4 != 1)
            rn = list(RATES)[o % 3]; rate = RATES[rn]; ck = ("flat", "inv", "steep")[(o // 2) % 3]
            x = (0.05, -0.01, 0.0, 0.0725)[o % 4]; N = (1_000_000, 100, 250_000_000)[o % 3]
            key = f"{cls.__name__}|{d}|{r.sc.name}|{tenor}|{ff.name}|{xf.name}|{'us' if r.us else 'weekends'}|{rn}|{ck}|{x}|{N}"
            ctx.trace(); ctx.state(key); ctx.step()
            wf, wx = flows(r, cls, rate, True, notional=N), flows(r, cls, rate, False, x, N)
            pvs = {}
            order = list(DIR) if o % 2 else list(DIR)[::-1]
            for direction in order:
                ok, s = ctx.call(key, r.make, cls, direction, x, N)
                if not ok: continue
                try:
                    s.present_value(curves[ck]); ctx.violation(key + "|unset", "valued before its legs were generated")
                except ValueError:
                    pass
                if direction is order[1] and cls is Ois and not ctx.thorough:   # the opposite swap, given the same legs
                    s[K.FLOATING_LEG], s[K.FIXED_LEG] = gf, gx
                    ok, v = ctx.call(key, s.present_value, curves[ck])
                    if ok: pvs[direction] = v
                    continue
                ok, gf = ctx.call(key, s.generate_floating_leg_cashflow, rate)
                ok2, gx = ctx.call(key, s.generate_fixed_leg_cashflow)
                if not (ok and ok2): break
                ctx.expect(same(gf, wf), key + "|float", f"floating leg {[(p.payment_date, p.payment) for p in gf]}, want {wf}")
                ctx.expect(same(gx, wx), key + "|fixed", f"fixed leg {[(p.payment_date, p.payment) for p in gx]}, want {wx}")
                ctx.expect(s.floating_leg is gf or same(s.floating_leg, wf), key + "|stored"); ctx.expect(same(s[K.FIXED_LEG], wx), key + "|storedx")
                ok, v = ctx.call(key, s.present_value, curves[ck])
                if ok: pvs[direction] = v
                ok, par = ctx.call(key, s.implied_rate, curves[ck], rate)
                if ok:
                    ann = sum(disc(ck, r.k.add(b, SETTLE[r.delay])) * f * N for _, b, f in r.leg(False))
                    if abs(ann) > 1e-9:
                        ctx.expect(close(par, pv(wf, ck) / ann), key + "|par", f"par rate {par}, want {pv(wf, ck) / ann}")
                        z = r.make(cls, direction, par, N)
                        z.generate_floating_leg_cashflow(rate); z.generate_fixed_leg_cashflow()
                        ctx.expect(abs(z.present_value(curves[ck])) < 1e-8 * N, key + "|par0", f"worth {z.present_value(curves[ck])} at its par rate")
            want = pv(wf, ck) - pv(wx, ck)
            if len(pvs) == 2:
                ctx.expect(close(pvs[DIR.PAYER_FIXED], want, N * 1e-3), key + "|payer", f"payer {pvs[DIR.PAYER_FIXED]}, want {want}")
                ctx.expect(close(pvs[DIR.RECEIVER_FIXED], -want, N * 1e-3), key + "|receiver", f"receiver {pvs[DIR.RECEIVER_FIXED]}, want {-want}")
                ctx.outcome((ck, rn, round(want / N, 5)))

def seasoned(ctx, item):
    """Valuation dates after some payments: only payments on or after the curve's reference date count, also for the par rate."""
    cls, ff, xf, left = item
    r = RSwap(date(2022, 11, 28), tenor='18M', ff=ff, xf=xf)
    wf, wx, ann = flows(r, cls, RATES["saw"], True), flows(r, cls, None, False, 0.05), flows(r, cls, None, False, 1.0)
    s = r.make(cls)
    s.generate_floating_leg_cashflow(RATES["saw"]); s.generate_fixed_leg_cashflow()
    for d in sorted({p + timedelta(j) for p, _ in wf + wx for j in (-1, 0, 1)}):
        key = f"seasoned|{cls.__name__}|{ff.name}|{xf.name}|{left.name}|{d}"
        ctx.step(); ctx.state(key); ctx.trace()
        crv = lib_curve("flat", d); crv.left_end_behavior = left
        ok, v = ctx.call(key, s.present_value, crv)
        want = pv(wf, "flat", d) - pv(wx, "flat", d)
        if ok: ctx.expect(close(v, want, 1e3), key, f"pv {v}, want {want}")
        if not any(p >= d for p, _ in ann): continue           # nothing fixed left to pay
        ok, par = ctx.call(key + "|par", s.implied_rate, crv, RATES["saw"])
        want = pv(wf, "flat", d) / pv(ann, "flat", d)
        if ok and ctx.expect(close(par, want), key + "|par", f"par rate {par}, want {want}"):
            z = r.make(cls, DIR.RECEIVER_FIXED, par)
            z.generate_floating_leg_cashflow(RATES["saw"]); z.generate_fixed_leg_cashflow()
            ctx.expect(abs(z.present_value(crv)) < 1e-2, key + "|par0", f"worth {z.present_value(crv)} at its par rate")

def history(ctx, item):
    cls, first = item
    r = RSwap(date(2023, 5, 30), tenor='18M' if cls is Term else '6M', ff=PF.QUARTERLY, xf=PF.ANNUAL)
    crv = lib_curve("flat")
    cls2 = Ois if cls is Term else Term
    r2 = RSwap(date(2023, 8, 31), tenor='3M')
    W2 = flows(r2, cls2, RATES["saw"], True)
    W = {n: flows(r, cls, RATES[n], True) for n in ("saw", "neg")}
    WX = flows(r, cls, None, False, 0.05)
    ann = sum(disc("flat", r.k.add(b, SETTLE[r.delay])) * f * 1e6 for _, b, f in r.leg(False))
    acts = ["F saw", "F neg", "f saw", "f neg", "X", "x", "R saw", "r neg", "pv"]
    for seq in itertools.product(acts, repeat=(4 if ctx.thorough and cls is Term else 3 if cls is Term or ctx.thorough else 2)):
        s, other = r.make(cls), r2.make(cls2)        # two swaps side by side: what is asked of one leaves the other alone
        other.generate_floating_leg_cashflow(RATES["saw"])
        fl = fx = None
        key = f"history|{cls.__name__}|{(first,) + seq}"
        ctx.trace()
        for a in (first,) + seq:
            ctx.step()
            n = a[2:] or None
            if a[0] in "Ff" and a != "pv":
                ok, v = ctx.call(key, s.generate_floating_leg_cashflow, RATES[n], a[0] == "F")
                if ok: ctx.expect(same(v, W[n]), key, "floating leg returned")
                if a[0] == "F": fl = n
            elif a in "Xx":
                ok, v = ctx.call(key, s.generate_fixed_leg_cashflow, a == "X")
                if ok: ctx.expect(same(v, WX), key, "fixed leg returned")
                if a == "X": fx = True
            elif a[0] in "Rr":
                ok, v = ctx.call(key, s.implied_rate, crv, RATES[n], **({"set_cashflow": True} if a[0] == "R" else {}))
                if ok: ctx.expect(close(v, pv(W[n], "flat") / ann), key, f"par {v}")
                if a[0] == "R": fl = n
            else:
                try:
                    v = s.present_value(crv)
                except ValueError:
                    v = None
                if fl is None or fx is None:
                    ctx.expect(v is None, key, f"valued at {v} with a leg missing")
                else:
                    want = pv(W[fl], "flat") - pv(WX, "flat")
                    ctx.expect(v is not None and close(v, want, 1e3), key, f"pv {v}, want {want}")
            ctx.state((cls.__name__, fl, fx, a))
            if fl: ctx.expect(same(s.floating_leg, W[fl]), key, "stored floating leg")
            else: ctx.expect(s.floating_leg is None, key, "floating leg stored without being asked to")
            if fx: ctx.expect(same(s.fixed_leg, WX), key, "stored fixed leg")
            else: ctx.expect(s.fixed_leg is None, key, "fixed leg stored without being asked to")
        ctx.expect(same(other.floating_leg, W2) and other.fixed_leg is None, key, "the legs of another swap changed")

def twins(ctx, item):
    """Swaps that differ in one term, their legs generated in turns under two rate paths: each has its own payments, value and par rate."""
    cls, kw, part = item
    vs = [(w, r, 0.05, 1_000_000, DIR.PAYER_FIXED) for w, r in variants(RSwap(**kw))]
    b = vs[0][1]
    vs += [("fixed=.03", b, 0.03, 1_000_000, DIR.PAYER_FIXED), ("notional", b, 0.05, 2_500_000, DIR.PAYER_FIXED), ("direction", b, 0.05, 1_000_000, DIR.RECEIVER_FIXED)]
    crv = {k: lib_curve(k) for k in ("flat", "inv")}
    want = {}
    def ref(x, rn):
        if (x, rn) not in want:
            _, r, fx, N, _ = vs[x]
            want[x, rn] = flows(r, cls, RATES[rn], True, notional=N), flows(r, cls, None, False, fx, N), [(r.k.add(e, SETTLE[r.delay]), f * N) for _, e, f in r.leg(False)]
        return want[x, rn]
    objs = [v[1].make(cls, v[4], v[2], v[3]) for v in vs]
    pairs = [(i, j) for i, j in itertools.permutations(range(len(vs)), 2) if i == 0 or (ctx.thorough and (i + j) % 3 == 0)]
    for i, j in pairs[part::4]:
        key = f"twins|{cls.__name__}|{kw['trade']}|{vs[i][0]}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x, rn in ((i, "saw"), (j, "saw"), (j, "neg"), (i, "saw")):
            what, r, fx, N, dr = vs[x]
            wf, wx, ann = ref(x, rn)
            s = objs[x]
            ctx.step()
            ok, gf = ctx.call(key, s.generate_floating_leg_cashflow, RATES[rn])
            ok2, gx = ctx.call(key, s.generate_fixed_leg_cashflow)
            if not (ok and ok2): continue
            ctx.expect(same(gf, wf) and same(s.floating_leg, wf), f"{key}|{rn}|float", f"{what}: {[(p.payment_date, p.payment) for p in gf]}, want {wf}")
            ctx.expect(same(gx, wx) and same(s.fixed_leg, wx), f"{key}|{rn}|fixed", f"{what}: {[(p.payment_date, p.payment) for p in gx]}, want {wx}")
        for x in (i, j, i):                            # swap i under the saw path, swap j under the other
            what, r, fx, N, dr = vs[x]
            wf, wx, ann = ref(x, "saw" if x == i else "neg")
            sign = 1 if dr is DIR.PAYER_FIXED else -1
            for ck in crv:
                ctx.step()
                ok, v = ctx.call(key, objs[x].present_value, crv[ck])
                w = sign * (pv(wf, ck) - pv(wx, ck))
                if ok: ctx.expect(close(v, w, N * 1e-3), f"{key}|{ck}|pv", f"{what}: worth {v}, want {w}")
                if cls is Term:
                    for rn in ("saw", "neg"):
                        ok, v = ctx.call(key, objs[x].implied_rate, crv[ck], RATES[rn])
                        w = pv(ref(x, rn)[0], ck) / pv(ann, ck)
                        if ok: ctx.expect(close(v, w), f"{key}|{ck}|{rn}|par", f"{what}: par rate {v}, want {w}")

def telescoping(ctx, d0):
    """Daily compounding at the forwards of a discount function returns the discount function's own growth."""
    D = lambda d: (1.05 + 0.01 * (d.toordinal() % 7 == 0)) ** (-(d - ANCH).days / 365)
    for k in range(31 if ctx.thorough else 10):
        d = d0 + timedelta(k)
        r = RSwap(d, tenor='6M', ff=PF.QUARTERLY)
        days = r.k.days
        fwd = lambda x: (D(x) / D(days[r.k.idx[x] + 1]) - 1) * 360 / (days[r.k.idx[x] + 1] - x).days
        s = r.make(Ois)
        for a, b, f in r.leg(True):
            key = f"telescoping|{a}|{b}"
            ctx.step(); ctx.state(key)
            ok, v = ctx.call(key, s.calculate_annualized_rate, fwd, a, b)
            if ok: ctx.expect(close(v, (D(a) / D(b) - 1) * 360 / (b - a).days), key, f"{v}")

def run(ctx):
    cal(True); cal(False)
    n = 400 if ctx.thorough else 150
    first = date(2022, 11, 20)
    ctx.bound("trade_dates", f"{n} consecutive days from {first}"); ctx.bound("history_depth", "term 5, overnight 4" if ctx.thorough else "term 4, overnight 3")
    ctx.pmap(price, [(first + timedelta(k), min(5, n - k)) for k in range(0, n, 5)])
    edges = [date(y, m, d) for y, m, d in ((2022, 2, 28), (2023, 8, 31), (2024, 1, 31), (2024, 2, 28), (2024, 2, 29), (2024, 12, 30), (2025, 6, 15), (2027, 5, 28))]
    ctx.bound("long", f"7M, 5Y, 10Y and 30Y swaps traded on {len(edges)} edges of months")
    ctx.pmap(price, [(d, 1, t) for t in ('30Y', '10Y', '5Y', '7M', '10M') for d in edges])
    ctx.bound("seasoned", "18M swaps valued and their par rate asked one day around every payment, curves that refuse or extend to the past")
    ctx.pmap(seasoned, list(itertools.product((Term, Ois), FREQS, FREQS, (EB.ERROR, EB.CONSTANT))))
    ctx.pmap(telescoping, [date(2022, 12, 1), date(2023, 8, 1), date(2024, 2, 10)])
    acts = ["F saw", "F neg", "f saw", "f neg", "X", "x", "R saw", "r neg", "pv"]
    ctx.pmap(history, [(c, a) for c in (Term, Ois) for a in acts])
    ctx.bound("twins", "a swap and about 30 swaps that differ from it in one term, legs generated and valued in turns")
    ctx.pmap(twins, [(c, kw, k) for c in (Term, Ois) for kw in BASES for k in range(4)])
    ctx.assume("overnight compounding uses actual/360, as documented")
    ctx.sample("Term 18M payer traded 2023-05-30: generate floating, value (refused), generate fixed, value, par rate")
