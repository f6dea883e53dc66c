"""C14: swap accrual schedules: every trade date of a window x tenors x payment frequencies x conventions, both legs,
against month arithmetic backwards from the swap's end on an explicit business-day list."""
from datetime import date, timedelta
import itertools
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import TermInterestRateSwap, OvernightIndexSwap, InterestRateSwapDirection as DIR
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention as SC, PaymentFrequency as PF, BusinessDayAdjustment as BDA, DayCountConvention as C
from fixedIncome.src.scheduling_tools.holidays import US_FEDERAL_HOLIDAYS
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from checks.bonds import cal, months
from checks.c02 import SETTLE
from checks.c03 import add_months
from checks.c04 import REF

FREQS = (PF.ANNUAL, PF.SEMI_ANNUAL, PF.QUARTERLY)
TENORS = ('3M', '6M', '9M', '1Y', '18M', '2Y', '5Y')
SCS = (SC.T_PLUS_TWO_BUSINESS, SC.T_PLUS_ZERO_BUSINESS, SC.T_PLUS_ONE_BUSINESS, SC.T_PLUS_THREE_BUSINESS)

class RSwap:
    def __init__(self, trade, sc=SC.T_PLUS_TWO_BUSINESS, tenor='1Y', ff=PF.QUARTERLY, xf=PF.SEMI_ANNUAL, fd=C.ACTUAL_OVER_360, xd=C.THIRTY_OVER_THREESIXTY,
                 adj=BDA.MODIFIED_FOLLOWING, fix=SC.T_MINUS_TWO_BUSINESS, delay=SC.T_PLUS_TWO_BUSINESS, us=True):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.k = cal(us)
        self.start = self.k.add(trade, SETTLE[sc])
        self.end = add_months(self.start, months(tenor))

    def adjust(self, d):
        f = self.k.add(d, 0)
        return self.k.before_or_on(d) if self.adj is BDA.MODIFIED_FOLLOWING and f.month != d.month else f

    def leg(self, floating):
        pf, dcc = (self.ff, self.fd) if floating else (self.xf, self.xd)
        step, ds, n = 12 // pf.value, [], 0
        while (d := add_months(self.end, -step * n)) > self.start:
            ds.append(d); n += 1
        ds = [self.adjust(d) for d in [self.start] + ds[::-1]]
        return [(a, b, float(REF[dcc](a, b))) for a, b in zip(ds, ds[1:])]

    def make(self, cls=TermInterestRateSwap, direction=DIR.PAYER_FIXED, rate=0.05, notional=1_000_000):
        return cls(float_index=CurveIndex.LIBOR_3M if cls is TermInterestRateSwap else CurveIndex.SOFR, direction=direction, fixed_rate=rate, notional=notional, purchase_date=self.trade,
                   settlement_convention=self.sc, tenor=self.tenor, floating_leg_payment_frequency=self.ff, fixed_leg_payment_frequency=self.xf,
                   floating_leg_day_count_convention=self.fd, fixed_leg_day_count_convention=self.xd, holiday_calendar=US_FEDERAL_HOLIDAYS if self.us else {},
                   fixing_date_for_accrual_period=self.fix, payment_delay=self.delay, business_day_adjustment=self.adj)

def check(ctx, r, cls, tag):
    ok, s = ctx.call(tag, r.make, cls)
    if not ok: return
    ctx.expect((s.start_accrual_date, s.end_accrual_date) == (r.start, r.end), tag + "|term", f"term {s.start_accrual_date}..{s.end_accrual_date}, want {r.start}..{r.end}")
    ok, kv = ctx.call(tag + "|knot", s.to_knot_value_pair)
    if ok: ctx.expect(tuple(kv) == (r.end, 0.05), tag + "|knot", f"knot {kv}")
    for floating in (True, False):
        key = f"{tag}|{'floating' if floating else 'fixed'}"
        ctx.step()
        fn = s.generate_floating_leg_accrual_schedule if floating else s.generate_fixed_leg_accrual_schedule
        ok, got = ctx.call(key, fn)
        if not ok: continue
        want = r.leg(floating)
        g = [(a.start_accrual, a.end_accrual) for a in got]
        if not ctx.expect(g == [w[:2] for w in want], key, f"periods {g}, want {[w[:2] for w in want]}"): continue
        for a, (_, _, f) in zip(got, want):
            ctx.expect(abs(a.accrual_factor - f) < 1e-11, key + "|factor", f"{a}: want {f}")
        # the periods tile the life without gaps or overlaps
        ctx.expect(g[0][0] == r.adjust(r.start) and g[-1][1] == r.adjust(r.end) and all(x[1] == y[0] and x[0] < x[1] for x, y in zip(g, g[1:])), key + "|tile", f"{g}")
        ok, again = ctx.call(key, fn)
        if ok: ctx.expect(again == got, key + "|again", "a second call gives another schedule")
        ctx.outcome((len(g), tuple((b - a).days for a, b in g[:2])))

def block(ctx, item):
    first, n, us = item
    d = first
    for _ in range(n):
        for i, tenor in enumerate(TENORS if ctx.thorough else TENORS[:6] if d.day > 25 or d.day == 1 else TENORS[1:5]):
            for j, ff in enumerate(FREQS):
                for adj in (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING):
                    o = d.toordinal() + i + j
                    xf = FREQS[(j + 1) % 3]
                    dcs = list(C)
                    r = RSwap(d, SCS[o % 4], tenor, ff, xf, dcs[o % 5], dcs[(o + 2) % 5], adj, us=us)
                    tag = f"{d}|{r.sc.name}|{tenor}|{ff.name}|{adj.name}|{'us' if us else 'weekends'}"
                    ctx.state(tag); ctx.trace()
                    check(ctx, r, TermInterestRateSwap if o % 2 else OvernightIndexSwap, tag)
        d += timedelta(1)

def variants(base):
    """(what differs, swap): a swap and the swaps that differ from it in one term only."""
    names = ("trade", "sc", "tenor", "ff", "xf", "fd", "xd", "adj", "fix", "delay", "us")
    other = dict(trade=(base.trade + timedelta(1), base.trade - timedelta(5), base.trade + timedelta(30)), sc=[c for c in SCS if c is not base.sc], tenor=('18M', '2Y', '9M', '10M'), ff=[f for f in FREQS if f is not base.ff],
                 xf=[f for f in FREQS if f is not base.xf], fd=[c for c in C if c is not base.fd], xd=[c for c in C if c is not base.xd], adj=[a for a in (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING) if a is not base.adj],
                 fix=[c for c in (SC.T_MINUS_TWO_BUSINESS, SC.T_MINUS_ONE_BUSINESS, SC.T_PLUS_ZERO_BUSINESS) if c is not base.fix], delay=[c for c in SCS if c is not base.delay], us=(not base.us,))
    return [("base", base)] + [(f"{w}={getattr(v, 'name', v)}", RSwap(**{**{k: getattr(base, k) for k in names}, w: v})) for w, vs in other.items() for v in vs]

BASES = (dict(trade=date(2023, 5, 30), tenor='1Y'), dict(trade=date(2024, 12, 27), sc=SC.T_PLUS_ONE_BUSINESS, tenor='15M', ff=PF.SEMI_ANNUAL, xf=PF.QUARTERLY, fd=C.ACTUAL_OVER_365, xd=C.ACTUAL_OVER_ACTUAL,
         adj=BDA.FOLLOWING, fix=SC.T_PLUS_ZERO_BUSINESS, delay=SC.T_PLUS_ZERO_BUSINESS))

def twins(ctx, item):
    """Swaps that differ in one term, asked in turns: each has its own schedules."""
    cls, kw = item
    vs = variants(RSwap(**kw))
    objs = [r.make(cls) for _, r in vs]
    for i, j in itertools.permutations(range(len(vs)), 2):
        if i and j and not ctx.thorough: continue
        key = f"twins|{cls.__name__}|{kw['trade']}|{vs[i][0]}|{vs[j][0]}"
        ctx.state(key); ctx.trace()
        for x in (i, j, i):
            what, r = vs[x]
            for floating in (True, False):
                ctx.step()
                ok, got = ctx.call(key, objs[x].generate_floating_leg_accrual_schedule if floating else objs[x].generate_fixed_leg_accrual_schedule)
                if not ok: continue
                g, want = [(a.start_accrual, a.end_accrual, a.accrual_factor) for a in got], r.leg(floating)
                ctx.expect(len(g) == len(want) and all(a[:2] == b[:2] and abs(a[2] - b[2]) < 1e-11 for a, b in zip(g, want)), f"{key}|{floating}", f"{what}: periods {g}, want {want}")
                if got and x == i: got.pop()             # the returned schedule is the caller's: losing a period changes nothing

LONG = ('1M', '5M', '7M', '10M', '12M', '4Y', '7Y', '10Y', '30Y')

def far(ctx, item):
    year, month, tenor = item
    e = date(year + month // 12, month % 12 + 1, 1)
    for d in (date(year, month, 1), date(year, month, 15), e - timedelta(4), e - timedelta(3), e - timedelta(2), e - timedelta(1)):
        for i, (sc, adj, us) in enumerate(itertools.product(SCS, (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING), (True, False))):
            o = d.toordinal() + i
            dcs = list(C)
            r = RSwap(d, sc, tenor, FREQS[o % 3], FREQS[(o // 3 + 1) % 3], dcs[o % 5], dcs[(o + 2) % 5], adj, us=us)
            tag = f"far|{d}|{sc.name}|{tenor}|{r.ff.name}|{adj.name}|{'us' if us else 'weekends'}"
            ctx.state(tag); ctx.trace()
            check(ctx, r, TermInterestRateSwap if o % 2 else OvernightIndexSwap, tag)

def run(ctx):
    cal(True), cal(False)
    years = (1972, 2000, 2012, 2016, 2019, 2024, 2031) if ctx.thorough else (2000, 2019, 2024)
    ctx.bound("far", f"month edges of {years} x tenors {LONG} x settlement conventions x adjustments x calendars")
    ctx.pmap(far, [(y, m, t) for y in years for m in range(1, 13) for t in LONG])
    first, days = date(2022, 12, 1), (1500 if ctx.thorough else 500)
    ctx.bound("trade_dates", f"{days} consecutive days from {first}"); ctx.bound("tenors", TENORS); ctx.bound("frequencies", [f.name for f in FREQS])
    ctx.pmap(block, [(first + timedelta(k), min(10, days - k), k % 20 < 10 or ctx.thorough) for k in range(0, days, 10)])
    ctx.bound("twins", "a swap and about 27 swaps that differ from it in one term, asked in turns")
    ctx.pmap(twins, [(c, kw) for c in (TermInterestRateSwap, OvernightIndexSwap) for kw in BASES])
    for bad in ('2W', '1', 'Y'):
        try:
            RSwap(date(2024, 1, 4)).make()  # sanity
            r = RSwap(date(2024, 1, 4)); r.tenor = bad
            r.make()
            ctx.violation(f"tenor|{bad}", "an invalid tenor was accepted")
        except ValueError:
            ctx.step()
    ctx.assume("tenors are whole months or years; a leg's first period is the stub when its frequency does not divide the tenor")
    ctx.sample("18M swap with annual payments traded 2024-08-28: two periods, the first one a six month stub")
