"""C02: business-day arithmetic, date adjustments, settlement. Explores every start date of a window x every shift, and
every closure pattern (all subsets of closed days) around month, year and leap-day ends."""
from datetime import date, timedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools import holidays as H
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention as SC, Weekdays
from checks.c01 import ref_holidays
D1 = timedelta(days=1)

class Ref:
    """Business days of a window as an explicit sorted list."""
    def __init__(self, closed, lo, hi):
        self.days = []
        d = lo
        while d <= hi:
            if d.weekday() < 5 and d not in closed:
                self.days.append(d)
            d += D1
        self.idx = {d: i for i, d in enumerate(self.days)}
    def roll(self, d):                      # on or after
        while d not in self.idx:
            d += D1
        return self.idx[d]
    def add(self, d, n):
        return self.days[self.roll(d) + n]
    def before_or_on(self, d):
        while d not in self.idx:
            d -= D1
        return d

SETTLE = {SC.T_MINUS_TWO_BUSINESS: -2, SC.T_MINUS_ONE_BUSINESS: -1, SC.T_PLUS_ZERO_BUSINESS: 0,
          SC.T_PLUS_ONE_BUSINESS: 1, SC.T_PLUS_TWO_BUSINESS: 2, SC.T_PLUS_THREE_BUSINESS: 3}

def check_day(ctx, ref, d, cal, tag, shifts):
    def cmp(op, fn, want, *a):
        key = f"{tag}|{op}|{d}"
        ok, got = ctx.call(key, fn, *a)
        ctx.step(); ctx.n_evals += 1
        if ok:
            ctx.expect(got == want, key, f"{op} from {d} ({d:%a}): got {got}, want {want}")
    for n in shifts:
        cmp(f"add{n:+d}", Scheduler.add_business_days, ref.add(d, n), d, n, cal)
    if d in ref.idx:
        cmp("add-single", Scheduler.add_single_business_day, ref.add(d, 1), d, cal)
        cmp("settle-T-0", Scheduler.calculate_settlement_date, d, d, SC.T_MINUS_ZERO_BUSINESS, cal)
    else:
        try:
            Scheduler.add_single_business_day(d, cal)
            ctx.violation(f"{tag}|add-single|{d}", "a non-business day was accepted as a start")
        except ValueError:
            ctx.step()
        cmp("settle-T-0", Scheduler.calculate_settlement_date, ref.before_or_on(d), d, SC.T_MINUS_ZERO_BUSINESS, cal)
    cmp("subtract-single", Scheduler.subtract_single_business_day, ref.before_or_on(d - D1) if d in ref.idx else ref.before_or_on(d), d, cal)
    fol = ref.add(d, 0)
    cmp("following", Scheduler.following_date_adjustment, fol, d, cal)
    cmp("modified-following", Scheduler.modified_following_date_adjustment, fol if fol.month == d.month else ref.before_or_on(d), d, cal)
    for sc, n in SETTLE.items():
        cmp(f"settle-{sc.name}", Scheduler.calculate_settlement_date, ref.add(d, n), d, sc, cal)
    ctx.outcome(((fol - d).days, fol.month == d.month, d.weekday()))

def block(ctx, yr):
    ref = Ref(ref_holidays(yr - 1, yr + 2), date(yr, 1, 1) - timedelta(60), date(yr, 12, 31) + timedelta(60))
    far = Ref(ref_holidays(yr - 2, yr + 3), date(yr - 1, 1, 1) - timedelta(60), date(yr + 2, 12, 31) + timedelta(60))
    shifts = range(-10, 11) if ctx.thorough else (-7, -5, -3, -2, -1, 0, 1, 2, 3, 5, 7)
    d = date(yr, 1, 1)
    while d.year == yr:
        ctx.state(("d", d)); ctx.trace()
        check_day(ctx, ref, d, H.US_FEDERAL_HOLIDAYS, "fed", shifts)
        if d.day in (1, 15, 28, 31):            # far away
            for n in (21, 22, 60, 65, 66, 130, -21, -64, -130) + ((252, -252, 520) if ctx.thorough else ()):
                key = f"fed|add{n:+d}|{d}"
                ok, got = ctx.call(key, Scheduler.add_business_days, d, n, H.US_FEDERAL_HOLIDAYS)
                ctx.step()
                if ok: ctx.expect(got == far.add(d, n), key, f"{n:+d} business days from {d}: got {got}, want {far.add(d, n)}")
        d += D1
    # ranges: every start in two windows x every length
    for base in (date(yr, 1, 1) - timedelta(12), date(yr, 6, 25)):
        for i in range(0, 16):
            for ln in range(-2, 26 if ctx.thorough else 16):
                a = base + timedelta(i); b = a + timedelta(ln)
                ok, got = ctx.call(f"range|{a}|{b}", Scheduler.generate_business_days, a, b, H.US_FEDERAL_HOLIDAYS)
                ctx.step(); ctx.state(("r", a, b))
                if ok:
                    want = [x for x in ref.days if a <= x <= b]
                    ctx.expect(list(got) == want, f"range|{a}|{b}", f"got {got[:3]}..x{len(got)}, want x{len(want)}")

def closures(ctx, item):
    """Every subset of the days [-k, +k] around an anchor is closed: calendars with identity adjustments."""
    anchor, k, wd = item
    base = anchor
    while base.weekday() != wd:             # same month/day in another year with that weekday
        try:
            base = base.replace(year=base.year + 1)
        except ValueError:
            base = base.replace(year=base.year + 4)
    days = [base + timedelta(j) for j in range(-k, k + 1)]
    days = [x for x in days if x.weekday() < 5]
    for mask in range(1 << len(days)):
        closed_nominal = [x for i, x in enumerate(days) if mask >> i & 1]
        cal = {f"c{i}": H.Holiday(x.month, x.day, lambda dd: dd) for i, x in enumerate(closed_nominal) if not (x.month == 2 and x.day == 29)}
        closed = set()
        for x in closed_nominal:
            if x.month == 2 and x.day == 29:
                continue
            closed |= {date(y, x.month, x.day) for y in range(base.year - 1, base.year + 2)}
        ref = Ref(closed, base - timedelta(80), base + timedelta(80))
        for j in range(-k - 1, k + 2):
            d = base + timedelta(j)
            ctx.state((str(base), mask, j)); ctx.trace()
            check_day(ctx, ref, d, cal, f"closed{mask:b}@{base}", (-3, -1, 0, 1, 3))

LONG_CALS = {"fed": dict(H.US_FEDERAL_HOLIDAYS), "none": {},
             "fixed": {n: H.Holiday(m, d, lambda x: x) for n, m, d in (("new", 1, 1), ("labour", 5, 1), ("christmas", 12, 25), ("boxing", 12, 26), ("summer", 8, 15))},
             "observed": {n: H.Holiday(m, d, lambda x: H.get_next_weekday(x, w)) for n, m, d, w in (("a", 3, 28, Weekdays.MONDAY), ("b", 12, 30, Weekdays.WEDNESDAY))}}

def long_moves(ctx, item):
    """Moves of up to several years, over calendars whose holidays do or do not leave the weekends."""
    tag, yr = item
    cal = LONG_CALS[tag]
    closed = {h.Adjustment_Function(date(y, getattr(h.Month, "value", h.Month), h.Day)) for h in cal.values() for y in range(yr - 6, yr + 7)}
    ref = Ref(closed, date(yr - 5, 1, 1), date(yr + 5, 12, 31))
    d = date(yr, 1, 1)
    while d.year == yr:
        for n in LONG:
            key = f"long|{tag}|{d}|{n:+d}"
            ok, got = ctx.call(key, Scheduler.add_business_days, d, n, cal)
            ctx.step(); ctx.n_evals += 1
            if ok: ctx.expect(got == ref.add(d, n), key, f"{n:+d} business days from {d}: got {got}, want {ref.add(d, n)}")
        ctx.state(("long", tag, d)); ctx.trace()
        d += timedelta(23) if not ctx.thorough else timedelta(5)
    a, b = date(yr, 2, 3), date(yr + 2, 3, 4)
    ok, got = ctx.call(f"long-range|{tag}|{yr}", Scheduler.generate_business_days, a, b, cal)
    if ok: ctx.expect(list(got) == [x for x in ref.days if a <= x <= b], f"long-range|{tag}|{yr}", f"{len(got)} business days of {a}..{b}")

LONG = (9, 31, 99, 250, 251, 262, 366, 521, 783, -9, -31, -99, -250, -262, -366, -521)

def run(ctx):
    ctx.bound("long_moves", f"{LONG} business days x {list(LONG_CALS)} calendars")
    ctx.pmap(long_moves, [(t, y) for t in LONG_CALS for y in ((2010, 2015, 2021, 2024, 2027) if not ctx.thorough else range(2010, 2038))])
    yrs = range(1990, 2090) if ctx.thorough else range(2010, 2038)
    ctx.bound("start_dates", f"every day {yrs[0]}..{yrs[-1]}")
    ctx.pmap(block, yrs)
    k = 4 if ctx.thorough else 3
    anchors = [date(2023, 2, 28), date(2024, 3, 1), date(2023, 12, 31), date(2023, 4, 30), date(2023, 1, 1), date(2023, 7, 31)]
    ctx.bound("closure_patterns", f"every subset of the weekdays within {k} days of {len(anchors)} anchors, each anchor on every weekday")
    ctx.pmap(closures, [(a, k, wd) for a in anchors for wd in range(7)])
    for sc in ("no such convention", None, 17):
        try:
            Scheduler.calculate_settlement_date(date(2023, 1, 3), sc, H.US_FEDERAL_HOLIDAYS)
            ctx.violation(f"bad-convention|{sc}", "an unknown settlement convention was accepted")
        except ValueError:
            ctx.step()
    ctx.sample("2023-12-31 (Sun) modified following -> 2023-12-29; following -> 2024-01-02")
    ctx.sample("2021-12-31 is closed: 2021-12-30 + 1 business day -> 2022-01-03")
