"""C01: the business-day calendar. The whole 400-year Gregorian cycle is the state space (thorough), every
weekday-of-Jan-1 x leap-year class plus 56 consecutive years (quick), for the federal calendar; every one-holiday
calendar (each month/day x each adjustment rule) over all year classes; all year-range queries over a short window."""
from datetime import date, timedelta
import itertools
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools import holidays as H
from fixedIncome.src.scheduling_tools.schedule_enumerations import Months, Weekdays

D1 = timedelta(days=1)

# ---- reference: written from the documented rules, not from the code ------------------------------------
def nth_weekday(y, m, wd, n):
    d = date(y, m, 1)
    hits = []
    while d.month == m:
        if d.weekday() == wd:
            hits.append(d)
        d += D1
    return hits[n - 1]

def observed(d):
    if d.weekday() == 5:
        return d - D1
    if d.weekday() == 6:
        return d + D1
    return d

RULES = {
    'NewYears':     lambda y: observed(date(y, 1, 1)),
    'MLK':          lambda y: observed(date(y, 1, 17)),
    'Presidents':   lambda y: nth_weekday(y, 2, 0, 3),
    'Memorial':     lambda y: observed(date(y, 5, 30)),
    'Juneteenth':   lambda y: observed(date(y, 6, 19)),
    'Independence': lambda y: observed(date(y, 7, 4)),
    'Labor':        lambda y: nth_weekday(y, 9, 0, 1),
    'Columbus':     lambda y: nth_weekday(y, 10, 0, 2),
    'Veterans':     lambda y: observed(date(y, 11, 11)),
    'Thanksgiving': lambda y: nth_weekday(y, 11, 3, 4),
    'Christmas':    lambda y: observed(date(y, 12, 25)),
}

def ref_holidays(y0, y1):
    return {r(y) for r in RULES.values() for y in range(y0, y1 + 1)}

def federal_years(ctx, block):
    y0, y1 = block
    ref = ref_holidays(y0 - 1, y1 + 1)
    d, end = date(y0, 1, 1), date(y1, 12, 31)
    while d <= end:
        ok, got = ctx.call(f"business-day|{d}", Scheduler.is_business_day, d, H.US_FEDERAL_HOLIDAYS)
        want = d.weekday() < 5 and d not in ref
        ctx.state(("day", d)); ctx.step(); ctx.trace(); ctx.n_evals += 1
        if ok:
            ctx.expect(bool(got) == want, f"business-day|{d}", f"{d} ({d:%a}) business day: got {got}, want {want}")
        ctx.outcome((d.weekday(), d.month, want))
        d += D1
    for y in range(y0, y1 + 1):
        for name, rule in RULES.items():
            ok, got = ctx.call(f"observed|{name}|{y}", H.generate_holiday_dates, name, y, y, H.US_FEDERAL_HOLIDAYS)
            ctx.step()
            if ok:
                ctx.expect(set(got) == {rule(y)}, f"observed|{name}|{y}", f"{name} {y}: {sorted(got)} want {rule(y)}")
                for g in got:
                    ctx.expect(g.weekday() < 5, f"weekend-holiday|{name}|{y}", f"{g} is observed on a weekend")
    # range queries: every sub-range of a short window is the union of the years
    for a in range(y0, min(y0 + 4, y1 + 1)):
        for b in range(a, min(a + 4, y1 + 1)):
            ok, got = ctx.call(f"range|{a}-{b}", H.generate_all_holidays, a, b, H.US_FEDERAL_HOLIDAYS)
            ctx.step()
            if ok:
                ctx.expect(set(got) == ref_holidays(a, b), f"range|{a}-{b}", "holidays of a year range differ from the union of its years")
            for name in RULES:
                ok, got = ctx.call(f"range1|{name}|{a}-{b}", H.generate_holiday_dates, name, a, b, H.US_FEDERAL_HOLIDAYS)
                ctx.step()
                if ok:
                    ctx.expect(set(got) == {RULES[name](y) for y in range(a, b + 1)}, f"range1|{name}|{a}-{b}", f"{sorted(got)}")

# 14 year classes (weekday of Jan 1 x leap), as triples of neighbouring years around a class representative
def class_years():
    seen, out = set(), []
    for y in range(1998, 2130):
        leap = (date(y, 12, 31) - date(y, 1, 1)).days == 365
        pleap = (date(y - 1, 12, 31) - date(y - 1, 1, 1)).days == 365
        k = (date(y, 1, 1).weekday(), leap, pleap)
        if k not in seen:
            seen.add(k); out.append(y)
    return out

def one_holiday_calendars(ctx, month):
    """Calendars with a single holiday at any month/day: fixed-date and next-weekday rules."""
    years = class_years()
    adjs = [("fed", H.us_federal_holiday_adjustment, observed)]
    for wd in range(7):
        W = Weekdays(wd)
        adjs.append((f"next{wd}", (lambda dd, W=W: H.get_next_weekday(dd, W)),
                     (lambda dd, wd=wd: next(dd + timedelta(k) for k in range(7) if (dd + timedelta(k)).weekday() == wd))))
    days = range(1, 32) if ctx.thorough else (1, 2, 3, 8, 15, 24, 25, 28, 29, 30, 31)
    for day in days:
        try:
            date(2023, month, day)
        except ValueError:
            continue
        for (nm, adj, ref), mkey in itertools.product(adjs, (month, Months(month))):
            cal = {"X": H.Holiday(mkey, day, adj)}
            for y in years:
                offs = {ref(date(yy, month, day)) for yy in (y - 1, y, y + 1)}
                probe = {o for o in offs} | {o + D1 for o in offs} | {o - D1 for o in offs} | {date(y, month, day), date(y, 1, 1), date(y, 12, 31)}
                probe |= {date(y, month, day) + timedelta(k) for k in range(-2, 9)}
                for p in sorted(probe):
                    if abs(p.year - y) > 0:
                        continue
                    key = f"one-holiday|{month}/{day}|{nm}|{p}"
                    ok, got = ctx.call(key, Scheduler.is_business_day, p, cal)
                    want = p.weekday() < 5 and p not in offs
                    ctx.step(); ctx.state((month, day, nm, p)); ctx.trace(); ctx.n_evals += 1
                    if ok:
                        ctx.expect(bool(got) == want, key, f"calendar with one holiday {month}/{day} ({nm}): {p} got {got} want {want}")

def weekday_search(ctx, _):
    d = date(2023, 12, 1)
    for k in range(0, 430):
        dd = d + timedelta(k)
        for W in Weekdays:
            for fn, nm in ((H.get_next_weekday, "h"), (Scheduler.get_next_weekday, "s")):
                ok, got = ctx.call(f"next-weekday|{dd}|{W.name}", fn, dd, W)
                ctx.step(); ctx.state(("nw", dd, W.value))
                if ok:
                    want = next(dd + timedelta(j) for j in range(7) if (dd + timedelta(j)).weekday() == W.value)
                    ctx.expect(got == want, f"next-weekday|{dd}|{W.name}", f"{got} want {want}")
    for y in range(2015, 2045):
        for k in range(366):
            dd = date(y, 1, 1) + timedelta(k)
            ok, got = ctx.call(f"fed-adjust|{dd}", H.us_federal_holiday_adjustment, dd)
            ctx.step()
            if ok:
                ctx.expect(got == observed(dd), f"fed-adjust|{dd}", f"{dd:%a} {dd} observed {got}, want {observed(dd)}")
    for bad in ("Easter", "", "newyears"):
        try:
            H.generate_holiday_dates(bad, 2023, 2023, H.US_FEDERAL_HOLIDAYS)
            ctx.violation(f"unknown-name|{bad}", "an unknown holiday name was accepted")
        except KeyError:
            ctx.step()
    ctx.expect(set(H.US_FEDERAL_HOLIDAYS) == set(RULES), "calendar-names", f"{sorted(H.US_FEDERAL_HOLIDAYS)}")

def histories(ctx, first):
    """One calendar dictionary that changes between questions (holidays declared, replaced, withdrawn), next to an unchanged copy of it;
    also what a caller does to a handed-out set of holidays must not come back."""
    H0 = {"a": (7, 3, "fed"), "b": (12, 31, "fed")}
    adj = {"fed": (H.us_federal_holiday_adjustment, observed), "mon": (lambda dd: H.get_next_weekday(dd, Weekdays.MONDAY), lambda dd: next(dd + timedelta(k) for k in range(7) if (dd + timedelta(k)).weekday() == 0)),
           "none": (lambda dd: dd, lambda dd: dd)}
    mk = lambda v: H.Holiday(v[0], v[1], adj[v[2]][0])
    acts = [("set", "a", (7, 4, "fed")), ("set", "a", (7, 3, "mon")), ("set", "c", (7, 3, "none")), ("set", "b", (1, 1, "fed")), ("del", "a", None), ("del", "b", None), ("ask", None, None), ("spoil", None, None)]
    probes = [date(2027, 7, d) for d in range(1, 8)] + [date(2027, 12, 30), date(2027, 12, 31), date(2028, 1, 3)] + [date(2028, 7, d) for d in (3, 4, 5)]
    for rest in itertools.product(acts, repeat=4 if ctx.thorough else 3):
        seq = (first,) + rest
        cal, model = {k: mk(v) for k, v in H0.items()}, dict(H0)
        other = dict(cal)
        key = f"changing-calendar|{[(a, n, v) for a, n, v in seq]}"
        ctx.trace(); ctx.state(key)
        def ask(c, md):
            ref = {adj[v[2]][1](date(y, v[0], v[1])) for v in md.values() for y in range(2025, 2031)}
            for p in probes:
                ok, got = ctx.call(key, Scheduler.is_business_day, p, c); ctx.step()
                if ok: ctx.expect(bool(got) == (p.weekday() < 5 and p not in ref), key, f"{p} business day: {got} with {md}")
            for n, v in md.items():
                ok, got = ctx.call(key, H.generate_holiday_dates, n, 2026, 2028, c); ctx.step()
                if ok: ctx.expect(set(got) == {adj[v[2]][1](date(y, v[0], v[1])) for y in (2026, 2027, 2028)}, key, f"{n}: {got}")
        for a, n, v in seq:
            if a == "set": cal[n] = mk(v); model[n] = v
            elif a == "del": cal.pop(n, None); model.pop(n, None)
            elif a == "spoil":
                for fn, ar in ((H.generate_all_holidays, (2027, 2028, cal)), (H.generate_holiday_dates, ("b", 2027, 2028, other))):
                    ok, got = ctx.call(key, fn, *ar); ctx.step()
                    if ok and isinstance(got, set): got.clear(); got.add(date(2027, 7, 6))
            else: ask(cal, model)
        ask(cal, model); ask(other, H0)

def run(ctx):
    lo, hi = (1800, 2199) if ctx.thorough else (1985, 2084)
    ctx.bound("federal_calendar_years", f"{lo}-{hi} every day")
    ctx.bound("one_holiday_calendars", "12 months x days x {federal, next Mon..Sun} x all (weekday of Jan 1, leap, previous leap) year classes")
    ctx.assume("the calendar's rule table (which holidays, nominal dates) is the documented one pinned by the repository's tests")
    step = 10
    ctx.pmap(federal_years, [(a, min(a + step - 1, hi)) for a in range(lo, hi + 1, step)])
    ctx.pmap(one_holiday_calendars, range(1, 13))
    ctx.pmap(weekday_search, [0])
    acts = [("set", "a", (7, 4, "fed")), ("set", "c", (7, 3, "none")), ("del", "a", None), ("ask", None, None), ("spoil", None, None)]
    ctx.bound("changing_calendars", f"every history of {5 if ctx.thorough else 4} actions: holiday set, withdrawn, asked about, returned sets spoiled")
    ctx.pmap(histories, acts)
    ctx.sample("2021-12-31 (Fri): New Year 2022 falls on a Saturday -> not a business day")
    ctx.sample("one-holiday calendar 12/31, federal adjustment, Dec 31 2023 (Sun) -> Jan 1 2024 observed")
