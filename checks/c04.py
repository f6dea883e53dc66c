"""C04: day counts. Every ordered pair of days of a window (leap, common and century years) under every convention
against definitional references; every (day, time-of-day) pair for datetimes; additivity over all split points."""
from datetime import date, datetime, timedelta
import calendar
from fractions import Fraction as F
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator as DC
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C

ylen = lambda y: 366 if calendar.isleap(y) else 365

def eom_feb(d):
    return d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]

def thirty(s, e):
    d1, d2 = s.day, e.day
    if eom_feb(s) and eom_feb(e): d2 = 30
    if eom_feb(s): d1 = 30
    if d2 == 31 and d1 >= 30: d2 = 30
    if d1 == 31: d1 = 30
    return F(360 * (e.year - s.year) + 30 * (e.month - s.month) + d2 - d1, 360)

# cumulative act/act clock: each elapsed day weighs 1/length of the year it ends in
_clock = {}
def clock(d):
    if not _clock:
        t = F(0); x = date(1895, 1, 1)
        while x <= date(2110, 1, 1):
            _clock[x] = t
            x += timedelta(1)
            t += F(1, ylen(x.year))
    return _clock[d]

REF = {
    C.ACTUAL_OVER_360: lambda s, e: F((e - s).days, 360),
    C.ACTUAL_OVER_365: lambda s, e: F((e - s).days, 365),
    C.ACTUAL_OVER_365_POINT_25: lambda s, e: F((e - s).days * 4, 1461),
    C.ACTUAL_OVER_ACTUAL: lambda s, e: clock(e) - clock(s),
    C.THIRTY_OVER_THREESIXTY: thirty,
}
TOL = 1e-11

def pairs(ctx, item):
    start, ends = item
    for e in ends:
        for c in C:
            key = f"accrual|{c.name}|{start}|{e}"
            ok, got = ctx.call(key, DC.compute_accrual_length, start, e, c)
            ctx.step(); ctx.n_evals += 1
            want = float(REF[c](start, e))
            if ok:
                ctx.expect(abs(got - want) <= TOL, key, f"{c.name} {start}->{e}: got {got!r}, want {want!r}")
                ctx.expect(got >= 0, "negative|" + key, f"{got!r}")
        ctx.state((start, e)); ctx.trace()
        ctx.outcome(REF[C.THIRTY_OVER_THREESIXTY](start, e))
        if e > start:
            for c in C:
                try:
                    r = DC.compute_accrual_length(e, start, c)
                    ctx.violation(f"reversed|{c.name}|{e}|{start}", f"reversed dates gave {r!r}")
                except ValueError:
                    ctx.step()

TIMES = [timedelta(0), timedelta(hours=6), timedelta(hours=12), timedelta(hours=23, minutes=59, seconds=59)]

def dtref(c, s, e):
    """Linear between midnights in each argument; at midnight the date's accrual."""
    ds, de = s.date(), e.date()
    fs = F(int((s - datetime.combine(ds, datetime.min.time())).total_seconds()), 86400)
    fe = F(int((e - datetime.combine(de, datetime.min.time())).total_seconds()), 86400)
    f = REF[c]
    if ds == de:
        return f(ds, ds + timedelta(1)) * (fe - fs)
    m, i, o = f(ds, de), f(ds + timedelta(1), de), f(ds, de + timedelta(1))
    return i + (m - i) * (1 - fs) + (o - m) * fe

def datetimes(ctx, start):
    mk = lambda d: datetime(d.year, d.month, d.day)
    spans = list(range(0, 5)) + [27, 28, 29, 30, 31, 58, 59, 60, 61, 89, 180, 364, 365, 366, 367, 731] if not ctx.thorough else list(range(0, 70)) + list(range(355, 372)) + [731, 1460, 1461]
    for off in spans:
        e0 = start + timedelta(off)
        for t1 in TIMES:
            for t2 in TIMES:
                s, e = mk(start) + t1, mk(e0) + t2
                if e < s:
                    for c, e1 in [(c, x) for c in C for x in ([e, e0] if not t2 else [e])]:
                        try:
                            DC.compute_accrual_length(s, e1, c)
                            ctx.violation(f"reversed|{c.name}|{s}|{e}", "reversed datetimes accepted")
                        except ValueError:
                            ctx.step()
                    continue
                variants = [(s, e)]
                if t1 == TIMES[0]: variants.append((start, e))
                if t2 == TIMES[0]: variants.append((s, e0))
                for a, b in variants:
                    for c in C:
                        key = f"datetime|{c.name}|{a}|{b}|{type(a).__name__}{type(b).__name__}"
                        ok, got = ctx.call(key, DC.compute_accrual_length, a, b, c)
                        ctx.step(); ctx.n_evals += 1
                        if not ok:
                            continue
                        want = float(dtref(c, s, e))
                        ctx.expect(abs(got - want) <= TOL, key, f"{c.name} {a!r}->{b!r}: got {got!r}, want {want!r}")
                        ctx.expect(got >= 0, "negative|" + key, f"{got!r}")
                ctx.state((s, e)); ctx.trace()
        for t1 in TIMES:
            for t2 in TIMES:
                s, e = mk(start) + t1, mk(e0) + t2
                td = e - s
                ok, got = ctx.call(f"fraction|{td}", DC.time_fraction_in_years, td)
                ctx.step()
                if ok:
                    ctx.expect(abs(got - td.total_seconds() / (365.25 * 86400)) <= 1e-13, f"fraction|{td}", f"{got!r}")

def additive(ctx, start):
    """Splitting a period at any point leaves the actual-based accrual unchanged."""
    tot = 400
    for c in C:
        if c == C.THIRTY_OVER_THREESIXTY:
            continue
        for hi in (90, 366, tot):
            e = start + timedelta(hi)
            for cut in range(0, hi + 1, 1 if ctx.thorough else 3):
                m = start + timedelta(cut)
                key = f"additive|{c.name}|{start}|{m}|{e}"
                ok, v = ctx.call(key, lambda: (DC.compute_accrual_length(start, m, c), DC.compute_accrual_length(m, e, c), DC.compute_accrual_length(start, e, c)))
                ctx.step(3); ctx.state((c.name, start, m, e))
                if ok:
                    ctx.expect(abs(v[0] + v[1] - v[2]) <= TOL, key, f"{v}")

def run(ctx):
    clock(date(2000, 1, 1))
    T1 = timedelta(1)
    items = []
    lo, hi = (date(2022, 12, 1), date(2025, 3, 2)) if ctx.thorough else (date(2023, 1, 25), date(2024, 4, 2))
    span = [lo + timedelta(i) for i in range((hi - lo).days + 1)]
    if not ctx.thorough:
        starts = [d for d in span if d.day in (1, 2, 14, 26, 27, 28, 29, 30, 31)]
    else:
        starts = span
    for s in starts:
        items.append((s, [e for e in span if e >= s]))
    ends_far = [date(y, m, d) for y in (1900, 1901, 1996, 1999, 2000, 2001, 2003, 2004, 2096, 2100, 2101) for (m, d) in
                ((1, 1), (1, 30), (1, 31), (2, 27), (2, 28), (3, 1), (3, 30), (3, 31), (6, 15), (12, 30), (12, 31))]
    ends_far += [date(y, 2, 29) for y in (1996, 2000, 2004, 2096)]
    ends_far.sort()
    for s in ends_far:
        items.append((s, [e for e in ends_far if e >= s]))
    ctx.bound("day_pairs", f"{lo}..{hi} and month-end days of 1900..2101")
    ctx.pmap(pairs, items)
    mids = [d for d in span if ctx.thorough or d.day in (1, 15, 28, 29, 30, 31)]
    ctx.pmap(datetimes, mids)
    ctx.pmap(additive, [date(2023, 1, 31), date(2023, 12, 31), date(2024, 1, 1), date(2024, 2, 28), date(2024, 2, 29), date(2024, 12, 30)])
    for bad in ("ACT/360", None, 3):
        try:
            DC.compute_accrual_length(date(2023, 1, 1), date(2023, 2, 1), bad)
            ctx.violation(f"bad-convention|{bad}", "accepted")
        except TypeError:
            ctx.step()
    ctx.sample("30/360 2024-02-28 -> 2024-02-29 = 1/360; 2024-02-29 -> 2024-03-31 = 30/360")
    ctx.sample("ACT/ACT 2023-12-31 12:00 -> 2024-01-01 12:00 = 0.5/366 + 0.5/366")
