"""C03: regular date sequences. Every start day of a leap and three common years x every monthly/day/week/year
increment in both directions x end dates on, one before and one after each grid point."""
from datetime import date, datetime, timedelta
import calendar
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

def add_months(d, n):
    t = d.year * 12 + d.month - 1 + n
    y, m = divmod(t, 12)
    m += 1
    return d.replace(year=y, month=m, day=min(d.day, calendar.monthrange(y, m)[1]))

INCS = ([("m", k) for k in (1, 2, 3, 4, 6, 12, 24, -1, -2, -3, -6, -12)] +
        [("d", k) for k in (1, 7, 30, -1, -7, -30)] + [("y", 1), ("y", -1)] + [("w", 1), ("w", -2)] +
        [("td", k) for k in (1, 5, 91, -1, -5, -91)] + [("md", (1, 1)), ("md", (-1, -2)),
         ("md", (1, -1)), ("md", (-1, 5)), ("md", (3, -45)), ("h", 12), ("h", -36), ("tdh", 7), ("tdh", -30)])

def inc_obj(kind, k):
    return {"m": lambda: relativedelta(months=k), "d": lambda: relativedelta(days=k), "y": lambda: relativedelta(years=k),
            "w": lambda: relativedelta(weeks=k), "td": lambda: timedelta(days=k),
            "h": lambda: relativedelta(hours=k), "tdh": lambda: timedelta(hours=k),
            "md": lambda: relativedelta(months=k[0], days=k[1])}[kind]()

def kth(d, kind, k, i):
    if kind == "m": return add_months(d, k * i)
    if kind == "y": return add_months(d, 12 * k * i)
    if kind == "w": return d + timedelta(7 * k * i)
    if kind == "md": return add_months(d, k[0] * i) + timedelta(k[1] * i)
    if kind in ("h", "tdh"): return d + timedelta(hours=k * i)
    return d + timedelta(k * i)

def explore(ctx, item):
    start, asdt = item
    s = datetime(start.year, start.month, start.day, 6, 30) if asdt else start
    for kind, k in INCS:
        if kind in ("h", "tdh") and not asdt:       # hours move datetimes only
            continue
        up = (k[0] if kind == "md" else k) > 0
        N = 9 if not ctx.thorough else 26
        grid = [kth(s, kind, k, i) for i in range(N + 2)]
        for n in range(0, N, 1 if ctx.thorough else 2):
            for off in (-1, 0, 1):
                e = grid[n] + timedelta(off)
                want = [g for g in grid if (g <= e if up else g >= e)]
                if len(want) >= len(grid):
                    continue
                key = f"sequence|{s}|{kind}{k}|{e}"
                ctx.state((s, kind, k, e)); ctx.step(); ctx.trace(); ctx.n_evals += 1
                ok, got = ctx.call(key, Scheduler.generate_dates_by_increments, s, e, inc_obj(kind, k))
                if ok:
                    ctx.expect(list(got) == want, key, f"from {s} to {e} by {kind}{k}: got {[str(x) for x in got]}, want {[str(x) for x in want]}")
                    ctx.outcome((len(want), kind, k, want[-1].day if want else None))
        # the cap: a sequence that would not reach its end (or an end far beyond) stays finite
        for cap in (1, 2, 5):
            for e in (grid[N] + timedelta(5000 if up else -5000),):
                key = f"cap|{s}|{kind}{k}|{cap}"
                ok, got = ctx.call(key, Scheduler.generate_dates_by_increments, s, e, inc_obj(kind, k), cap)
                ctx.step()
                if ok:
                    ctx.expect(len(got) in (cap, cap + 1) and list(got) == grid[:len(got)], key, f"cap {cap}: {got}")

def degenerate(ctx, _):
    s = date(2024, 2, 29)
    for inc in (timedelta(0), relativedelta()):
        ok, got = ctx.call(f"zero|{inc!r}", Scheduler.generate_dates_by_increments, s, date(2025, 1, 1), inc, 10)
        ctx.step()
        if ok:
            ctx.expect(len(got) in (10, 11) and set(got) == {s}, f"zero|{inc!r}", f"{got}")
    for inc, e in ((relativedelta(months=1), date(2023, 1, 1)), (relativedelta(months=-1), date(2025, 1, 1)),
                   (timedelta(1), date(2023, 1, 1)), (timedelta(-1), date(2025, 1, 1))):
        ok, got = ctx.call(f"wrong-way|{inc!r}", Scheduler.generate_dates_by_increments, s, e, inc)
        ctx.step()
        if ok:
            ctx.expect(list(got) == [], f"wrong-way|{inc!r}", f"{got}")
    for bad in (1, "1M", None, 2.5):
        try:
            Scheduler.generate_dates_by_increments(s, date(2025, 1, 1), bad)
            ctx.violation(f"bad-increment|{bad}", "accepted")
        except TypeError:
            ctx.step()
    for m in ((relativedelta(months=1), 1000),):
        ok, got = ctx.call("default-cap", Scheduler.generate_dates_by_increments, date(1900, 1, 1), date(2099, 1, 1), m[0])
        ctx.step()
        if ok:
            ctx.expect(len(got) in (1000, 1001), "default-cap", f"{len(got)}")

def run(ctx):
    starts = []
    for y in ((2022, 2023, 2024, 2025) if ctx.thorough else (2023, 2024)):
        d = date(y, 1, 1)
        while d.year == y:
            if ctx.thorough or d.day in (1, 2, 12, 15, 27, 28, 29, 30, 31):
                starts.append(d)
            d += timedelta(1)
    ctx.bound("starts", len(starts)); ctx.bound("increments", [f"{a}{b}" for a, b in INCS])
    ctx.pmap(explore, [(d, f) for d in starts for f in (False, True)])
    ctx.pmap(degenerate, [0])
    ctx.sample("2023-08-31 by -6 months: 2023-08-31, 2023-02-28, 2022-08-31, ...")
