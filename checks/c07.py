"""C07: curve interpolation, extrapolation, adjustments and histories of resets, against independent interpolants."""
from datetime import date, datetime, timedelta
import itertools
import numpy as np
from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod as IM, CurveIndex, EndBehavior as EB
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from fixedIncome.src.risk.key_rate import KeyRate
from checks.c04 import REF, clock

B = date(2023, 11, 15)
GRID = [B + timedelta(k) for k in (0, 31, 75, 120, 200)]
VALS = (1.0, -0.5, 2.0)

def axis(c, ref, d):
    if isinstance(ref, datetime):
        return (d - ref).total_seconds() / 86400 / {C.ACTUAL_OVER_360: 360, C.ACTUAL_OVER_365: 365, C.ACTUAL_OVER_365_POINT_25: 365.25}[c]
    if isinstance(d, datetime):
        dd = d.date()
        fr = (d - datetime(dd.year, dd.month, dd.day)).total_seconds() / 86400
        a, b = float(REF[c](ref, dd)), float(REF[c](ref, dd + timedelta(1)))
        return a + (b - a) * fr
    return float(REF[c](ref, d))

def spline(xs, ys, x, k):
    """Not-a-knot spline by solving its defining linear system: independent of the library's interpolators."""
    n = len(xs)
    # B-spline-free: piecewise polynomials are awkward; use truncated powers with the not-a-knot interior knots
    if k == 3:
        interior = xs[2:-2]
    else:  # quadratic: interior knots midway between data points, endpoints dropped
        interior = [(xs[i] + xs[i + 1]) / 2 for i in range(1, n - 2)]
    basis = lambda t: [t ** j for j in range(k + 1)] + [max(t - u, 0.0) ** k for u in interior]
    s = xs[-1] - xs[0]
    X = [(v - xs[0]) / s for v in xs]
    interior = [(u - xs[0]) / s for u in interior]
    A = np.array([basis(t) for t in X])
    co = np.linalg.solve(A, np.array(ys))
    return float(np.dot(basis((x - xs[0]) / s), co))

def bspline(xs, ys, x, k):
    """The same spline through many points, in its B-spline basis (Cox and de Boor), where the system stays well conditioned."""
    n = len(xs)
    inner = xs[2:-2] if k == 3 else [(xs[i] + xs[i + 1]) / 2 for i in range(1, n - 2)]
    t = [xs[0]] * (k + 1) + list(inner) + [xs[-1]] * (k + 1)
    def basis(u):
        i = k
        while i < n - 1 and u >= t[i + 1]: i += 1
        N = {i: 1.0}
        for d in range(1, k + 1):
            M = {}
            for j in range(i - d, i + 1):
                a = (u - t[j]) / (t[j + d] - t[j]) * N.get(j, 0.0) if N.get(j) else 0.0
                b = (t[j + d + 1] - u) / (t[j + d + 1] - t[j + 1]) * N.get(j + 1, 0.0) if N.get(j + 1) else 0.0
                M[j] = a + b
            N = M
        row = [0.0] * n
        for j, v in N.items(): row[j] = v
        return row
    key = (tuple(xs), tuple(ys), k)
    if _co.get("key") != key: _co["key"], _co["c"] = key, np.linalg.solve(np.array([basis(v) for v in xs]), np.array(ys))
    return float(np.dot(basis(x), _co["c"]))
_co = {}

def expected(method, c, ref, knots, d, le, re_):
    """knots sorted [(date, value)]; returns ('err',) or ('val', v)."""
    if d < knots[0][0]:
        return ("err",) if le is EB.ERROR else ("val", knots[0][1])
    if d > knots[-1][0]:
        return ("err",) if re_ is EB.ERROR else ("val", knots[-1][1])
    xs = [axis(c, ref, k) for k, _ in knots]; ys = [v for _, v in knots]
    x = axis(c, ref, d)
    if method is IM.LINEAR:
        for i in range(len(xs) - 1):
            if x <= xs[i + 1] or i == len(xs) - 2:
                return ("val", ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]))
    if method is IM.PREVIOUS:
        j = max(i for i in range(len(xs)) if knots[i][0] <= d)
        return ("val", ys[j])
    return ("val", (spline if len(xs) < 6 else bspline)(xs, ys, x, 3 if method is IM.CUBIC_SPLINE else 2))

since = lambda d: (d - (datetime(B.year, B.month, B.day) if isinstance(d, datetime) else B)).days * 0.001
ADJ = [("none", None, lambda d: 0.0), ("fn", since, since)]

def queries(knots):
    qs = set()
    for d, _ in knots:
        qs |= {d - timedelta(1), d, d + timedelta(1)}
    qs |= {knots[0][0] - timedelta(40), knots[-1][0] + timedelta(40), knots[0][0] + (knots[-1][0] - knots[0][0]) / 2 if isinstance(knots[0][0], datetime) else knots[0][0] + timedelta((knots[-1][0] - knots[0][0]).days // 2), knots[0][0] + timedelta(47)}
    return sorted(qs)

def compare(ctx, curve, method, c, ref, knots, le, re_, key, adjs=ADJ):
    for d in queries(knots):
        if d < ref and not (d < knots[0][0]):
            continue
        exp = expected(method, c, ref, knots, d, le, re_)
        for nm, adj, aref in adjs:
            for how in ("call", "interpolate"):
                k = f"{key}|{d}|{nm}|{how}"
                ctx.step(); ctx.n_evals += 1
                try:
                    fn = curve if how == "call" else curve.interpolate
                    got = fn(d, adj) if adj is not None else fn(d)
                except ValueError as e:
                    ctx.expect(exp[0] == "err", k, f"{d}: refused ({e}), expected {exp}")
                    continue
                except Exception as e:
                    ctx.violation(k, f"{type(e).__name__}: {e}")
                    continue
                if exp[0] == "err":
                    ctx.violation(k, f"{d} lies outside the knots of an error-ended curve but gave {float(got)}")
                else:
                    want = exp[1] + aref(d)
                    ctx.expect(abs(float(got) - want) <= 1e-9 * max(1, abs(want)), k, f"{d}: got {float(got)!r}, want {want!r}")
    ctx.outcome((method, c, len(knots), le, re_))

def static(ctx, item):
    method, c, n, use_dt, ref_kind = item
    rng = list(itertools.product(VALS, repeat=n)) if n <= 3 else [tuple(VALS[(i * i + s) % 3] + 0.1 * i for i in range(n)) for s in range(3)]
    if not ctx.thorough:
        rng = rng[::2] if len(rng) > 9 else rng
    for dates in itertools.combinations(GRID, n):
        if use_dt:
            dates = [datetime(d.year, d.month, d.day, 6 + i) for i, d in enumerate(dates)]
        for vi, vals in enumerate(rng):
            knots = list(zip(dates, vals))
            ref = {"none": None, "first": knots[0][0], "before": knots[0][0] - timedelta(33)}[ref_kind]
            perm = list(knots)
            perm = perm[vi % n:] + perm[:vi % n]
            if vi % 2:
                perm.reverse()
            for le, re_ in itertools.product(EB, EB):
                key = f"static|{method.name}|{c.name}|{[str(d) for d in dates]}|{vals}|{ref_kind}|{le.name}{re_.name}"
                gen = (KnotValuePair(d, v) for d, v in perm)
                ix = CurveIndex.SOFR if vi % 2 else CurveIndex.US_TREASURY
                ok, cv = ctx.call(key, lambda: Curve(gen, method, c, ref, le, re_, ix))
                ctx.step(); ctx.trace()
                ctx.state(key)
                if ok:
                    ctx.expect([tuple(k) for k in cv.interpolation_values] == knots, key, "knots are not in date order")
                    r = ref if ref is not None else knots[0][0]
                    ctx.expect(cv.reference_date == r and cv.index is ix, key, f"reference {cv.reference_date}, index {cv.index}")
                    compare(ctx, cv, method, c, r, knots, le, re_, key)

GAPS = {"quarterly": lambda i: 91, "sparse": lambda i: (30, 61, 91, 183, 365, 731, 1096)[i % 7], "daily": lambda i: 1 + (i % 3 == 2) * 2, "mixed": lambda i: (1, 7, 400, 33, 90)[i % 5]}

def large(ctx, item):
    """Curves of many knots, given in shuffled order, asked all along and after resets of each knot and of all of them."""
    method, c, n, gaps, ref_kind = item
    dates = [B]
    while len(dates) < n: dates.append(dates[-1] + timedelta(GAPS[gaps](len(dates))))
    if c is C.THIRTY_OVER_THREESIXTY: dates = sorted({d.replace(day=min(d.day, 28)) for d in dates})
    n = len(dates)
    knots = [(d, round(1.0 - 0.9 * i / n + 0.05 * ((i * 7) % 5), 6)) for i, d in enumerate(dates)]
    ref = B - timedelta(20) if ref_kind == "before" else None
    r = ref or knots[0][0]
    stride = next(q for q in (7, 11, 13) if n % q)
    order = [(i * stride + 3) % n for i in range(n)]
    for le, re_ in ((EB.CONSTANT, EB.ERROR), (EB.ERROR, EB.CONSTANT)):
        key = f"large|{method.name}|{c.name}|{n}|{gaps}|{ref_kind}|{le.name}{re_.name}"
        ctx.trace(); ctx.state(key)
        ok, cv = ctx.call(key, lambda: Curve((KnotValuePair(*knots[i]) for i in order), method, c, ref, le, re_))
        if not ok: continue
        ctx.expect([tuple(k) for k in cv.interpolation_values] == knots, key, "knots are not in date order")
        compare(ctx, cv, method, c, r, knots, le, re_, key, ADJ[:1])
        dc = DiscountCurve([KnotValuePair(*knots[i]) for i in order], method, CurveIndex.SOFR, c, ref, le, re_)
        cur = list(knots)
        for i in (0, n // 2, n - 1, 1):
            if i == 0 and ref_kind == "none": continue
            cur[i] = (cur[i][0], 2.5 + 0.1 * i)
            ctx.call(key, dc.reset_interpolation_value, KnotValuePair(*cur[i]), i)
        compare(ctx, dc, method, c, r, cur, le, re_, key + "|reset", ADJ[:1])
        new = [(d, 0.3 + 0.01 * ((j * 5) % 9)) for j, (d, _) in enumerate(knots) if j == 0 or j % 3 != 1]
        ctx.call(key, dc.reset_interpolation_values, [KnotValuePair(*new[i]) for i in range(len(new))][::-1])
        compare(ctx, dc, method, c, r, new, le, re_, key + "|all", ADJ[:1])

def resets(ctx, item):
    """Every history of <= 3 resets: the curve answers like one freshly built from the current knots."""
    method, kind, first_op, scale = item
    c = C.ACTUAL_OVER_365
    base = [(B + timedelta((d - B).days * scale), v) for d, v in zip(GRID[1:], (1.0, 2.0, 0.5, 3.0))]
    always = sorted(set(queries(base)) | {a + (b - a) * q // 4 for (a, _), (b, _) in zip(base, base[1:]) for q in (1, 2, 3)})     # asked before and after every reset
    n = len(base)
    ref = B
    def ask_all(cv, model, key):
        for d in always:
            if d > model[-1][0]: continue
            ctx.step(); exp = expected(method, c, ref, model, d, EB.CONSTANT, EB.ERROR)
            ok, got = ctx.call(f"{key}|{d}", cv, d)
            if ok: ctx.expect(exp[0] == "val" and abs(float(got) - exp[1]) <= 1e-9 * max(1, abs(exp[1])), f"{key}|{d}", f"{float(got)}, want {exp}")
    ops = [("one", i, ("same", v)) for i in range(n) for v in (4.0, -1.0)]
    ops += [("one", i, ("move", off)) for i in (0, 1, n - 1) for off in (3 * scale, 95 * scale, -20 * scale)]
    ops += [("all", vals, shift) for vals in ((1.0, 1.0, 1.0, 1.0), (3.0, 1.0, 2.0, 5.0)) for shift in (0, 10)]
    for rest in itertools.chain([()], itertools.product(ops, repeat=1), itertools.product(ops, repeat=2) if ctx.thorough else itertools.product(ops[::2], repeat=2)):
        seq = (ops[first_op],) + rest
        key = f"reset|{method.name}|{kind}|{scale}|{seq}"
        model = list(base); good = True
        if kind == "curve":
            cv = Curve([KnotValuePair(*k) for k in base], method, c, ref, EB.CONSTANT, EB.ERROR)
        else:
            cv = DiscountCurve([KnotValuePair(*k) for k in base], method, CurveIndex.SOFR, c, ref, EB.CONSTANT, EB.ERROR)
            ctx.expect(cv.index is CurveIndex.SOFR, f"discount-index|{method.name}|{kind}", f"index {cv.index}")
        for step, op in enumerate(seq):
            ask_all(cv, model, f"{key}|before{step}")
            if op[0] == "one":
                i, (what, v) = op[1], op[2]
                d, old = model[i]
                new = (d, v) if what == "same" else (d + timedelta(v), old)
                if new[0] < ref or any(new[0] == dd for j, (dd, _) in enumerate(model) if j != i):
                    good = False
                    break
                model[i] = new
                model.sort()
                ok, _ = ctx.call(key, cv.reset_interpolation_value, KnotValuePair(*new), i)
            else:
                model = sorted((d + timedelta(op[2]), v) for (d, _), v in zip(base, op[1]))
                ok, _ = ctx.call(key, cv.reset_interpolation_values, (KnotValuePair(*k) for k in reversed(model)))
            ctx.step()
            if not ok:
                good = False
                break
        if good:
            ctx.state((method.name, kind, tuple(model))); ctx.trace()
            ctx.expect([tuple(k) for k in cv.interpolation_values] == model, key, f"knots {cv.interpolation_values} model {model}")
            ask_all(cv, model, f"{key}|after")
            compare(ctx, cv, method, c, ref, model, EB.CONSTANT, EB.ERROR, key, ADJ[:1])

def shared(ctx, method):
    """Curves made from one list of knots, resets of either, changes of the list: the others stay as they were."""
    c, base = C.ACTUAL_OVER_365, list(zip(GRID[1:], (1.0, 2.0, 0.5, 3.0)))
    ops = [("reset", k, i) for k in (0, 1) for i in (0, 3)] + [("all", 0, None), ("caller", None, "append"), ("caller", None, "swap"), ("again", None, None), ("adjusted", 1, None)]
    for order in ((0, 1, 2, 3), (3, 1, 0, 2)):
        for seq in itertools.product(ops, repeat=3 if ctx.thorough else 2):
            lst = [KnotValuePair(*base[i]) for i in order]; caller = list(lst)
            key = f"shared|{method.name}|{order}|{seq}"
            ctx.trace(); ctx.state(key)
            curves = [Curve(lst, method, c, B, EB.CONSTANT, EB.CONSTANT), DiscountCurve(lst, method, CurveIndex.SOFR, c, B, EB.CONSTANT, EB.CONSTANT)]
            models = [sorted(base), sorted(base)]
            for a, k, i in seq:
                ctx.step()
                if a == "reset": models[k][i] = (models[k][i][0], 9.0 + i); ctx.call(key, curves[k].reset_interpolation_value, KnotValuePair(*models[k][i]), i)
                elif a == "all": models[k] = [(d + timedelta(3), v + 1) for d, v in models[k]]; ctx.call(key, curves[k].reset_interpolation_values, [KnotValuePair(*x) for x in models[k]])
                elif a == "adjusted": ctx.call(key, curves[k], GRID[2], lambda d: 5.0)
                elif a == "again": curves.append(Curve(lst, method, c, B, EB.CONSTANT, EB.CONSTANT)); models.append(sorted(tuple(x) for x in caller))
                elif i == "append": lst.append(KnotValuePair(GRID[-1] + timedelta(30 + len(lst)), 1.5)); caller = list(lst)
                else: lst[0] = KnotValuePair(lst[0].knot, -3.0); caller = list(lst)
            ctx.expect(lst == caller, key, "the caller's list of knots was changed")
            for cv, m in zip(curves, models):
                for d in queries(m):
                    exp = expected(method, c, B, m, d, EB.CONSTANT, EB.CONSTANT); ctx.step()
                    ok, got = ctx.call(key, cv, d)
                    if ok: ctx.expect(abs(float(got) - exp[1]) <= 1e-9 * max(1, abs(exp[1])), key, f"{d}: {float(got)}, want {exp[1]}")

def keyrate_adjust(ctx, _):
    kn = [KnotValuePair(d, 0.01 * i) for i, d in enumerate(GRID)]
    for le, re_ in itertools.product(EB, EB):
        cv = Curve(kn, IM.LINEAR, C.ACTUAL_OVER_360, None, le, re_)
        for a, m, b in ((None, GRID[1], GRID[2]), (GRID[0], GRID[1], GRID[2]), (GRID[1], GRID[3], None), (None, GRID[2], None)):
            kr = KeyRate(C.ACTUAL_OVER_360, m, a, b)
            for j in range(-30, 260):
                d = B + timedelta(j)
                ctx.step(); ctx.state(("kr", le, re_, m, d))
                inside = GRID[0] <= d <= GRID[-1]
                try:
                    v = float(cv(d, kr))
                    base = float(cv(d))
                    ctx.expect(abs(v - base - kr(d)) < 1e-12, f"keyrate|{le.name}{re_.name}|{d}", f"{v} {base} {kr(d)}")
                except ValueError:
                    ctx.expect(not inside and ((d < GRID[0] and le is EB.ERROR) or (d > GRID[-1] and re_ is EB.ERROR)), f"keyrate|{le.name}{re_.name}|{d}", "refused")
                except Exception as e:
                    ctx.violation(f"keyrate|{le.name}{re_.name}|{d}|{type(e).__name__}", str(e))

def run(ctx):
    clock(date(2000, 1, 1))
    items = []
    for m in IM:
        lo = {IM.LINEAR: 2, IM.PREVIOUS: 2, IM.QUADRATIC_SPLINE: 3, IM.CUBIC_SPLINE: 4}[m]
        for c in C:
            for n in range(lo, 6 if ctx.thorough else 5):
                for rk in ("none", "before"):
                    items.append((m, c, n, False, rk))
        for c in (C.ACTUAL_OVER_365, C.ACTUAL_OVER_360, C.ACTUAL_OVER_365_POINT_25):
            for rk in ("none", "before"): items.append((m, c, lo, True, rk))
    ctx.bound("static_curves", "all subsets of 5 knot dates x value patterns x 4 methods x 5 day counts x 4 end behaviours x reference date given/omitted")
    ctx.bound("reset_histories", "length <= 3")
    ctx.pmap(static, items)
    sizes = (12, 40, 64) if ctx.thorough else (12, 40)
    ctx.bound("large", f"curves of {sizes} knots x spacings {sorted(GAPS)} x methods x day counts, before and after resets")
    ctx.pmap(large, [(m, c, n, g, rk) for n in sizes[::-1] for m in list(IM)[::-1] for c in C for g in GAPS for rk in ("none", "before")])
    ctx.pmap(resets, [(m, k, f, s) for s in (13, 1) for m in IM for k in ("curve", "discount") for f in range(21)])
    ctx.pmap(keyrate_adjust, [0])
    ctx.pmap(shared, IM)
    ctx.sample("linear ACT/360 curve with knots 2023-11-15, 2023-12-16; reset knot 0 to 2024-02-18 (now second)")
