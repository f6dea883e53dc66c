"""C05: cashflows and cashflow collections under every operation history up to a depth, against a multiset model."""
from datetime import date, timedelta
import itertools
from vlib.iters import interleaved
from fixedIncome.src.assets.base_cashflow import Cashflow, Payment, CashflowCollection, CashflowKeys, ZeroCoupon
from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod, CurveIndex, EndBehavior
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention

B = date(2023, 3, 30)
DATES = [B + timedelta(k) for k in (0, 1, 2, 400)]
AMTS = [None, 0.0, 1.5, -2.0]

class StubCurve:
    """A discount curve with df(d) = 1/(2+days since base): every date has its own factor."""
    def __init__(self, ref):
        self.reference_date = ref
    def __call__(self, d):
        if d < self.reference_date:
            raise AssertionError(f"discounted a payment of {d} before the curve's reference date")
        return 1.0 / (2 + (d - B).days)
    def present_value(self, cf):
        return cf.present_value(self)

def ms(items):
    return sorted(((d, repr(a)) for d, a in items))

def check_cf(ctx, cf, model, key):
    """model: list of (date, amount)"""
    ok, got = ctx.call(key, lambda: [(p.payment_date, p.payment) for p in cf])
    ctx.step()
    if not ok:
        return
    ctx.expect(ms(got) == ms(model), key, f"payments {got}, model {model}")
    ctx.expect([d for d, _ in got] == sorted(d for d, _ in model), key, f"not in date order: {got}")
    def views():
        n = len(cf)
        idx = [(cf[i].payment_date, cf[i].payment) for i in range(n)]
        neg = [(cf[i - n].payment_date, cf[i - n].payment) for i in range(n)]
        s = cf.to_series()
        df = cf.to_dataframe()
        return (n, idx, neg, list(cf.get_payment_dates()), list(cf.get_payment_amounts()),
                [(p.payment_date, p.payment) for p in cf.schedule], list(s.index), [None if x != x else x for x in s.tolist()] if n else [],
                list(df.iloc[:, 0]) if n else [], [None if (x is None or x != x) else x for x in df.iloc[:, 1].tolist()] if n else [])
    ok, v = ctx.call(key + "|views", views)
    if ok:
        n, idx, neg, ds, as_, sch, si, sv, dd, dv = v
        ctx.expect(n == len(model), key + "|len", f"{n}")
        ctx.expect(idx == got and neg == got and sch == got, key + "|index", "indexing disagrees with iteration")
        ctx.expect(ds == [d for d, _ in got] and as_ == [a for _, a in got], key + "|getters", f"{ds} {as_}")
        ctx.expect(si == ds and sv == as_, key + "|series", f"{si} {sv} vs {as_}")
        ctx.expect(dd == ds and dv == as_, key + "|frame", f"{dd} {dv}")
    for ref in (B - timedelta(1), B, B + timedelta(1), B + timedelta(2), B + timedelta(401)):
        ok, pv = ctx.call(f"{key}|pv{ref}", cf.present_value, StubCurve(ref))
        ctx.step()
        want = sum(a / (2 + (d - B).days) for d, a in model if a is not None and d >= ref)
        if ok:
            ctx.expect(abs(pv - want) < 1e-12, f"{key}|pv{ref}", f"PV {pv}, want {want}")
    ctx.outcome((len(model), tuple(d for d, _ in got)))

def slices(ctx, cf, model_sorted, key):
    n = len(model_sorted)
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in (None, 0, 1, -1, n):
            for c in (None, 1, 2, -1):
                ok, s = ctx.call(f"{key}|slice{a},{b},{c}", lambda: cf[a:b:c])
                ctx.step()
                if ok:
                    ctx.expect(isinstance(s, Cashflow), f"{key}|slicetype", f"{type(s)}")
                    got = [(p.payment_date, p.payment) for p in s]
                    ctx.expect(ms(got) == ms(model_sorted[a:b:c]) and [d for d, _ in got] == sorted(d for d, _ in got), f"{key}|slice{a},{b},{c}", f"{got}")
                    s.add_payment(Payment(B - timedelta(9), 7.0))       # a slice is its own cashflow
    ctx.expect(len(cf) == n and ms([(p.payment_date, p.payment) for p in cf]) == ms(model_sorted), f"{key}|slice-alias", "adding to a slice changed the cashflow")

def histories(ctx, first):
    """Start from every multiset `first` given in any order, then every history of add_payment up to the depth."""
    depth = 3 if ctx.thorough else 2
    perms = set(itertools.permutations(first))
    for perm in perms:
        for build in ("ctor", "gen", "iterables"):
            key = f"history|{build}|{perm}"
            given = [Payment(d, a) for d, a in perm]
            if build == "ctor":
                mk = lambda: Cashflow(given)
            elif build == "gen":
                mk = lambda: Cashflow(Payment(d, a) for d, a in perm)
            else:
                mk = lambda: Cashflow.create_from_date_and_float_iterables((d for d, _ in perm), (a for _, a in perm))
            ok, cf = ctx.call(key, mk)
            ctx.step()
            if ok:
                check_cf(ctx, cf, list(perm), key); ctx.state(("cf", perm)); ctx.trace()
                interleaved(ctx, cf, [(p.payment_date, p.payment) for p in cf], key, between=lambda: cf.present_value(StubCurve(B - timedelta(1))), show=lambda p: (p.payment_date, p.payment))
            if ok and build != "gen":       # amounts filled in or corrected afterwards, as for floating payments
                ok, cf2 = ctx.call(key + "|fill", mk if build != "ctor" else lambda: Cashflow([Payment(d, a) for d, a in perm]))
                if ok:
                    check_cf(ctx, cf2, list(perm), key + "|before-fill")
                    now = [(p.payment_date, p.payment) for p in cf2]
                    for i in range(len(now)):
                        cf2[i].payment = 40.0 + i; now[i] = (now[i][0], 40.0 + i)
                        check_cf(ctx, cf2, now, f"{key}|fill{i}")
            if ok and build == "ctor":      # a second cashflow made from the very same list, and payments added to either
                ok, two = ctx.call(key + "|again", Cashflow, given)
                if ok:
                    extra = [(B + timedelta(1), 7.0), (B - timedelta(1), None), (B + timedelta(999), 8.0)]
                    cf.add_payment(Payment(*extra[0])); two.add_payment(Payment(*extra[1])); cf.add_payment(Payment(*extra[2]))
                    check_cf(ctx, cf, list(perm) + [extra[0], extra[2]], key + "|shared-list-1")
                    check_cf(ctx, two, list(perm) + [extra[1]], key + "|shared-list-2")
                    ctx.expect([(p.payment_date, p.payment) for p in given] == list(perm), key + "|given", "the caller's own list was changed")
    adds = [(d, a) for d in DATES + [B - timedelta(3)] for a in (AMTS if ctx.thorough else (None, 1.5))]
    for n in range(1, depth + 1):
        for seq in itertools.product(adds if n <= 2 else adds[::2], repeat=n):
            key = f"add|{first}|{seq}"
            def go():
                cf = Cashflow([Payment(d, a) for d, a in first])
                for j, (d, a) in enumerate(seq):
                    if n <= 2: check_cf(ctx, cf, list(first) + list(seq[:j]), f"{key}|before{j}")      # read before every addition
                    cf.add_payment(Payment(d, a))
                return cf
            ok, cf = ctx.call(key, go)
            ctx.step(n)
            if ok and ctx.state(("cfh", tuple(first), seq)):
                check_cf(ctx, cf, list(first) + list(seq), key); ctx.trace()
            if ok and n == 1:
                slices(ctx, cf, [(p.payment_date, p.payment) for p in cf], key)

class Coll(CashflowCollection):
    def to_knot_value_pair(self):
        return None
    def present_value(self, c):
        return None

def collections(ctx, init):
    keys = [CashflowKeys.SINGLE_PAYMENT, CashflowKeys.COUPON_PAYMENTS, CashflowKeys.FIXED_LEG]
    cfs = {n: Cashflow([Payment(B + timedelta(n), float(n + 1))]) for n in range(4)}
    cfs[None] = None
    ops = [(k, n) for k in keys for n in (0, 1, 2, 3)]
    depth = 3
    for seq in itertools.chain.from_iterable(itertools.product(ops, repeat=n) for n in range(0, depth + 1)):
      for kind in ("list", "tuple", "iterator"):
        key = f"collection|{kind}|{init}|{[(k.name, n) for k, n in seq]}"
        def go():
            a, b = [cfs[n] for _, n in init], [keys[i] for i, _ in init]        # the caller's own
            wrap = {"list": lambda x: x, "tuple": tuple, "iterator": iter}[kind]
            c = Coll(wrap(a), wrap(b))
            other = Coll(a, b); other[keys[2]] = cfs[3]; other[keys[0]] = cfs[3]     # another collection made of the same
            a.clear(); b.clear()
            for k, n in seq:
                c[k] = cfs[n]
            return c
        ok, c = ctx.call(key, go)
        ctx.step(len(seq) + 1)
        if not ok:
            continue
        model = {keys[i]: cfs[n] for i, n in init}
        for k, n in seq:
            model[k] = cfs[n]
        ctx.state((init, tuple((k.name, n) for k, n in seq))); ctx.trace()
        def views():
            return len(c), {k: c[k] for k in model}, [k in c for k in keys], list(c), list(zip(c.keys, c.cashflow_list))
        ok, v = ctx.call(key + "|views", views)
        if not ok:
            continue
        n, look, mem, it, lst = v
        ctx.expect(n == len(model), key, f"length {n}, model {len(model)}")
        ctx.expect(all(look[k] is model[k] for k in model), key, "lookup returns a stale or wrong cashflow")
        ctx.expect(mem == [k in model for k in keys], key, f"membership {mem}")
        ctx.expect(len(it) == len(model) and all(isinstance(e, tuple) and len(e) == 2 and model.get(e[0], 0) is e[1] for e in it), key + "|iterate", f"{it}")
        if len(seq) <= 1:
            interleaved(ctx, c, [(k, id(cf)) for k, cf in it], key, between=lambda: (len(c), keys[0] in c), show=lambda e: (e[0], id(e[1])))
        ctx.expect(len(lst) == len(model) and all(model.get(k, 0) is cf for k, cf in lst), key + "|list", "the listed cashflows are stale")
        for k in keys:
            if k not in model:
                try:
                    c[k]
                    ctx.violation(key + "|missing", f"missing key {k} gave a cashflow")
                except KeyError:
                    ctx.step()

STEPS = {"same": lambda i: 0, "daily": lambda i: i, "quarterly": lambda i: 91 * i, "pairs": lambda i: 30 * (i // 2), "back": lambda i: -17 * i, "far": lambda i: (i * i * 13) % 36500}

def large(ctx, item):
    """Cashflows of many payments, in every rotation pattern: made at once, made in part and added to, read while they grow."""
    n, pat = item
    pays = [(B + timedelta(STEPS[pat](i)), None if i % 9 == 4 else (-1.0) ** i * (1.0 + i) if i % 5 else 0.0) for i in range(n)]
    for stride in (1, n - 1, 7, 11):
        order = [(i * stride + 2) % n for i in range(n)]
        if len(set(order)) < n: order = list(range(n // 2, n)) + list(range(n // 2))[::-1]
        seq = [pays[i] for i in order]
        for split in (0, 1, n // 2, n):
            key = f"large|{pat}|{n}|{stride}|{split}"
            ctx.state(key); ctx.trace()
            ok, cf = ctx.call(key, lambda: Cashflow((Payment(*p) for p in seq[:split]) if split % 2 else [Payment(*p) for p in seq[:split]]))
            if not ok: continue
            for j, p in enumerate(seq[split:]):
                ctx.step(); ctx.call(key, cf.add_payment, Payment(*p))
                if j % 16 == 3: check_cf(ctx, cf, seq[:split + j + 1], f"{key}|{j}")
            check_cf(ctx, cf, seq, key)
            m = sorted(seq, key=lambda p: p[0])
            for sl in (slice(0, n // 2), slice(n // 2, None), slice(-5, None), slice(None, None, 3), slice(None, None, -1)):
                ok, part = ctx.call(key + "|slice", cf.__getitem__, sl)
                if ok:
                    whole = [(p.payment_date, p.payment) for p in cf]
                    ctx.expect(ms([(p.payment_date, p.payment) for p in part]) == ms(whole[sl]) and [p.payment_date for p in part] == sorted(d for d, _ in whole[sl]), f"{key}|{sl}", "a slice holds other payments")

def many_keys(ctx, first):
    """Collections over every kind of key, filled and overwritten in every rotation."""
    keys = list(CashflowKeys)
    cfs = [Cashflow([Payment(B + timedelta(n), float(n + 1))]) for n in range(2 * len(keys))]
    for given in range(len(keys) + 1):
        for stride in range(1, len(keys)):
            order = [keys[(first + i * stride) % len(keys)] for i in range(2 * len(keys))]
            key = f"keys|{given}|{first}|{stride}"
            init = list(dict.fromkeys(order))[:given]
            c = Coll([cfs[i] for i in range(len(init))], init)
            model = dict(zip(init, cfs))
            for i, k in enumerate(order):
                c[k] = cfs[i]; model[k] = cfs[i]; ctx.step()
                ok = len(c) == len(model) and all(c[x] is model[x] for x in model) and all((x in c) == (x in model) for x in keys) and {a: id(b) for a, b in c} == {a: id(b) for a, b in model.items()} \
                    and len(c.keys) == len(model) and {a: id(b) for a, b in zip(c.keys, c.cashflow_list)} == {a: id(b) for a, b in model.items()}
                if not ctx.expect(ok, f"{key}|{i}", f"after assigning {[x.name for x in order[:i + 1]]}"): break
            ctx.state(key); ctx.trace()

def zero(ctx, _):
    for k in range(0, 800, 7):
        d = B + timedelta(k)
        for price in (0.5, 1.0, 0.97):
            ok, z = ctx.call(f"zero|{d}", ZeroCoupon, d, price)
            ctx.step()
            if not ok:
                continue
            ctx.state(("z", d, price))
            kv = z.to_knot_value_pair()
            ctx.expect(kv.knot == d and kv.value == price, f"zero-knot|{d}|{price}", f"{kv}")
            for ref in (B, d, d + timedelta(1)):
                ok, pv = ctx.call(f"zero-pv|{d}|{ref}", z.present_value, StubCurve(ref))
                if ok:
                    want = 1.0 / (2 + k) if d >= ref else 0.0
                    ctx.expect(abs(pv - want) < 1e-12, f"zero-pv|{d}|{ref}", f"{pv} want {want}")
    # a real discount curve: its value of a cashflow is the cashflow's value on it; knots outside are refused
    kn = [KnotValuePair(B + timedelta(j * 100), 1 - 0.02 * j) for j in range(5)]
    dc = DiscountCurve(kn, InterpolationMethod.LINEAR, CurveIndex.SOFR, DayCountConvention.ACTUAL_OVER_365)
    for sub in itertools.product((0, 37, 100, 399, 400), repeat=3):
        cf = Cashflow([Payment(B + timedelta(s), float(i + 1)) for i, s in enumerate(sub)])
        ok, pv = ctx.call(f"discount-curve|{sub}", dc.present_value, cf)
        ctx.step()
        if ok:
            want = sum((i + 1) * (1 - 0.02 * s / 100) for i, s in enumerate(sub))
            ctx.expect(abs(pv - want) < 1e-9, f"discount-curve|{sub}", f"{pv} want {want}")
    for m, n in ((0, 1), (2, 1), (1, 3)):
        try:
            Cashflow.create_from_date_and_float_iterables([B] * m, [1.0] * n)
            ctx.violation(f"mismatch|{m},{n}", "unequal numbers of dates and amounts were accepted")
        except ValueError:
            ctx.step()

def run(ctx):
    pay = [(d, a) for d in DATES[:3] for a in (None, 1.5, -2.0)]
    firsts = [()] + [(p,) for p in pay] + list(itertools.combinations_with_replacement(pay[:7], 2))
    if ctx.thorough:
        firsts += list(itertools.combinations_with_replacement(pay[::2], 3))
    else:
        firsts += list(itertools.combinations(pay[1::3] + [pay[0], pay[8]], 3))
    ctx.bound("initial_multisets", len(firsts)); ctx.bound("add_depth", 3 if ctx.thorough else 2)
    ctx.pmap(histories, firsts)
    inits = [(), ((0, 0),), ((0, 0), (1, 1)), ((0, None), (1, None)), ((2, 3), (0, 1), (1, 2))]
    ctx.bound("collection_histories", "every sequence of <= 3 assignments over 3 keys x 4 cashflows from 5 initial collections")
    ctx.pmap(collections, inits)
    ctx.pmap(zero, [0])
    ctx.bound("large", "cashflows of up to 200 payments x 6 date patterns x 4 orders x 4 points at which the rest is added one by one; collections over all 7 keys")
    ctx.pmap(large, [(n, p) for n in ((200, 61, 18) if ctx.thorough else (120, 37)) for p in STEPS])
    ctx.pmap(many_keys, range(len(CashflowKeys)))
    ctx.sample("[] + add(2023-03-31, 1.5) + add(2023-03-27, None)")
