"""C10: valuation and key-rate risk on a yield curve. Every history (up to a depth) of queries, bumps and knot resets on
one shared curve, key rates and assets; each answer is judged by a closed-form pricer that only knows the knots and the
bumps, and everything handed out earlier is re-read after every step."""
from datetime import date, timedelta
import itertools, math
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.base_cashflow import ZeroCoupon, Cashflow, Payment
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod as IM, InterpolationSpace as IS, EndBehavior as EB, CurveIndex
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency as PF, DayCountConvention as C
from checks.c04 import clock, REF as REF_
from checks.c08 import tent
from checks.c07 import expected
from checks.bonds import RBond, cal, FixedRateBond
from checks import c15, c16

REFD = date(2023, 12, 18)
BP = 1e-4
tau = lambda d: float(clock(d) - clock(REFD))
M1, M2, M3 = date(2024, 1, 30), date(2024, 3, 29), date(2024, 7, 16)   # business days, no adjustment
KNOTS = ((M1, 0.05), (M2, 0.041), (M3, 0.047))
KNOTS2 = ((M1, 0.05), (M2, 0.06), (M3, 0.047))
DKNOTS = ((REFD, 1.0), (M1, 0.99), (M2, 0.985), (M3, 0.95))
# asset -> the payments its buyer at REFD still receives
FLOWS = {"z": [(M2, 100.0)], "c": [(date(2024, 1, 16), 1.25), (date(2024, 4, 16), 1.25), (M3, 1.25), (M3, 100.0)],
         "cf": [(M1, 3.0), (date(2024, 2, 29), -7.0), (M3, 11.0)]}
FLOWS["pf"] = [(d, -2.0 * a) for d, a in FLOWS["z"]] + [(d, 3.5 * a) for d, a in FLOWS["c"]]
CASH = 12.5

def instruments():
    z = UsTreasuryBond(price=99.0, coupon_rate=0.0, principal=100, tenor='1Y', payment_frequency=PF.ZERO_COUPON, purchase_date=REFD, maturity_date=M2)
    c = UsTreasuryBond(price=100.0, coupon_rate=5.0, principal=100, tenor='1Y', payment_frequency=PF.QUARTERLY, purchase_date=REFD, maturity_date=M3)
    s = UsTreasuryBond(price=99.6, coupon_rate=0.0, principal=100, tenor='1M', payment_frequency=PF.ZERO_COUPON, purchase_date=REFD, maturity_date=M1)
    return s, z, c

class World:
    """The shared objects of one history, and the model: knots, bumps, and what was handed out."""
    def __init__(self, krdates, space=IS.CONTINUOUSLY_COMPOUNDED_YIELD):
        s, z, c = instruments()
        self.space, self.spare, self.flows, self.cash = space, s, {k: list(v) for k, v in FLOWS.items()}, CASH
        self.cv = YieldCurve([c, s, z], None, IM.LINEAR, C.ACTUAL_OVER_ACTUAL, space, REFD, EB.CONSTANT, EB.CONSTANT)
        self.cv.reset_interpolation_values([KnotValuePair(k, v) for k, v in self.start()])
        self.assets = {"z": z, "c": c, "cf": Cashflow([Payment(d, a) for d, a in FLOWS["cf"]]),
                       "pf": Portfolio([PortfolioEntry(-2.0, z), PortfolioEntry(3.5, c)], CASH)}
        self.kd = krdates
        self.coll = KeyRateCollection(KeyRate(C.ACTUAL_OVER_ACTUAL, d) for d in krdates)
        self.knots = list(self.start())
        self.own = KeyRate(C.ACTUAL_OVER_ACTUAL, M2, M1, M3)     # a key rate outside the collection, over the same dates
        self.bumps = [BP] * len(krdates)
        self.kept = []          # (discount curve, expected values)

    def start(self):
        return KNOTS if self.space is not IS.DISCOUNT_FACTOR else DKNOTS

    def weight(self, i, d):
        if i == "own":
            return tent(C.ACTUAL_OVER_ACTUAL, M1, M2, M3, 1.0, d)
        kd = self.kd
        return tent(C.ACTUAL_OVER_ACTUAL, kd[i - 1] if i else None, kd[i], kd[i + 1] if i + 1 < len(kd) else None, 1.0, d)

    def y(self, d):
        ks = self.knots
        if d <= ks[0][0]: return ks[0][1]
        if d >= ks[-1][0]: return ks[-1][1]
        for (a, u), (b, v) in zip(ks, ks[1:]):
            if d <= b:
                return u + (v - u) * (tau(d) - tau(a)) / (tau(b) - tau(a))

    def df(self, d, adj=None):
        if self.space is IS.DISCOUNT_FACTOR:          # quoted factors, adjusted at the knots and joined by straight lines
            ks = [(k, v + (adj(k) if adj else 0.0)) for k, v in self.knots]
            for (a, u), (b, v) in zip(ks, ks[1:]):
                if d <= b:
                    return u + (v - u) * (tau(d) - tau(a)) / (tau(b) - tau(a))
        return math.exp(-(self.y(d) + (adj(d) if adj else 0.0)) * tau(d))

    def pv(self, name, adj=None):
        return sum(a * self.df(d, adj) for d, a in self.flows[name]) + (self.cash if name == "pf" else 0.0)

    def deriv(self, name, i):
        h = lambda s: (lambda d: s * BP / 2 * self.weight(i, d))
        return (self.pv(name, h(1)) - self.pv(name, h(-1))) / BP

    def adj_of(self, which):
        if which is None: return None
        if which == "own": return lambda d: self.own.bump_val * self.weight("own", d)
        if which == "coll": return lambda d: sum(b * self.weight(i, d) for i, b in enumerate(self.bumps))
        return lambda d: self.bumps[which] * self.weight(which, d)

    def adj_obj(self, which):
        if which == "own": return self.own
        return None if which is None else self.coll if which == "coll" else self.coll[which]

QD = [REFD, REFD + timedelta(1), date(2023, 12, 31), date(2024, 1, 1), M1, M1 + timedelta(1), date(2024, 2, 29), M2, date(2024, 5, 5), M3]

def do(ctx, w, op, key):
    """Performs one action on the real objects and on the model; judges the answer. False stops the history."""
    ctx.step()
    k = op[0]
    close = lambda got, want, what: ctx.expect(abs(float(got) - want) < 1e-9 * max(1.0, abs(want)), f"{key}|{what}", f"{what}: got {got}, want {want}")
    if k == "pv":
        ok, v = ctx.call(key, w.cv.present_value, w.assets[op[1]], w.adj_obj(op[2]))
        if ok: close(v, w.pv(op[1], w.adj_of(op[2])), f"pv of {op[1]} under {op[2]}")
    elif k == "disc":
        ok, dc = ctx.call(key, w.cv.to_discount_curve, w.adj_obj(op[1]))
        if ok:
            want = [w.df(d, w.adj_of(op[1])) for d in QD]
            w.kept.append((dc, want))
    elif k == "deriv":
        ok, v = ctx.call(key, w.cv.calculate_key_rate_deriv, w.assets[op[1]], w.adj_obj(op[2]))
        if ok: ctx.expect(abs(float(v) - w.deriv(op[1], op[2])) < 1e-6 * max(1.0, abs(w.deriv(op[1], op[2]))), f"{key}|deriv", f"derivative of {op[1]} to key rate {op[2]}: got {v}, want {w.deriv(op[1], op[2])}")
    elif k == "pv01":
        ok, v = ctx.call(key, w.cv.calculate_pv01_risk, w.assets[op[1]], w.coll[op[2]])
        if ok:
            want = w.deriv(op[1], op[2]) * BP
            ctx.expect(abs(float(v.pv01) - want) < 1e-9 * max(1.0, abs(want)) and v.key_rate_date == w.kd[op[2]] and v.index is CurveIndex.US_TREASURY, f"{key}|pv01", f"got {v}, want {want} at {w.kd[op[2]]}")
    elif k == "ladder":
        ok, lad = ctx.call(key, w.cv.calculate_pv01_risk_ladder, w.assets[op[1]], w.coll)
        if ok:
            want = [w.deriv(op[1], i) * BP for i in range(len(w.kd))]
            got = [float(r.pv01) for r in lad]
            ctx.expect(len(got) == len(want) and all(abs(a - b) < 1e-9 * max(1.0, abs(b)) for a, b in zip(got, want)), f"{key}|ladder", f"got {got}, want {want}")
            ctx.expect(lad.get_key_rate_dates() == list(w.kd) and [float(x) for x in lad.get_pv01s()] == got and len(lad) == len(w.kd)
                       and lad.get_indices() == [CurveIndex.US_TREASURY] * len(w.kd) and all(r in lad for r in lad), f"{key}|ladder-shape", f"dates {lad.get_key_rate_dates()}")
            par = (w.pv(op[1], lambda d: BP / 2) - w.pv(op[1], lambda d: -BP / 2))
            ctx.expect(len(got) == 0 or abs(sum(got) - par) < 1e-6 * max(1e-3, abs(par)), f"{key}|parallel", f"ladder sums to {sum(got)}, a parallel basis point moves the value by {par}")
    elif k == "bump":
        ok, _ = ctx.call(key, w.coll[op[1]].set_bump_val, op[2]); w.bumps[op[1]] = op[2]
    elif k == "bumpall":
        ok, _ = ctx.call(key, w.coll.set_bump_val, op[1]); w.bumps = [op[1]] * len(w.kd)
    elif k == "knots":
        ok, _ = ctx.call(key, w.cv.reset_interpolation_values, [KnotValuePair(a, b) for a, b in op[1]]); w.knots = list(op[1])
    elif k == "knot":
        ok, _ = ctx.call(key, w.cv.reset_interpolation_value, KnotValuePair(w.knots[op[1]][0], op[2]), op[1])
        w.knots[op[1]] = (w.knots[op[1]][0], op[2])
    elif k == "addpay":
        ok, _ = ctx.call(key, w.assets["cf"].add_payment, Payment(op[1], op[2])); w.flows["cf"].append((op[1], op[2]))
    elif k == "hold":
        ok, _ = ctx.call(key, w.assets["pf"].assets.append, PortfolioEntry(op[1], w.spare)); w.flows["pf"].append((M1, 100.0 * op[1]))
    elif k == "cash":
        w.assets["pf"].cash_amount += op[1]; w.cash += op[1]; ok = True
    elif k == "read":
        ok, vs = ctx.call(key, lambda: [(float(w.cv(d)), float(w.cv(d, w.adj_obj("coll")))) for d in QD])
        if ok:
            for d, (a, b) in zip(QD, vs):
                close(a, w.y(d), f"yield at {d}"); close(b, w.y(d) + w.adj_of("coll")(d), f"bumped yield at {d}")
    return ok

def invariants(ctx, w, key):
    for n, (dc, want) in enumerate(w.kept):
        ok, got = ctx.call(f"{key}|kept{n}", lambda: [float(dc(d)) for d in QD])
        if ok:
            ctx.expect(all(abs(a - b) < 1e-11 for a, b in zip(got, want)), f"{key}|kept{n}", f"discount curve {n} handed out earlier now reads {got}, want {want}")
    got = [k.bump_val for k in w.coll]
    ctx.expect(got == w.bumps, f"{key}|bumps", f"key-rate bumps {got}, want {w.bumps}")
    got = [(k.knot, float(k.value)) for k in w.cv.interpolation_values]
    ctx.expect(got == list(w.knots), f"{key}|knots", f"curve knots {got}, want {w.knots}")

OPS = [("pv", "c", None), ("pv", "pf", "coll"), ("pv", "cf", 0), ("disc", None), ("disc", "coll"), ("deriv", "c", 1), ("deriv", "pf", 0),
       ("ladder", "pf"), ("pv01", "z", 1), ("bump", 0, 25 * BP), ("bumpall", -3 * BP), ("knots", KNOTS2), ("knot", 2, 0.039), ("read",)]
# a second family: the holdings and payments change between the queries, a key rate outside the collection is used, and the
# curve may be quoted in discount factors
OPS2 = [("pv", "cf", "own"), ("pv", "pf", None), ("disc", "own"), ("deriv", "cf", "own"), ("ladder", "pf"), ("addpay", date(2024, 2, 6), 4.0),
        ("hold", 1.75), ("cash", -30.0), ("bump", 1, 25 * BP), ("knot", 1, 0.96)]
KRS = {"two": (M1, M3), "three": (date(2024, 1, 10), M2, date(2024, 6, 1)), "beyond": (date(2023, 12, 25), date(2024, 5, 20), date(2024, 11, 3), date(2026, 2, 2))}

def history(ctx, item):
    kr, first, depth, space, ops = item
    def rec(seq):
        key = f"history|{kr}|{seq}" if ops is OPS else f"history|{kr}|{space.name}|{seq}"
        w = World(KRS[kr], space)
        for n, op in enumerate(seq):
            if not do(ctx, w, op, key):
                return
        invariants(ctx, w, key)
        ctx.trace()
        ctx.state((kr, space, w.cash, len(w.flows["cf"]), len(w.flows["pf"]), tuple(w.knots), tuple(w.bumps), len(w.kept), seq[-1]))
        ctx.outcome((kr, tuple(w.knots), tuple(w.bumps)))
        if len(seq) < depth:
            for op in ops:
                rec(seq + (op,))
    rec((first,))

def side_by_side(ctx, item):
    """Two curves over the same bonds, asked in turns: what happens to one never shows in the other."""
    first, spaces = item
    ops = [("pv", "c", None), ("pv", "pf", "coll"), ("disc", "coll"), ("ladder", "pf"), ("bump", 0, 25 * BP), ("knot", 1, 0.037)]
    for seq in itertools.product(itertools.product((0, 1), ops), repeat=3 if ctx.thorough else 2):
        seq = ((0, first),) + seq
        key = f"side|{[s.name for s in spaces]}|{seq}"
        ws = [World(KRS["two"], spaces[0]), World(KRS["three"], spaces[1])]
        ok, _ = ctx.call(key, ws[1].cv.reset_interpolation_value, KnotValuePair(ws[1].knots[-1][0], 0.9 if spaces[1] is IS.DISCOUNT_FACTOR else 0.062), len(ws[1].knots) - 1)
        ws[1].knots[-1] = (ws[1].knots[-1][0], 0.9 if spaces[1] is IS.DISCOUNT_FACTOR else 0.062)
        ctx.trace(); ctx.state(key)
        for i, op in seq + ((1, first), (0, first)):
            if not do(ctx, ws[i], op, f"{key}|{i}"): break
        for w in ws: invariants(ctx, w, key)

def discount_space(ctx, item):
    """Curves quoted directly as discount factors: valuation reads the curve's own values, adjusted at the knots."""
    vals, adjn = item
    ds = [REFD, M1, M2, M3]
    zs = [ZeroCoupon(d, v) for d, v in zip(ds, vals)]
    kr = KeyRate(C.ACTUAL_OVER_ACTUAL, M2, M1, M3)
    adj = None if adjn is None else kr
    for order in (zs, zs[::-1], zs[2:] + zs[:2]):
        key = f"dfspace|{vals}|{adjn}|{[str(z.payment_date) for z in order]}"
        cv = YieldCurve(order, None, IM.LINEAR, C.ACTUAL_OVER_ACTUAL, IS.DISCOUNT_FACTOR, REFD, EB.ERROR, EB.ERROR)
        for d, v in zip(ds, vals):
            for z in [ZeroCoupon(d, 0.5)]:
                ok, pv = ctx.call(f"{key}|{d}", cv.present_value, z, adj)
                ctx.step(); ctx.state(f"{key}|{d}"); ctx.trace()
                want = v + (BP if adj and d == M2 else 0.0)
                if ok:
                    ctx.expect(abs(float(pv) - want) < 1e-12, f"{key}|{d}", f"a unit at {d} is worth {pv}, curve quotes {want}")
        mid = date(2024, 5, 1)
        i = 2
        want = vals[2] + (BP if adj else 0) + (vals[3] - vals[2] - (BP if adj else 0)) * (tau(mid) - tau(M2)) / (tau(M3) - tau(M2))
        ok, pv = ctx.call(f"{key}|mid", cv.present_value, Cashflow([Payment(mid, 2.0), Payment(M1, 1.0)]), adj)
        if ok:
            ctx.expect(abs(float(pv) - 2 * want - vals[1]) < 1e-12, f"{key}|mid", f"got {pv}, want {2 * want + vals[1]}")

BONDS = (("1M", 0.0, PF.ZERO_COUPON, (2024, 1, 16)), ("3M", 0.0, PF.ZERO_COUPON, (2024, 3, 14)), ("6M", 0.0, PF.ZERO_COUPON, (2024, 6, 18)), ("1Y", 2.5, PF.SEMI_ANNUAL, (2024, 12, 16)),
         ("2Y", 4.0, PF.QUARTERLY, (2025, 11, 29)), ("3Y", 0.125, PF.SEMI_ANNUAL, (2026, 12, 15)), ("5Y", 4.375, PF.SEMI_ANNUAL, (2028, 11, 30)), ("7Y", 6.0, PF.ANNUAL, (2030, 8, 31)),
         ("10Y", 3.875, PF.SEMI_ANNUAL, (2033, 5, 15)), ("20Y", 4.75, PF.SEMI_ANNUAL, (2043, 11, 15)), ("30Y", 4.5, PF.QUARTERLY, (2053, 11, 15)))

class Big(World):
    """A curve over a whole market of treasuries, asked once for everything; knots in no particular order."""
    def __init__(self, n, method, dcc, space, krn):
        self.space, self.method, self.dcc = space, method, dcc
        rb = [RBond(100.0 - i, cpn, 100 * (1 + i % 3), t, date(*m), pf) for i, (t, cpn, pf, m) in enumerate(BONDS[:n])]
        us = [r.make(UsTreasuryBond, REFD) for r in rb]
        ks = [r.pay(r.mat) for r in rb]
        order = [(i * 5 + 2) % n for i in range(n)] if n % 5 else [(i * 3 + 2) % n for i in range(n)]
        self.cv = YieldCurve((us[i] for i in order), None, method, dcc, space, REFD, EB.CONSTANT, EB.CONSTANT)
        self.tau = lambda d: float(REF_[dcc](REFD, d))
        if space is IS.DISCOUNT_FACTOR: self.knots = [(REFD, 1.0)] + [(k, math.exp(-0.04 * self.tau(k)) + 0.002 * (i % 3)) for i, k in enumerate(ks)]
        else: self.knots = [(k, 0.03 + 0.004 * ((i * 5) % 7) - 0.0005 * i) for i, k in enumerate(ks)]
        self.cv.reset_interpolation_values(KnotValuePair(*self.knots[(i * 2 + 1) % len(self.knots)]) for i in range(len(self.knots))) if len(self.knots) % 2 else self.cv.reset_interpolation_values([KnotValuePair(*k) for k in self.knots[::-1]])
        self.flows = {f"b{i}": [(d, float(a)) for d, a in r.flows(REFD)] for i, r in enumerate(rb)}
        self.assets = {f"b{i}": b for i, b in enumerate(us)}
        many = [(REFD + timedelta(1 + 23 * i), (-1.0) ** i * (3.0 + i % 7)) for i in range((ks[-1] - REFD).days // 23)][::-1]
        self.flows["cf"], self.assets["cf"] = many, Cashflow([Payment(*x) for x in many])
        if n > 7:                                # other kinds of assets on the same curve
            r = RBond(98.0, 5.5, 1000, "5Y", date(2027, 8, 31), PF.QUARTERLY)
            self.flows["corp"], self.assets["corp"] = [(d, float(a)) for d, a in r.flows(REFD)], r.make(FixedRateBond, REFD)
            org, term = date(2023, 9, 5), "18M"
            ds = c16.dates(org, term, PF.MONTHLY, c16.PT.START_OF_MONTH)
            plan, _ = c16.plan(ds, C.THIRTY_OVER_THREESIXTY, 0.06, c16.level(org, term, PF.MONTHLY, C.THIRTY_OVER_THREESIXTY, 0.06), 0.0)
            self.flows["loan"] = [(d, i + p) for d, i, p in plan if d >= REFD]
            self.assets["loan"] = c16.Loan(c16.P, 0.06, org, c16.TERMS[term], C.THIRTY_OVER_THREESIXTY, PF.MONTHLY, c16.PT.START_OF_MONTH)
            for name, sign in (("payer", 1), ("receiver", -1)):
                rs = c15.RSwap(date(2023, 10, 27), tenor="2Y")
                sw = rs.make(c15.Term, c15.DIR.PAYER_FIXED if sign > 0 else c15.DIR.RECEIVER_FIXED, 0.045, 5000)
                sw.generate_floating_leg_cashflow(c15.RATES["saw"]); sw.generate_fixed_leg_cashflow()
                fl = [(d, sign * a) for d, a in c15.flows(rs, c15.Term, c15.RATES["saw"], True, notional=5000)] + [(d, -sign * a) for d, a in c15.flows(rs, c15.Term, None, False, 0.045, 5000)]
                self.flows[name], self.assets[name] = [x for x in fl if x[0] >= REFD], sw
        qty = [(-1.5) ** (i % 4) for i in range(n)]
        self.flows["pf"] = [(d, q * a) for i, q in enumerate(qty) for d, a in self.flows[f"b{i}"]]
        self.assets["pf"] = Portfolio((PortfolioEntry(qty[i], us[i]) for i in order) if False else [PortfolioEntry(qty[i], us[i]) for i in order], CASH)
        self.cash = CASH
        self.kd = tuple(sorted(ks + [REFD + timedelta(45 + 300 * j) for j in range(krn - n)] + [ks[-1] + timedelta(410)] * (krn > n)))
        self.coll = KeyRateCollection(KeyRate(dcc, d) for d in self.kd[::-1])
        self.bumps, self.kept, self.own = [BP] * len(self.kd), [], None
        for i in range(0, len(self.kd), 3): self.coll[i].set_bump_val(BP * (i - 4)); self.bumps[i] = BP * (i - 4)
        self.cache = {}

    def weight(self, i, d):
        kd = self.kd
        return tent(self.dcc, kd[i - 1] if i else None, kd[i], kd[i + 1] if i + 1 < len(kd) else None, 1.0, d)

    def y(self, d):
        if d not in self.cache: self.cache[d] = expected(self.method, self.dcc, REFD, sorted(self.knots), d, EB.CONSTANT, EB.CONSTANT)[1]
        return self.cache[d]

    def df(self, d, adj=None):
        if self.space is IS.DISCOUNT_FACTOR:
            return expected(self.method, self.dcc, REFD, sorted((k, v + (adj(k) if adj else 0.0)) for k, v in self.knots), d, EB.ERROR, EB.ERROR)[1]
        return math.exp(-(self.y(d) + (adj(d) if adj else 0.0)) * self.tau(d))

def market(ctx, item):
    n, method, dcc, space, krn, what = item
    w = Big(n, method, dcc, space, krn)
    key = f"market|{n}|{method.name}|{dcc.name}|{space.name}|{krn}|{what}"
    ctx.state(key); ctx.trace()
    names = list(w.assets)
    if what == "values":
        do(ctx, w, ("read",), key) if space is not IS.DISCOUNT_FACTOR else None
        do(ctx, w, ("disc", None), key); do(ctx, w, ("disc", "coll"), key)
        for name in names:
            do(ctx, w, ("pv", name, (None, "coll", 0)[len(name + name[-1]) % 2] if n > 9 and name != "pf" else None), key)
            if n <= 9:
                for which in ("coll", 0, 1, krn // 2, krn - 1, -1 % len(w.kd)): do(ctx, w, ("pv", name, which), key)
    elif what == "ladder":
        do(ctx, w, ("ladder", "pf"), key)
    else:
        do(ctx, w, ("ladder", "cf"), key)
        for i, a in enumerate(x for x in ("corp", "loan", "payer", "receiver") if x in names): do(ctx, w, ("pv", a, ("coll", None, 1)[(i + krn) % 3]), key); do(ctx, w, ("deriv", a, (i + krn) % 4), key)
        do(ctx, w, ("pv01", "b4", 1), key); do(ctx, w, ("deriv", "b4", krn - 1), key)
    invariants(ctx, w, key)

def run(ctx):
    clock(date(2000, 1, 1))
    depth = 4 if ctx.thorough else 3
    items = [(kr, op, depth - (kr == "beyond"), IS.CONTINUOUSLY_COMPOUNDED_YIELD, OPS) for kr in KRS for op in OPS]
    items += [(kr, op, depth - (sp is IS.DISCOUNT_FACTOR and kr == "beyond"), sp, OPS2) for op in OPS2 for kr, sp in (("beyond", IS.CONTINUOUSLY_COMPOUNDED_YIELD), ("two", IS.DISCOUNT_FACTOR), ("beyond", IS.DISCOUNT_FACTOR))]
    ctx.bound("history_depth", depth); ctx.bound("operations", len(OPS))
    ctx.pmap(history, items)
    ctx.pmap(side_by_side, [(o, sp) for o in (("pv", "c", None), ("pv", "pf", "coll"), ("disc", "coll"), ("ladder", "pf")) for sp in ((IS.CONTINUOUSLY_COMPOUNDED_YIELD,) * 2, (IS.DISCOUNT_FACTOR,) * 2, (IS.CONTINUOUSLY_COMPOUNDED_YIELD, IS.DISCOUNT_FACTOR))])
    ctx.pmap(discount_space, [(v, a) for v in ((1.0, 0.99, 0.97, 0.95), (1.0, 1.01, 1.0, 0.9)) for a in (None, "kr")])
    mk = [(8, m, c, sp, 8 + e, what) for e in (0, 5) for m in IM for c in (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360, C.ACTUAL_OVER_365_POINT_25) for sp in (IS.CONTINUOUSLY_COMPOUNDED_YIELD, IS.DISCOUNT_FACTOR) for what in ("values", "ladder", "other")
          if ctx.thorough or sp is IS.DISCOUNT_FACTOR or (e == 5 if what == "values" else m is IM.LINEAR and (c is C.ACTUAL_OVER_ACTUAL or e == 0))]
    mk += [(11, m, C.ACTUAL_OVER_ACTUAL, sp, 11, what) for m in (IM.LINEAR, IM.CUBIC_SPLINE) for sp in (IS.CONTINUOUSLY_COMPOUNDED_YIELD, IS.DISCOUNT_FACTOR) for what in ("values", "ladder")[:2 if ctx.thorough or sp is IS.DISCOUNT_FACTOR else 1]]
    ctx.bound("markets", f"{len(mk)} curves over 8 and 11 treasuries (1M to 30Y), 8 to 13 key rates, every method, three day counts, both spaces")
    ctx.pmap(market, mk[::-1])
    ctx.assume("payment dates and knots of the pool are business days, so no adjustment enters the oracle")
    ctx.sample(str([OPS[6], OPS[4], OPS[9]]))
