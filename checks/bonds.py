"""Reference bond, from first principles (used by C11-C13, C17)."""
from datetime import date, timedelta
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention as SC, PaymentFrequency as PF, BusinessDayAdjustment as BDA, DayCountConvention as C
from fixedIncome.src.scheduling_tools.holidays import US_FEDERAL_HOLIDAYS
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from checks.c01 import ref_holidays
from checks.c02 import Ref, SETTLE
from checks.c03 import add_months
from checks.c04 import REF

_cal = {}
def cal(us=True):
    if us not in _cal:
        _cal[us] = Ref(ref_holidays(1964, 2063) if us else set(), date(1965, 1, 1), date(2062, 1, 1))
    return _cal[us]

def months(tenor):
    return int(tenor[:-1]) * (12 if tenor[-1] == 'Y' else 1)

class RBond:
    def __init__(self, price, coupon, principal, tenor, mat, pf, sc=SC.T_PLUS_ONE_BUSINESS, dcc=C.ACTUAL_OVER_ACTUAL, adj=BDA.FOLLOWING, us=True):
        self.price, self.coupon, self.principal, self.tenor, self.mat, self.pf = price, coupon, principal, tenor, mat, pf
        self.sc, self.dcc, self.adj, self.us = sc, dcc, adj, us
        self.dated = add_months(mat, -months(tenor))
        self.m = pf.value or 2
        if pf is PF.ZERO_COUPON:
            self.unadj, self.amount = [], 0.0
        else:
            step = 12 // pf.value
            n = -(-months(tenor) // step)        # all that lie after the dated date
            self.unadj = [add_months(mat, -step * k) for k in range(n)][::-1]
            self.amount = principal * coupon / 100.0 / pf.value

    def make(self, cls, purchase):
        return cls(price=self.price, coupon_rate=self.coupon, principal=self.principal, tenor=self.tenor, purchase_date=purchase, maturity_date=self.mat,
                   settlement_convention=self.sc, payment_frequency=self.pf, day_count_convention=self.dcc, business_day_adjustment=self.adj,
                   holiday_calendar=US_FEDERAL_HOLIDAYS if self.us else {})

    def pay(self, d):
        k = cal(self.us)
        f = k.add(d, 0)
        if self.adj is BDA.MODIFIED_FOLLOWING and f.month != d.month:
            return k.before_or_on(d)
        return f

    def settle(self, d):
        return cal(self.us).add(d, SETTLE[self.sc])

    def accrued(self, d):
        """Interest (in currency) accrued at the settlement of a purchase on d; None when there is none to speak of."""
        if self.pf is PF.ZERO_COUPON:
            return 0.0
        s = self.settle(d)
        if s < self.dated or s > self.unadj[-1]:
            return None
        grid = [self.dated] + self.unadj
        for a, b in zip(grid, grid[1:]):
            if s <= b:
                return self.amount * float(REF[self.dcc](a, s) / REF[self.dcc](a, b))

    def full(self, d):
        a = self.accrued(d)
        return None if a is None else self.price + 100.0 * a / self.principal

    def flows(self, d):
        """(pay date, amount) of everything a buyer on d still receives."""
        s = self.settle(d)
        out = [(self.pay(u), self.amount) for u in self.unadj if u >= s]
        if self.mat >= s:
            out.append((self.pay(self.mat), float(self.principal)))
        return out

    def pv(self, y, d):
        return sum(a * (1 + y / self.m) ** (-self.m * float(REF[self.dcc](d, p))) for p, a in self.flows(d))

    def dpv(self, y, d):
        return sum(-a * float(REF[self.dcc](d, p)) * (1 + y / self.m) ** (-self.m * float(REF[self.dcc](d, p)) - 1) for p, a in self.flows(d))

    def d2pv(self, y, d):
        t = lambda p: float(REF[self.dcc](d, p))
        return sum(a * t(p) * (t(p) + 1 / self.m) * (1 + y / self.m) ** (-self.m * t(p) - 2) for p, a in self.flows(d))

    def mac(self, y, d):
        return sum(a * float(REF[self.dcc](d, p)) * (1 + y / self.m) ** (-self.m * float(REF[self.dcc](d, p))) for p, a in self.flows(d))

    def ytm(self, d):
        """Bisection on the (decreasing) price."""
        goal = self.full(d) * self.principal / 100
        lo, hi = -0.9 * self.m, 20.0
        for _ in range(200):
            mid = (lo + hi) / 2
            if self.pv(mid, d) > goal: lo = mid
            else: hi = mid
        return (lo + hi) / 2

CLASSES = (UsTreasuryBond, FixedRateBond)

def variants(base):
    """(what differs, bond): a bond and the bonds that differ from it in one term only."""
    other = dict(price=(101.25, 87.0), coupon=(4.0, 6.5), principal=(1000, 1_000_000), tenor=("3Y", "18M"), mat=(base.mat + timedelta(1), add_months(base.mat, 7), base.mat - timedelta(2)),
                 pf=[f for f in (PF.ANNUAL, PF.SEMI_ANNUAL, PF.QUARTERLY) if f is not base.pf], sc=[c for c in (SC.T_PLUS_ZERO_BUSINESS, SC.T_PLUS_ONE_BUSINESS, SC.T_PLUS_TWO_BUSINESS, SC.T_PLUS_THREE_BUSINESS) if c is not base.sc],
                 dcc=[c for c in (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360, C.ACTUAL_OVER_365, C.THIRTY_OVER_THREESIXTY) if c is not base.dcc],
                 adj=[a for a in (BDA.FOLLOWING, BDA.MODIFIED_FOLLOWING) if a is not base.adj], us=(not base.us,))
    out = [("base", base)]
    for what, vs in other.items():
        for v in vs:
            out.append((f"{what}={getattr(v, 'name', v)}", RBond(**{**{k: getattr(base, k) for k in ("price", "coupon", "principal", "tenor", "mat", "pf", "sc", "dcc", "adj", "us")}, what: v})))
    return out
