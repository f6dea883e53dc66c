"""The table behind properties.jsonl and MANIFEST.json (written by gen.py)."""
S = "fixedIncome/src/"
SCH = S + "scheduling_tools/scheduler.py"
HOL = S + "scheduling_tools/holidays.py"
DCC = S + "scheduling_tools/day_count_calculator.py"
CF = S + "assets/base_cashflow.py"
BC = S + "curves/base_curve.py"
YC = S + "curves/yield_curves/yield_curve.py"
KR = S + "risk/key_rate.py"
RM = S + "risk/risk_metrics.py"
BOND = S + "assets/us_treasury_instruments/us_treasury_instruments.py"
CORP = S + "assets/credit/corporate_bond.py"
SWAP = S + "assets/rates/linear_rates/interest_rate_swap.py"
LOAN = S + "assets/credit/loan.py"
PF = S + "portfolio/base_portfolio.py"
OPT = S + "portfolio/portfolio_optimization.py"
BM = S + "stochastics/brownian_motion.py"
BP = S + "stochastics/base_processes.py"
GBM = S + "stochastics/geometric_brownian_motion.py"
SRM = S + "stochastics/short_rate_models/base_short_rate_model.py"
AFF = S + "stochastics/short_rate_models/affine_yield_curve_models/"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique or "explicit-state model checking: exhaustive bounded enumeration on the real code against a reference model", state=state or []))

prop("C01", "Business-day calendar agrees with its holiday rules in every year",
  "A day is a business day exactly when it is neither a weekend day nor an observed holiday, where a fixed-date holiday falling on a weekend is observed on the day its adjustment rule says, also when that lies in the neighbouring year. Holidays defined by a weekday of a month fall on the documented weekday in every year. The holidays listed for a range of years are exactly the observed holidays of those years, and asking one calendar never changes the answers of another.",
  ["inputs", "configurations"], "every day of a span of years covering all 14 year types (thorough: the whole 400-year Gregorian cycle), every single-holiday calendar (month x day x adjustment rule), every short range of years",
  "the tests check a handful of holidays in one or two years; the mistakes live at year ends, leap days and weekend adjustments of years they never visit",
  [SCH, HOL], [("is_business_day and holiday observation", SCH + " Scheduler.is_business_day, generate_holidays"), ("holiday rules", HOL)],
  ["Scheduler.is_business_day", "lists of holidays"],
  "every day of the explored years is compared with an independently written calendar; assumes the rule table pinned by the repository's tests")
prop("C02", "Business-day arithmetic, date adjustment and settlement",
  "Adding n business days to a date first moves a closed day to the next business day and then moves n business days forwards (or backwards when negative); lists of business days hold every business day of the range and no other. Following and modified-following adjustments give the next business day, except that the modified one turns back to the preceding business day rather than leave the month. Settlement conventions move the trade date by exactly their number of business days.",
  ["inputs", "configurations"], "every start date of a window x every shift, and every pattern of closed days around month, year and leap-day ends x every adjustment and settlement convention",
  "tests use one calendar and few dates; clusters of closed days at month and year ends, where the modified rules turn round, are combinations they do not reach",
  [SCH, HOL, S + "scheduling_tools/schedule_enumerations.py"], [("business-day addition", SCH + " Scheduler.add_business_days"), ("adjustment conventions", SCH + " following and modified-following adjustments"), ("settlement", SCH + " settlement date from trade date")],
  ["Scheduler.add_business_days", "Scheduler.following_date_adjustment and its siblings", "settlement helpers"],
  "exhaustive over all closure patterns of the window (up to 2^n) with an explicit list of business days as the oracle")
prop("C03", "Regular date sequences keep their anchor and their end",
  "A sequence of dates by a fixed increment consists of the start date moved by 0, 1, 2, ... increments, up to and including the end date when it is hit and never beyond it, in either direction. Sequences starting at a month end do not drift to earlier days of later months.",
  ["inputs"], "every start day of a leap and several common years x monthly, daily, weekly, yearly and hourly increments in both directions x end dates on, before and after each grid point",
  "tests sample few start days; month-end drift and off-by-one ends need particular day/increment/end triples",
  [SCH], [("date sequence generation", SCH + " Scheduler.generate_dates_by_increments")], ["Scheduler.generate_dates_by_increments"],
  "every triple is compared with month arithmetic written independently")
prop("C04", "Day-count fractions follow their definitions",
  "Each day-count convention gives the year fraction of its definition for every pair of dates, is zero on equal dates and never negative for ordered ones, and dates with a time of day accrue consistently with plain dates at midnight. Actual day counts are additive over any intermediate date.",
  ["inputs"], "every ordered pair of days of a window over leap, common and century years x every convention; every (day, time-of-day) pair and every split point",
  "tests use a few pairs per convention; month-end, leap-day and time-of-day cases are combinations",
  [DCC], [("accrual length", DCC + " DayCountCalculator.compute_accrual_length")], ["DayCountCalculator.compute_accrual_length"],
  "exact comparison (fractions) with definitional references over the whole window")
prop("C05", "Cashflow collections behave as multisets of payments under any history",
  "Payments in a cashflow stay ordered by date whatever order they are given or added in, and length, indexing, slicing, iteration and tabular views all show exactly the payments added; slices are independent of the original. The present value of a cashflow is the sum of amount times discount factor over the payments on or after the curve's reference date, ignoring those with no amount yet. A collection of named cashflows always looks up, iterates over and lists exactly the cashflows currently assigned to its names.",
  ["histories", "inputs"], "every multiset of initial payments in every order, every history of additions and of assignments to names up to a depth, every slice, every reference date around the payments",
  "tests perform one operation on fresh objects; ordering, duplicates and stale views appear only after particular sequences",
  [CF], [("cashflow and collection", CF + " Cashflow, CashflowCollection")], ["Cashflow", "CashflowCollection", "present_value"],
  "all histories to the stated depth are replayed on the real objects against a multiset model")
prop("C07", "Curves interpolate, extrapolate and adjust as declared after any history",
  "A curve returns its knot values at its knots and the declared interpolant between them, uses the declared behaviour (error or constant) outside them, and adds to these its additive adjustments. This remains true, and answers given or curves built earlier stay as they were, after any sequence of evaluations, adjustments, and replacements or resets of knot values.",
  ["histories", "inputs", "configurations"], "every interpolation method x end behaviour x knot set x evaluation point on, between and beyond knots x day-count convention; every history of evaluations, adjustments, resets to a depth",
  "tests use one curve with a few evaluations; stale interpolators and end behaviour under adjustments need sequences of mutations",
  [BC, KR], [("curve evaluation", BC + " Curve.__call__, DiscountCurve"), ("reset of knots", BC + " reset/setter methods rebuilding the interpolator")], ["Curve.__call__", "DiscountCurve.__call__", "adjustments and reset methods"],
  "independent interpolants (linear, step, splines) and a curve model; all histories to the stated depth")
prop("C08", "Key rates and key-rate collections under any history",
  "A key rate's bump is in full force at its own date, falls linearly (in its day count) to zero at the neighbouring key dates, and stays in full force beyond the first and last key date. A collection keeps its key rates sorted by date without duplicates and each aware of its current neighbours, whatever is added, merged, removed, moved, sliced or bumped, so that equal bumps add up to a parallel shift. Operations on one collection never alter another, nor the key rates it was combined from.",
  ["histories", "inputs"], "every date of the span x every placement of key dates; every history of adding, merging, bumping and iterating collections to a depth with every intermediate collection re-checked",
  "tests build one collection; ordering, overlapping neighbours and aliasing arise from sequences",
  [KR], [("tent adjustment", KR + " KeyRate"), ("collections", KR + " KeyRateCollection")], ["KeyRate", "KeyRateCollection"],
  "all operation histories to the stated depth against a sorted-set model")
prop("C09", "Calibrated yield curves reprice their instruments",
  "A yield curve calibrated or bootstrapped from a set of bonds reprices every one of those bonds to its market price, for every interpolation method, and has exactly one knot for each of them (their maturities being distinct), at its last payment date. The result does not depend on the order or the kind of iterable in which the bonds are given, and calibrating leaves the bonds untouched.",
  ["inputs", "configurations"], "every subset (to a size) of a pool of bonds, in every order, as list and as one-shot iterable, for every interpolation method",
  "tests calibrate one fixed set in one order; solver bracketing, ordering and gaps between maturities need other sets",
  [YC], [("calibration", YC + " YieldCurveFactory construct/bootstrap methods")], ["YieldCurveFactory", "YieldCurve.present_value"],
  "independent pricer reading only the curve's knots; prices in the pool are arbitrage-plausible")
prop("C10", "Valuation and key-rate risk on a shared curve are history-independent",
  "Present values on a yield curve are the sum of the discounted future payments, and derivatives, pv01 risks and risk ladders with respect to key rates are the corresponding derivatives of that present value. No valuation or risk query changes the curve, the key rates or the assets, so every later answer is what a fresh curve with the same knots and adjustments would give.",
  ["histories", "inputs"], "every history up to a depth of valuations, risk queries, bumps, knot resets and changes of holdings on one shared curve (of yields or of discount factors) with shared key rates and assets",
  "tests query once on a fresh curve; leftovers of an earlier bump or stale caches only show in a later query",
  [YC, BC, KR], [("pricing and derivatives", YC + " YieldCurve.present_value, to_discount_curve, calculate_key_rate_deriv, calculate_pv01_risk, calculate_pv01_risk_ladder"), ("curve adjustments", BC + " Curve adjustment list")], ["YieldCurve.present_value", "YieldCurve.to_discount_curve", "YieldCurve.calculate_key_rate_deriv", "YieldCurve.calculate_pv01_risk", "YieldCurve.calculate_pv01_risk_ladder"],
  "closed-form oracle on knots and bumps; everything handed out earlier is re-read after each step")
prop("C11", "Bond payment schedules",
  "A bond pays a coupon of rate x principal / frequency on every coupon date counted back from its maturity by whole coupon periods over its tenor, and its principal at maturity. Payment dates are the coupon dates moved to business days by the bond's adjustment convention, so none is missing, duplicated, or shifted away from month ends.",
  ["inputs", "configurations"], "every maturity day of a leap-year window x frequency/tenor x business-day adjustment x calendar x bond type",
  "tests check a few bonds; month ends, leap days, weekends and holidays combine with frequency and adjustment",
  [BOND, CORP, CF, SCH], [("schedule generation", BOND + " and " + CORP + " cashflow construction")], ["bond cashflow collections", "payment dates and amounts"],
  "each schedule is compared payment by payment with month arithmetic and an explicit calendar")
prop("C12", "Accrued interest, invoice price and entitlement to payments",
  "Accrued interest at a purchase date is the share of the running coupon earned between the previous coupon and settlement under the bond's day count, the full price is clean price plus accrued interest, and the buyer receives exactly the payments due on or after settlement, which are also the ones the bond's present value counts. This holds for any requested date, whatever purchase date the bond was created with.",
  ["inputs", "configurations"], "every purchase date of a bond's life x settlement convention x day count x bond type x adjustment",
  "tests use one date per bond; the coupon-date boundary shifted by settlement lag and adjustments is reached only by enumeration",
  [BOND, CORP, CF, DCC], [("accrued interest", BOND + " and " + CORP + " calculate_coupon_payment/accrued interest"), ("settlement", SCH)], ["accrued_interest", "full_price", "is_payment_received", "present_value"],
  "definition computed from an independent schedule and calendar on every date")
prop("C13", "Bond yields, durations and convexities",
  "The yield to maturity of a bond discounts its remaining payments to its full price; its Macaulay, modified and dollar durations and convexity are the corresponding weighted averages or derivatives at that yield. Answers depend only on the bond and the date asked about, not on earlier questions.",
  ["inputs", "configurations", "histories"], "every reference date of a life x price x day count x bond type, and every history of queries at different dates on one object",
  "tests check one bond at one date; dates near coupons, zero-coupon bonds, negative yields and repeated queries are combinations",
  [BOND, CORP, YC], [("yield and duration formulas", BOND + " and " + CORP)], ["yield_to_maturity", "duration", "macaulay_duration", "convexity", "pv_deriv"],
  "independent root finding on an independent schedule; reference dates within 20 days of maturity excluded as ill-conditioned")
prop("C14", "Swap accrual schedules of both legs",
  "Both legs of a swap accrue over consecutive periods without gap or overlap from the swap's start to its end, whose boundaries are counted back from the end by whole payment periods, the first being a shorter stub when the frequency does not divide the tenor. Boundaries are moved to business days by the swap's convention, accrual factors follow each leg's own day count, and the term starts at the trade date's settlement and lasts the tenor.",
  ["inputs", "configurations"], "every trade date of a window x tenor x payment frequency x settlement x adjustment x calendar, for term and overnight swaps",
  "tests build one or two swaps; stubs, month ends and holidays combine with frequency and settlement",
  [SWAP, SCH], [("leg schedules", SWAP + " accrual period generation")], ["leg accrual periods", "payment dates"],
  "each schedule compared with backwards month arithmetic on an explicit calendar")
prop("C15", "Swap cash flows, present value and par rate",
  "Each fixed payment is rate x accrual x notional and each floating payment is what its index accrues over the period (overnight rates compounded daily on actual/360); the value is received minus paid discounted payments, and the par rate makes it zero. The payer's value is the negative of the receiver's, and regenerating legs or asking twice in any order never changes the answers.",
  ["inputs", "configurations", "histories"], "every trade date of a window x contract x rate path x direction; every history of leg generation, par-rate and valuation calls",
  "tests value one swap once; compounding across weekends and holidays, spreads and call orders are combinations",
  [SWAP, CF], [("leg generation and valuation", SWAP + " TermInterestRateSwap, OvernightIndexSwap")], ["leg cashflows", "present_value", "par/fixed rate"],
  "independent pricer and compounding on every day of each period")
prop("C16", "Loan amortization",
  "Payments fall due on month starts or month ends at the loan's frequency, each first covers the interest accrued on the outstanding balance and reduces the balance by the rest, together with any extra payment, never by more than is owed. The level payment is the annuity payment that retires the loan over its term (also at a zero rate), and the loan's present value discounts its remaining level payments. Asking for one schedule never changes another.",
  ["inputs", "configurations", "histories"], "every origination day of a window x frequency x payment time x rate x day count x plan of payments (level, short, lump, missed)",
  "tests use one loan with one plan; month-end schedules, overpayment and zero rates are combinations",
  [LOAN, SCH], [("amortization", LOAN)], ["Loan.generate_payment_schedule", "Loan.calculate_fixed_payment_amount", "Loan.present_value"],
  "textbook recursion evaluated independently on every plan")
prop("C17", "Portfolios and risk ladders add up",
  "A portfolio's value is its cash plus the quantity-weighted sum of its positions' values, its iteration reflects exactly the positions held, and its key rates cover each distinct maturity once. A risk ladder lists exactly the risks it was given, in order, however often it is traversed. No valuation or mapping changes the holdings.",
  ["histories", "inputs"], "every sequence (to a size) of positions from a pool with each kind of asset; every history of valuations, changes of holdings and risk mappings on shared objects",
  "tests use a fixed portfolio; repeated maturities, short positions and changed holdings need sequences",
  [PF, RM, KR], [("portfolio", PF + " Portfolio, PortfolioEntry"), ("risk ladder", RM + " RiskLadder")], ["Portfolio", "RiskLadder"],
  "independent pricer and multiset model over all sequences and histories to the stated size")
prop("C18", "Optimal portfolios satisfy their constraints and are optimal",
  "Optimized weights sum to one, are nonnegative when short selling is not allowed, reach the requested return where one is given, and no admissible portfolio has a better objective (lower risk, or higher risk-adjusted return). The efficient frontier consists of such portfolios, and the result does not depend on the unit in which returns are measured.",
  ["inputs", "configurations"], "every market of a grid of means x volatilities x correlations x time scales x targets x short-selling choice",
  "tests check one market; binding constraints, negative correlations and small (daily) scales are combinations",
  [OPT], [("optimizers", OPT + " PortfolioOptimizer")], ["PortfolioOptimizer results"],
  "optimum found by enumerating every set of held assets with its closed-form solution; 0.1% tolerance on the objective")

prop("C19", "Brownian sample paths have the promised grid, scaling and correlation",
  "A sample path starts at zero on the start date, steps by the given increment up to the end date, and each of its increments is its standard shock times the square root of the step's accrual, correlated across coordinates by the Cholesky factor of the given correlation matrix. Between grid points a path interpolates linearly, and outside the grid it is refused. The same seed gives the same path, and generating increments or new paths never changes paths handed out before or the process's settings.",
  ["inputs", "configurations", "histories"], "every start x horizon x increment x dimension x correlation x day count of a grid; every history of path generation, increments and queries on one process to a depth",
  "tests check one path's shape; uneven last steps, month increments, correlation order and interpolation side are combinations",
  [BM], [("increments and paths", BM + " BrownianMotion.generate_increments, generate_path"), ("interpolation", BM + " value at a date")], ["BrownianMotion.generate_path", "BrownianMotion.generate_increments", "BrownianMotion call on dates"],
  "path identities hold exactly for the shocks drawn; moments only as a coarse supplement under fixed seeds")
prop("C20", "Simulated diffusion processes follow their Euler recursion",
  "Every coordinate of a simulated diffusion (including geometric Brownian motion) starts at its initial value and advances by drift times accrual plus diffusion times the Brownian increment, with both coefficients read at the time and state at the beginning of the step. Each coordinate is known by its own name, whatever their order or number, and values between grid dates interpolate linearly. Processes sharing one Brownian motion, and changes of step, never alter each other's stored paths or grids.",
  ["inputs", "histories", "configurations"], "every sequence of shocks in {-1,0,1} to a length for a pool of one- and multi-dimensional processes; every history of simulations, step changes and queries on processes sharing one Brownian motion",
  "tests simulate one process and check shapes; state-dependent and coupled coefficients, and shared drivers, need shock sequences and histories",
  [BP, GBM, BM], [("Euler scheme", BP + " DiffusionProcess.generate_path"), ("geometric Brownian motion", GBM)], ["DiffusionProcess paths and calls", "GeometricBrownianMotion paths"],
  "shocks are injected through a subclass of the library's BrownianMotion; the recursion is evaluated independently")
prop("C21", "Short-rate paths, their integrals and discount curves agree",
  "The simulated short rate is the given transformation of the simulated state, its integral is the trapezoid rule over the path's own grid (or requested dates) from the start, and the accrual and discount curves are the exponentials of plus and minus that integral. Cash flows discounted on such a curve use the discount factors of the path. New simulations, step changes and integrals on one model never change curves handed out before.",
  ["inputs", "histories", "configurations"], "every sequence of shocks in {-1,0,1} to a length for processes x transformations x grids; every history of simulations, step changes, integrals and curves on one model",
  "tests check types and shapes of one path; stale integrals and grids after re-simulation need histories",
  [SRM, BP, BM], [("short rate and integral", SRM + " ShortRateModel"), ("discount curve", SRM)], ["ShortRateModel simulated rates", "integral", "accrual and discount curves"],
  "custom dates starting later than the path's start are not judged (the code's documentation leaves the origin open)")
prop("C22", "Affine models price, forecast and cover risks as their dynamics imply",
  "In every affine model (Vasicek, multivariate Vasicek, doubly and trebly mean reverting, stochastic market price of risk) bond prices, yields, forward rates, their volatilities and covariances, convexities, and expected and variance of future states and short rates are those implied by the model's stated mean-reverting dynamics, including correlated Brownian motions, from the state at the purchase date. Simulated paths follow the same dynamics. Every answer depends only on the model's current parameters, the purchase date and the maturity, never on earlier queries, and single, listed and one-shot maturities agree.",
  ["inputs", "configurations", "histories"], "every model of a pool x purchase date x maturity x quantity; every history of queries and parameter changes on one model to a depth",
  "tests check a few closed-form values at one maturity; coupled and correlated states, purchase dates along the path and stale caches are combinations",
  [AFF + "vasicek_model.py", AFF + "doubly_mean_reverting_vasicek.py", AFF + "trebly_mean_reverting_vasicek.py", AFF + "stochastic_market_price_of_risk.py", AFF + "affine_model_mixin.py"],
  [("closed forms", AFF + "vasicek_model.py VasicekModel, MultivariateVasicekModel"), ("model factories", AFF + " DMR, TMR and SMPR constructors")], ["zero_coupon_bond_price", "yields and forward rates", "conditional moments", "volatilities, covariances and convexities"],
  "expected values come from numerical quadrature of the stated linear SDE; reversion matrices with real distinct positive eigenvalues")
prop("C23", "Riskless portfolios of bonds hedge every factor and earn the short rate",
  "The weights of a riskless portfolio of zero-coupon bonds add up to one and its value does not react to any state variable to first order, whatever the selection and order of maturities. Its instantaneous drift equals the short rate (no arbitrage), and the price's derivative with respect to maturity and the price convexities used for it match the bond prices.",
  ["inputs", "configurations"], "every selection, in every order, of maturities from a pool x model x purchase date, as list and as one-shot iterable",
  "tests compute one set of weights; order, near-collinear maturities and purchase dates along the path are combinations",
  [AFF + "vasicek_model.py"], [("weights", AFF + "vasicek_model.py weights_for_riskless_portfolio"), ("drift terms", AFF + "vasicek_model.py price convexities and derivatives")], ["weights_for_riskless_portfolio", "price_convexities", "zero_coupon_price_deriv_wrt_maturity"],
  "prices and sensitivities from independent quadrature")
prop("C24", "Simulated default times follow the hazard rate",
  "In each step of the horizon a surviving path defaults with probability hazard rate times step, and the reported default time is the first step in which it does, or not-a-number when it survives the horizon. The hazard rate is read inside the horizon only.",
  ["inputs", "configurations"], "every pattern of certain and impossible default over the steps x step size x horizon x number of paths; every sequence of uniform draws on a grid of levels x every sequence of hazard levels",
  "there is no test; first-default logic and step alignment need time-dependent hazards",
  [S + "curves/credit_curves/default_models.py"], [("simulation", S + "curves/credit_curves/default_models.py default_bernoulli_paths")], ["default_bernoulli_paths"],
  "numpy's uniform draws are scripted and enumerated; simulated frequencies only as a coarse supplement")

NA = []
SETUP = "/opt/venv/bin/python -c \"import numpy, scipy, pandas, dateutil\""
