import json
F='fixedIncome/src/'
SCH=F+'scheduling_tools/scheduler.py'; DC=F+'scheduling_tools/day_count_calculator.py'; HOL=F+'scheduling_tools/holidays.py'; ENUM=F+'scheduling_tools/schedule_enumerations.py'
CF=F+'assets/base_cashflow.py'; UST=F+'assets/us_treasury_instruments/us_treasury_instruments.py'; CORP=F+'assets/credit/corporate_bond.py'
LOAN=F+'assets/credit/loan.py'; SWAP=F+'assets/rates/linear_rates/interest_rate_swap.py'; FUT=F+'assets/rates/linear_rates/interest_rate_future.py'
CUR=F+'curves/base_curve.py'; YC=F+'curves/yield_curves/yield_curve.py'; DEF=F+'curves/credit_curves/default_models.py'
PB=F+'portfolio/base_portfolio.py'; PO=F+'portfolio/portfolio_optimization.py'; KR=F+'risk/key_rate.py'; RM=F+'risk/risk_metrics.py'
BP=F+'stochastics/base_processes.py'; BM=F+'stochastics/brownian_motion.py'; GBM=F+'stochastics/geometric_brownian_motion.py'
AFF=F+'stochastics/short_rate_models/affine_yield_curve_models/'
VAS=AFF+'vasicek_model.py'; DMR=AFF+'doubly_mean_reverting_vasicek.py'; TMR=AFF+'trebly_mean_reverting_vasicek.py'; SMPR=AFF+'stochastic_market_price_of_risk.py'; MIX=AFF+'affine_model_mixin.py'
SR=F+'stochastics/short_rate_models/base_short_rate_model.py'
P=[]
def p(id,title,statement,over,text,why,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    files=sorted({m[1].split(':')[0] for m in mech})
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

p('D01','Day-count fractions follow their convention for every pair of dates',
 'The year fraction between any two dates or timestamps equals the published rule of the requested convention (actual/360, actual/365, actual/365.25, actual/actual by calendar year, US 30/360 with its February and month-end rules), with part days interpolated for timestamps. Consequently fractions are never negative, are zero for equal dates, never decrease when the end date moves later (up to the ties the 30/360 month-end rules prescribe), and the actual conventions add up exactly over a split of the period. A start after the end, or an unknown convention, is rejected.',
 ['inputs'],'every pair of dates or timestamps (leap years, month ends, year ends, multi-year spans) and every convention','The tests pin a few hand-picked pairs; leap days, month ends, mixed date/timestamp pairs and splits are an unbounded set.',
 [('DayCountCalculator.compute_accrual_length',DC),('include_datetimes part-day interpolation',DC)],observe=['returned year fraction','raised error'])
p('D02','Business-day status honours observed US holidays across year ends',
 'A date is a business day exactly when it is neither a weekend nor the observed date of a holiday of the given calendar, including observed dates which fall in the year before or after the nominal holiday; a timestamp has the status of its day. The holiday dates generated for a span of years are exactly one observed date per holiday and year, each by its own rule (weekend adjustment or n-th weekday). An empty calendar leaves only weekends as non-business days, and the next given weekday of a date is that weekday on or after it.',
 ['inputs','configurations'],'every date of many centuries, every holiday rule, any user-defined calendar','Tests sample a few years; the year-boundary adjustments only occur for certain weekday patterns.',
 [('Scheduler.is_business_day',SCH),('generate_all_holidays / adjustment rules',HOL)],observe=['is_business_day result','generated holiday sets'])
p('D03','Business-day shifts and settlement dates land on the right business day',
 'Moving a date by n business days first rolls it forward to a business day and then lands on the n-th business day after (or before) it; the following and modified-following adjustments return the business day nearest in their stated direction, the latter never leaving the month when a business day of the month precedes it. The settlement date of a trade is the trade date moved by its convention, where a same-day-or-earlier convention rolls back and a convention without a rule is refused. Shifts of successive sizes compose and never land on a weekend or an observed holiday.',
 ['inputs','configurations'],'every date, every shift size of either sign, every settlement convention and any holiday calendar','A handful of dates is tested; runs of holidays, month ends on weekends, and empty or custom calendars are not.',
 [('Scheduler.add_business_days and single-day helpers',SCH),('Scheduler.following/modified_following_date_adjustment',SCH),('Scheduler.calculate_settlement_date',SCH)],observe=['returned dates'])
p('D04','Generated date sequences are complete, ordered and do not drift',
 'A sequence of dates by increments contains exactly the start date moved by 0, 1, 2, ... increments while it has not passed the end date (forward or backward, inclusive, up to the stated maximum), so month-end sequences do not drift to earlier days. The business days of a period are all of its business days in order, each once. A futures contract is marked to market on every business day of its own calendar from settlement to maturity.',
 ['inputs','configurations'],'every start/end/increment (days, weeks, months, years, mixed, negative, zero length) and any holiday calendar','Tests cover two or three sequences without month-end starts.',
 [('Scheduler.generate_dates_by_increments',SCH),('Scheduler.generate_business_days',SCH),('UsTreasuryFuture mark-to-market schedule',UST)],observe=['returned date lists','future cashflow schedule'])
p('C01','Cashflow containers keep payments ordered and complete under any edits',
 'A cashflow holds exactly the payments given at construction plus those added later, in date order with later additions placed after existing ones on the same date, and its length, iteration, indexing, slicing, dates, amounts, series and table views always agree. A collection of cashflows behaves as an insertion-ordered mapping from keys to cashflows whose lookups, membership, size and iteration reflect every replacement and addition. Building from date and amount lists of different lengths is rejected.',
 ['histories','inputs'],'every sequence of additions, look-ups, slices and replacements, with duplicate dates and missing amounts','Tests build one or two sorted lists and never interleave edits and reads.',
 [('Cashflow ordered schedule',CF),('CashflowCollection mapping',CF)],state=[('schedule','ordered payments',CF),('cashflows','key to cashflow map',CF)],observe=['schedule, iteration, indexing, series/dataframe views'])
p('C02','Present value discounts each future payment once and is linear',
 'The present value of a cashflow on a discount curve is the sum over payments that have an amount and are dated on or after the curve\'s reference date of amount times discount factor at the payment date. It is therefore additive over any partition of the payments, proportional to the amounts, and unaffected by payments in the past or without an amount. A unit zero-coupon claim is worth the discount factor at its payment date.',
 ['inputs','configurations'],'every set of payments around the reference date and every curve shape and day count','Tests value one hand-made cashflow on a flat curve.',
 [('Cashflow.present_value',CF),('ZeroCoupon.present_value',CF),('DiscountCurve.present_value',CUR)],observe=['present value returned'])
p('V01','Curves pass through their knots and interpolate by their stated method',
 'A curve returns each knot value at its knot and, between knots, the value of the stated interpolation method on the stated day-count axis, whatever order the knots were given in. Outside the knots it either holds the end value or refuses, per side as configured, and an adjustment function is added once everywhere, outside the knots included. After knots are replaced, every query reflects the new knots and only them. On a curve of timestamps a date is the beginning of its day, and a curve of dates takes timestamps.',
 ['inputs','configurations','histories'],'every knot set, interpolation method, day count, end behaviour, adjustment and history of resets','Tests use one linear curve; methods, end behaviours with adjustments and resets are barely combined.',
 [('Curve.interpolate / __call__',CUR),('Curve._create_interpolation_object',CUR),('Curve.reset_interpolation_value(s)',CUR)],state=[('interpolation values','sorted knots',CUR)],observe=['curve(date)','date_to_interpolation_axis'])
p('B01','Bond schedules run back from maturity, adjusted, principal paid once',
 'A bond\'s coupons fall at maturity minus whole coupon periods, strictly after its dated date (maturity minus tenor), each paid on the date adjusted by its convention and calendar, for exactly rate/frequency percent of principal; the principal is paid once on the adjusted maturity. Zero-coupon bonds pay no coupon. Both the treasury and the corporate bond keep these schedules, in payment order.',
 ['inputs','configurations'],'every maturity (month ends and leap days included), tenor, frequency, adjustment, rate, principal and calendar','Tests check one or two benign maturities; month-end drift, stub tenors and custom calendars are not reached.',
 [('create_coupon_payments_cashflow / create_principal_repayment_cashflow',UST),('dated date',UST),('FixedRateBond schedule',CORP)],observe=['coupon and principal cashflows','dated_date'])
p('B02','Accrued interest, invoice price and payment entitlement agree with settlement',
 'Settlement is the purchase (or reference) date moved by the bond\'s own convention; accrued interest is the current coupon times the elapsed share of its unadjusted coupon period under the bond\'s day count, zero for zero-coupon bonds, and refused before the dated date. The full price is the clean price plus accrued interest per 100 of principal, at any reference date, without disturbing the bond\'s own recorded values. A payment belongs to the buyer exactly when its unadjusted date is on or after settlement.',
 ['inputs','configurations','histories'],'every bond, settlement convention and reference date (between, on and around coupon dates, holidays), in any order of queries','Tests look at one purchase date per bond.',
 [('calculate_accrued_interest / get_full_price / is_payment_received',UST),('FixedRateBond counterparts',CORP)],observe=['accrued interest, full price, is_payment_received'])
p('B03','Yield, fixed-rate discounting, durations and convexity are consistent',
 'Discounting the payments a buyer receives at the yield to maturity gives back the full price at any reference date, and the discounted value at a rate is the compounded sum of received payments. Duration and convexity equal minus the first and the second rate derivative of that value per unit of full price, and Macaulay duration is the value-weighted time to payment. Yield falls as price rises.',
 ['inputs','configurations'],'every coupon-bearing bond, price, frequency, day count and reference date','Tests compare a few yields with quoted numbers at loose tolerance; convexity and corporate durations are unchecked.',
 [('discount_cashflows_by_fixed_rate / yield_to_maturity / pv_deriv / duration / convexity',UST),('macaulay_duration and counterparts',CORP)],observe=['yield, discounted value, duration, convexity, Macaulay duration'])
p('Y01','Calibrated yield curves reprice their instruments',
 'A curve built from bonds by simultaneous solve reprices every input bond to its market price, for any order and container of the inputs; bootstrapping does the same for local interpolation methods. A curve built from yields to maturity returns each bond\'s yield at the bond\'s knot and interpolates between them. The curve\'s knots are the bonds\' last payment dates.',
 ['inputs','configurations'],'every set of bonds with distinct maturities, price levels, input orders and interpolation methods','Tests calibrate one bond list with one method; input order, iterators and month-end knots are not varied.',
 [('YieldCurveFactory.construct_yield_curve / bootstrap_yield_curve / construct_curve_from_yield_to_maturities',YC),('to_knot_value_pair',UST)],observe=['present_value of the instruments on the curve','interpolation_values'])
p('Y02','Derived discount curves match the yield curve and never go stale',
 'The discount curve derived from a yield curve has, on every day from the reference date to the last knot, the factor exp(-y t) of the (adjusted) continuously compounded yield, or the interpolated knot factors when the curve is one of discount factors. It always reflects the current knots and adjustment, and deriving another curve never changes one handed out before. The present value of any instrument equals its value on that discount curve.',
 ['inputs','histories','configurations'],'every curve and every sequence of resets, adjusted and unadjusted derivations and valuations','Tests derive one curve once; aliasing and staleness only show over sequences.',
 [('YieldCurve.to_discount_curve / present_value',YC)],state=[('discount_curve','last derived curve',YC)],observe=['discount curve values over time'])
p('K01','A key-rate bump is a tent: full at its date, zero at its neighbours',
 'A key rate\'s adjustment is its bump size at the key date, zero at and beyond its neighbouring dates, and linear in between on its day-count axis, except that the first and last key rates hold their bump outwards. Changing the bump size or the dates rescales exactly that shape, of that key rate only and not of its copies. Day counts and neighbouring dates of any spacing are honoured.',
 ['inputs','configurations','histories'],'every triple of dates, bump size, day count and query date, and any sequence of re-bumps','Tests query a few points of one key rate.',
 [('KeyRate.create_adjustment_function / __call__ / set_bump_val',KR)],observe=['key_rate(date)'])
p('K02','Key-rate collections partition a parallel shift after any edits',
 'A collection of key rates, however it was built up, keeps its members in date order with distinct dates, each reaching exactly to its neighbours, so with equal bumps its members always add up to the same parallel shift at every date. Adding, replacing, removing, re-bumping and looking up act on the collection as on an ordered, never empty map from dates; a refused edit leaves it as it was. The key rates passed in by the caller are not altered.',
 ['histories','inputs'],'every history of additions, replacements, bump changes and look-ups and every query date','Tests add a few rates in order; mutation orders are unbounded.',
 [('KeyRateCollection',KR)],state=[('key rates','ordered key rates with their neighbours',KR)],observe=['collection(date)','iteration','membership'])
p('K03','Key-rate risk equals bumped revaluation and leaves inputs unchanged',
 'A key-rate derivative equals the central difference of the present value of the assets under the curve bumped by half a basis point up and down with that key rate\'s tent, its per-basis-point risk is that derivative scaled by one basis point, and a risk ladder holds one such entry per key rate in date order. Summed over a partition of key rates the risks add up to the risk of a parallel shift. Neither the key rates, the curve nor the assets are changed by the calculation.',
 ['inputs','histories','configurations'],'every curve, asset, portfolio and key-rate set, repeated and interleaved with other queries','Tests compare one bond to a stored number.',
 [('YieldCurve.calculate_key_rate_deriv / calculate_pv01_risk / calculate_pv01_risk_ladder',YC),('RiskLadder',RM)],observe=['derivative, risk, ladder entries, key-rate state after'])
p('P01','Portfolio value is the quantity-weighted sum of its positions plus cash',
 'A portfolio\'s present value is its cash plus the sum over its positions of quantity times the instrument\'s present value on the same curve, for long, short and zero positions alike. It can be used wherever an instrument can, in particular in key-rate risk, which is then the same weighted sum of position risks. The key rates derived from a portfolio lie exactly at its positions\' calibration dates, and positions iterate in the order given, every time.',
 ['inputs','configurations'],'every mix of instruments, signed quantities, cash amounts and curves','The portfolio code has almost no test.',
 [('Portfolio.present_value / to_key_rate_collection / iteration',PB)],observe=['portfolio.present_value','key-rate derivative of the portfolio','derived key-rate dates'])
p('P02','Optimised portfolios are feasible and no feasible portfolio beats them',
 'The weights returned by the optimiser are fully invested, not negative unless short positions are allowed, and reach the target return where one is set. No feasible portfolio has a smaller variance (minimum-variance and frontier problems) or a larger mean-variance utility (utility problem). The frontier reports, for each evenly spaced target return, the optimal weights and the volatility of exactly those weights.',
 ['inputs','configurations'],'every mean vector, positive-definite covariance of realistic magnitude, target, wealth, risk aversion and short-selling flag','Tests check one or two examples; optimality is a for-all over feasible portfolios.',
 [('PortfolioOptimizer.find_minimum_variance_portfolio / calculate_efficient_frontier / find_maximum_utility_portfolio',PO)],observe=['returned weights, volatilities, returns'])
p('S01','Swap legs cover the whole term with no gap, on adjusted dates',
 'The accrual periods of each swap leg tile the term from its start to its end without gap or overlap, generated backward from the end with any short period first, every boundary adjusted by the leg\'s convention and calendar, and every accrual factor computed by the leg\'s own day count. Each period is paid on its adjusted end moved by the leg\'s payment delay, and term-rate fixings happen at the adjusted start moved by the fixing convention. Unsupported frequencies are rejected.',
 ['inputs','configurations'],'every purchase date, tenor, frequency, day count, adjustment, delay and calendar','Tests check one five-year swap.',
 [('swap leg and accrual-period construction',SWAP)],observe=['leg schedules'])
p('S02','Swap value is the signed difference of its legs and zero at the implied rate',
 'Each leg pays notional times rate times accrual factor per period, where a term floating rate is read at the period\'s fixing date and an overnight rate is the simply annualised daily compounding of the index over the period\'s business days. The swap\'s present value is floating minus fixed for the payer of fixed and the opposite for the receiver, counting the payments from the curve\'s reference date on, and is refused while a leg has not been generated. A swap struck at the implied rate is worth zero, the value scales with the notional, and reversing the direction negates it.',
 ['inputs','configurations','histories'],'every curve pair, direction, fixed rate, schedule and valuation date, for term and compounded overnight legs, with legs generated in any order','Tests have no for-all check on valuation; compounding and mid-life valuation are not exercised.',
 [('FixedToFloatInterestRateSwap.present_value / implied_rate / generate_fixed_leg_cashflow',SWAP),('TermInterestRateSwap / OvernightIndexSwap.generate_floating_leg_cashflow',SWAP)],observe=['leg cashflows','present value','implied rate'])
p('L01','Loans amortise exactly: balance, interest split, payoff and dates',
 'The level payment is the annuity of the loan\'s periodic rate over its term (equal repayments at a zero rate), so under 30/360 interest it pays the loan off exactly on the last date. In any schedule every payment splits into interest on the balance then outstanding and principal, extra payments included, and principal repaid never exceeds what is owed: the payoff is capped and nothing but zero follows it. Payments fall one period apart at the requested position in the month, and the loan\'s present value discounts its level-payment schedule.',
 ['inputs','configurations'],'every principal, rate (zero included), term, frequency, payment position, day count, start date, payment amount and stream of extra payments','Tests check one loan without unusual dates or payoffs.',
 [('Loan.calculate_fixed_payment_amount / generate_payment_schedule / present_value',LOAN)],observe=['loan payments, splits, dates, present value'])
p('M01','Brownian paths start at zero, follow their increments and correlation',
 'A simulated path has one value per grid time from the start to the end date, starts from its starting value, and accumulates increments which are the requested correlation factor applied to independent normal draws scaled by the square root of the time step; equal seeds give equal paths. Evaluating the path at any time returns the grid value on the grid and the linear interpolation in between, and is refused before generation or outside its range. Long-run sample variance and correlation agree with the requested ones.',
 ['inputs','configurations','histories'],'every dimension, correlation, period, step, seed, query time and order of generation and queries','Tests use fixed seeds with one or two shapes.',
 [('BrownianMotion',BM),('path evaluation',BP)],state=[('path','array of simulated values',BP)],observe=['path','process(time)'])
p('M02','Diffusion paths obey their own drift and volatility step by step',
 'Every step of a simulated diffusion equals the previous value plus drift times the step plus volatility applied to the driving Brownian increment, evaluated at the step\'s own start time and state, in any number of dimensions. Geometric Brownian motion keeps its relative steps, with its own drift and volatility. Equal seeds and starting values reproduce the path, and generation never alters the caller\'s inputs.',
 ['inputs','configurations','histories'],'every drift and volatility function, starting state, period, step size and seed, and repeated generation','Tests check constant coefficients in one dimension.',
 [('DiffusionProcess path generation',BP),('GeometricBrownianMotion',GBM),('DriftDiffusionPair',BP)],observe=['path versus recorded drift/volatility/Brownian calls'])
p('R01','Integrated short rates, discount and accrual curves follow the current path',
 'The short rate at any time is the transformed state of the current path, and its integral over a time grid is the trapezoidal area under it, starting at zero and additive. Discount and accrual curves are exp of minus and of plus that integral on the grid, starting at one and multiplying to one. After a new path is generated, the step changed or another grid used, every query refers to the current path and grid, and asking without a path is refused.',
 ['inputs','histories','configurations'],'every model, transformation, path (negative rates and sign changes included), grid, day count and history of path generations, curve builds and queries','Tests check one constant path.',
 [('ShortRateModel.generate_path / generate_integrated_path / accrual_curve / create_discount_curve',SR)],state=[('path and derived paths/curves','current simulation and what was derived from it',SR)],observe=['short rate, integrals, curve values'])
p('R02','One-factor affine quantities satisfy the model\'s own equations',
 'For the mean-reverting one-factor model, zero-bond prices solve the pricing equations of its drift and volatility, equal one at zero maturity, and yields, forward rates, yield and forward volatilities, covariances and convexity all agree with those prices. The expected short rate and its average are those of the process the model simulates. All this holds for any state, date or timestamp, maturity and parameter set, and follows every change of parameters.',
 ['inputs','configurations','histories'],'every parameter set, state, date, maturity and sequence of parameter changes','The closed forms are tested at single points or not at all.',
 [('VasicekModel closed forms',VAS),('affine mixin',MIX)],observe=['prices, yields, forwards, volatilities, convexity'])
p('R03','Multi-factor affine prices, yields and hedges satisfy no-arbitrage',
 'For multi-factor mean-reverting models of any dimension, zero-bond prices solve the pricing equations of the model\'s reversion matrix, volatilities, correlations and rate loadings, and yields, forward rates, volatilities, covariances and convexities agree with those prices. The instantaneous hedge portfolio has unit weight sum, no exposure to any factor and earns the short rate. The named two- and three-factor models are these with their stated reversion structure and state order, and the two-factor model follows every change of its parameters.',
 ['inputs','configurations'],'every dimension, reversion matrix, volatility, loading, state and maturity set','The multi-factor models are not covered by any passing test.',
 [('MultivariateVasicekModel',VAS),('DoublyMeanRevertingVasicekModel',DMR),('TreblyMeanRevertingVasicekModel',TMR),('StochasticMarketPriceOfRisk',SMPR)],observe=['prices, yields, forwards, covariances, hedge weights'])
p('X01','Simulated default times follow their hazard rate',
 'Each simulated path has one default time on the simulation grid or none, the first grid time at which its trial succeeds with probability hazard times step, where the hazard is evaluated at that grid time and only times before the horizon are tried. Default frequencies therefore match the survival probabilities the hazard implies, with no default for a zero hazard and an immediate one for a certain default. Paths are independent and as many as requested.',
 ['inputs','configurations'],'every hazard function, horizon, step and number of paths','There is no test of the default model\'s law.',
 [('Bernoulli default paths',DEF)],observe=['returned default times'])
p('G01','Plots draw the object\'s own current values and change nothing',
 'A loan\'s amortisation plot draws, against the payment dates, the payments, principal parts and interest parts of the schedule for the same arguments, each under its own name. A Brownian motion\'s plot draws every coordinate of the current path at the path\'s own times. A one-factor model\'s plot draws, in percent from start to end, its current short-rate path, the expected rate at the same times and the reversion level, and is shown only on request. A yield curve\'s plot draws, on the curve\'s day-count axis from the reference date to the last knot, its yields in percent with every knot marked, its discount factors and, when an adjustment is given, both of them adjusted as well. Plotting changes nothing.',
 ['inputs','configurations','histories'],'every loan, path, model and curve, plotted after any history of new paths, parameters and knots','No test looks at what a plot draws; a wrong line still produces a picture.',
 [('Loan.plot_amortization_schedule',LOAN),('BrownianMotion.plot',BM),('VasicekModel.plot',VAS),('YieldCurve.plot',YC)],observe=['data of the lines, legend entries and markers on the figure'])
p('Q01','Queries have no hidden state: answers do not depend on what was asked before',
 'Every query of the library gives the same answer no matter which other queries were made before it, how often it is repeated, in which order objects were built, or what was done to other objects, even objects that differ from its own in a single attribute. This covers dates and day counts, bond, loan, future and swap quantities, curve values and derived curves, key-rate risks, yield-curve construction, portfolio values and optimisation, seeded simulation and model prices. In particular objects share no hidden state, no query alters the object or the arguments it was given, and shared defaults such as the federal holiday calendar never change.',
 ['histories','inputs','configurations'],'every interleaved, repeated and reordered history of queries, constructions and edits over any set of objects of the library, near-identical ones included','Each test builds its own object and asks it once; leftovers of earlier queries, incomplete cache keys and shared mutable defaults only show in histories.',
 [('bond quantities and their recorded settlement and price',UST),('corporate bond quantities',CORP),('loan schedules and values',LOAN),('swap schedules and values',SWAP),('curve construction and resets',CUR),('yield-curve factory',YC),('key-rate collections',KR),('portfolio optimisation',PO),('portfolio values',PB),('processes',BP),('Brownian increments',BM),('short-rate models',SR),('affine prices',VAS),('holiday calendars',HOL),('scheduling helpers',SCH),('day counts',DC),('default times',DEF)],
 state=[('recorded prices, settlement dates, knots, paths and schedules','the only state a query may depend on is that of its own object and arguments','fixedIncome/src')],observe=['answers of queries in a shared history versus answers in a fresh process'])
p('E01','Refused or failed operations leave everything as it was',
 'An operation which is refused (dates or indices out of range or order, conflicting key rates, invalid model parameters or starting values), or which fails half-way because a function, instrument, curve or iterable given to it raises, changes nothing. Curves keep their knots and values, cashflows their payments, key rates and their collections their members, dates and bumps, bonds, loans and swaps their terms and legs, portfolios their positions, and processes and rate models their current path, step, parameters, integral and curves. The arguments given and the shared calendars stay as they were, too. Afterwards every query is answered as if the failed operation had never been asked for, and operations which succeed later have their usual effect.',
 ['histories','inputs','configurations'],'every operation of the library, every use of a callback, instrument, curve or iterable at which it can fail, every kind of refusal, and every history of failed and successful operations','Tests which look at refusals stop at the exception; what the refused operation left behind only shows in later queries.',
 [('curve resets',CUR),('yield-curve risk and construction',YC),('key-rate collections',KR),('swap legs',SWAP),('loan schedules',LOAN),('cashflows',CF),('bond quantities',UST),('portfolio values',PB),('portfolio optimisation',PO),('processes',BP),('Brownian paths',BM),('short-rate paths and derived curves',SR),('model parameters',VAS),('two-factor parameters',DMR),('scheduling with a failing holiday rule',SCH)],
 state=[('knots, legs, members, paths and parameters','what an object keeps, before and after a failed operation','fixedIncome/src')],observe=['stored attributes and answers of an object after a failed operation versus those of an equal one spared of it'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
