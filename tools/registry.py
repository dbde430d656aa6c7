#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/registry.py` after editing; both files are committed.
A property is claimed when harness/src/bin/<id>.rs exists.
"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, technique=technique))


T = 'src/time/'
MK = 'src/markets/'
D = 'src/derivatives/'
F = 'src/models/forex/'
C = 'src/models/common/'
I = 'src/models/interestrate/'

# ------------------------------------------------------------------ time --
prop('C01', 'Every market calendar follows its published holiday rules in every year',
     'For each market, a day is a business day exactly when the published rules of that market (weekends, fixed and observed holidays, movable feasts, one-off closings and working weekends) say so. This holds for every day of 1901-2199.',
     ['inputs', 'configurations'], 'every civil day 1901-01-01..2199-12-31, every calendar and market variant',
     'Unit tests replay one or two years of a few markets; holiday rules interact with weekday, year range, Easter and leap years over centuries.',
     [T + 'calendars.rs', T + 'calendars/*.rs'],
     [('rule expressions and holiday tables', T + 'calendars/*.rs: is_business_day'), ('Easter tables', T + 'calendars.rs: EASTER_MONDAY, ORTHODOX_EASTER_MONDAY')],
     ['Calendar::is_business_day'],
     'Exhaustive over the stated domain against an independently written rule file. Lunar and decree-based holidays (China, Hong Kong, India, Indonesia, Korea, Singapore, Taiwan, Thailand, Turkey) have no closed rule and are checked against frozen date lists.',
     'exhaustive execution of the real calendars observed by an independent holiday-rule oracle (offline trace comparison)')
prop('C02', 'Joint calendars, Easter, month-end and weekend queries are exact',
     'A joint calendar is open exactly when all its members are open, holiday is the complement of business day, and Easter Monday dates equal the Gregorian and Julian computus. The month-end queries return the true last calendar day and the last business day of that month.',
     ['inputs', 'configurations'], 'every day 1901-2199 for the queries; random member sets (also nested) for joint calendars',
     'Tests sample single dates and one pair of calendars; the claims range over all calendars combinations, months and leap years.',
     [T + 'calendars.rs', T + 'calendars/jointcalendar.rs'],
     [('conjunction over members', T + 'calendars/jointcalendar.rs: is_business_day'), ('last_day_of_month / end_of_month', T + 'calendars.rs')],
     ['JointCalendar::is_business_day', 'Calendar::{is_holiday,is_weekend,end_of_month,last_day_of_month,easter_monday}'],
     'Easter and month-end exhaustive; joint calendars sampled.',
     'runtime oracle: computus and brute-force month scan compared with every observed query')
prop('C03', 'Business-day adjustment obeys its convention',
     'Adjusting a date returns the date itself when it is a business day or the convention is unadjusted, and otherwise the nearest business day in the direction, month and half-month the convention prescribes. The result is always a business day (unless unadjusted), never skips an open day, and adjusting twice changes nothing.',
     ['inputs', 'configurations'], 'all conventions x all calendars x every day of sampled decades, plus synthetic calendars with hostile holiday clusters',
     'Tests check a handful of dates with one calendar; direction changes at month and half-month ends depend on the holiday pattern around the date.',
     [T + 'calendars.rs', T + 'businessdayconvention.rs'], [('adjust', T + 'calendars.rs: adjust')],
     ['Calendar::adjust'], 'Sampled calendars and dates; synthetic calendars make rare clusters (long holiday runs over month ends) common.',
     'runtime oracle: brute-force search over the business-day predicate beside every adjust call')
prop('C04', 'Advancing a date by a tenor counts business days and months correctly',
     'Advancing by n days moves exactly n business days in the given direction; advancing by weeks, months or years moves the calendar date (clipped to month end) and then adjusts. With end-of-month on, a start on the last business day of its month ends on the last business day of the target month.',
     ['inputs', 'configurations'], 'random dates, calendars (real and synthetic), tenors of both signs, conventions and the end-of-month flag',
     'Tests use a few dates and tenors; the result depends on the holiday pattern on the way, month lengths and leap years.',
     [T + 'calendars.rs', T + 'period.rs'], [('advance', T + 'calendars.rs: advance')],
     ['Calendar::advance'], 'Sampled.', 'runtime oracle: step-by-step walk of the business-day predicate beside every advance call')
prop('C05', 'Business days between two dates equal a day-by-day count',
     'The number of business days between two dates equals a day-by-day count with the requested endpoint inclusion, is zero-length consistent when both dates coincide, and changes sign when the dates are swapped.',
     ['inputs', 'configurations'], 'random date pairs in both orders, all inclusion flags, real and synthetic calendars',
     'One test covers one month of one calendar.',
     [T + 'calendars.rs'], [('business_days_between', T + 'calendars.rs')],
     ['Calendar::business_days_between'], 'Sampled.', 'runtime oracle: day-by-day counting monitor')
prop('C06', 'Tenor arithmetic and FX settlement dates are exact',
     'Adding or subtracting a tenor moves a date by exactly that many days, weeks, months or years (clipping to month end), and multiplying a tenor scales it. An FX settlement date is the tenor counted from spot, rolled to the next business day but capped at the last business day of its month; it is always a business day, non-decreasing in the tenor and never before spot, and the near leg of a pre-spot swap is its start date rolled forward.',
     ['inputs', 'configurations'], 'random dates 1950-2150, tenors and calendars',
     'Tests fix one trade date and a few tenors.',
     [T + 'period.rs'], [('Add/Sub/Mul', T + 'period.rs'), ('settlement_date', T + 'period.rs')],
     ['Period::settlement_date', 'Period::near_date', 'NaiveDate + Period'], 'Sampled.',
     'runtime oracle: independent civil-date arithmetic and settlement walk')
prop('C07', 'Day counters match their market definitions',
     'Each day-count convention returns the day count and year fraction of its published definition. For the actual-day and symmetric 30-day conventions year fractions change sign when the dates are swapped and vanish on equal dates, and (except actual/actual Euro) add up over consecutive intervals.',
     ['inputs', 'configurations'], 'random date pairs 1901-2199, every convention and market variant, month ends and leap days over-sampled',
     'Unit tests contain a short table per convention and none for actual/actual and business/252.',
     [T + 'daycounters/*.rs'], [('day_count / year_fraction', T + 'daycounters/*.rs')],
     ['DayCounters::{day_count,year_fraction}'], 'Sampled, with month-end and leap-day bias.',
     'runtime oracle: independent re-implementation of every convention beside each call, plus algebraic trace checks')
prop('C08', 'IMM dates and codes form a consistent sequence',
     'IMM dates are exactly the third Wednesdays (of March, June, September, December for the main cycle); the code of a date decodes to that date within the decade, and the next IMM date is the first one strictly after the given date. Codes accepted as valid (either letter case) always decode, and nothing else does.',
     ['inputs'], 'every day of 1990-2099, all two-character codes with decoy characters, both cycles',
     'Tests probe a few dates; next-date and decade roll-over need every month position and year digit.',
     [T + 'imm.rs'], [('is_imm_date, code, date, next_date', T + 'imm.rs')],
     ['IMM'], 'Exhaustive over dates and codes.', 'exhaustive execution observed by an independent third-Wednesday oracle')
prop('C09', 'Generated swap schedules tile the swap life without gaps or overlaps',
     'A swap schedule starts at the effective date, its periods are contiguous, strictly increasing and of the index tenor, and it ends at the maturity implied by the swap tenor; payment and fixing dates follow the stated lags on business days.',
     ['inputs', 'configurations'], 'random valuation dates, tenors, frequencies, calendars and lags',
     'Tests list the schedule of one or two swaps.',
     [D + 'interestrate/swap.rs', D + 'interestrate/basic.rs'], [('schedule generation', D + 'interestrate/swap.rs')],
     ['InterestRateSwap schedule'], 'Sampled.', 'runtime trace checker over generated schedules')
# ----------------------------------------------------------------- rates --
prop('C10', 'Yield-curve queries are mutually consistent',
     'Discount factors, zero rates and forward rates read from one curve satisfy their defining identities for every date. The zero rate read for a date is that of the end of the day (the following calendar day), linear in time between visible pillars and flat outside them; hidden pillars have no influence.',
     ['inputs', 'configurations', 'histories'], 'random curves (flat, steep, negative, humped) and query dates',
     'Tests use one curve and a few dates.',
     [MK + 'termstructures/yieldcurve.rs'], [('interpolation and queries', MK + 'termstructures/yieldcurve.rs')],
     ['YieldTermStructure queries'], 'Sampled.', 'runtime oracle: identities recomputed from independent log-linear interpolation')
prop('C11', 'Bootstrapped curves reprice every quote they were built from',
     'After building a curve from deposit, futures and swap quotes, every instrument repriced on the curve up to its own pillar returns its input quote (a swap is worth zero), pillars come out in date order, and quotes at later pillars do not disturb earlier ones.',
     ['inputs', 'configurations'], 'random quote sets within market-plausible and stressed ranges, pillar sets and calendars',
     'Tests bootstrap one fixed quote set.',
     [MK + 'termstructures/yieldcurve.rs', MK + 'termstructures/yieldcurve/*.rs'], [('bootstrap', MK + 'termstructures/yieldcurve.rs')],
     ['curve pillars, implied quotes'], 'Sampled.', 'runtime oracle: independent repricing of inputs on the observed curve')
prop('C12', 'Quote changes propagate to every dependent object',
     'When an observed market object changes, every attached dependent is notified exactly once per notification, in order of attachment, and valuations made afterwards use the new values. Dependents already dropped hear nothing, and a dependent that fails is reported to the caller as an error.',
     ['histories'], 'random attach/notify histories over graphs of dependents',
     'Tests exercise one observer.',
     ['src/patterns/observer.rs', MK], [('notify loops', 'src/patterns/observer.rs and market objects')],
     ['Observable::notify_observers', 'Observer::update'], 'Sampled histories.', 'runtime trace checker: recorded notification log against a specification')
prop('C13', 'Swap valuation is the discounted sum of its cash flows',
     'A swap is worth the sum over its legs of signed notional, rate, accrual and discount factor, plus the notional returned on each leg\'s final payment date; swapping pay and receive negates it, value is linear in the notional, and the fair fixed rate makes it zero. DV01, gamma and duration are revaluations on the shifted curve; vega is zero.',
     ['inputs', 'configurations'], 'random curves, swaps, sides, notionals',
     'Tests price one swap.', [D + 'interestrate/swap.rs'], [('npv', D + 'interestrate/swap.rs')], ['InterestRateSwap valuation'],
     'Sampled.', 'runtime oracle: independent cash-flow summation')
prop('C14', 'Caps and floors equal the sum of Bachelier caplets and respect parity',
     'A cap or floor is worth the sum of the discounted normal-model values of its remaining optionlets; cap minus floor equals the corresponding forward swap leg, and prices never fall below discounted intrinsic. Reported sensitivities equal the change of the reported price under the stated curve or volatility shift.',
     ['inputs', 'configurations'], 'random curves, strikes, vols and schedules',
     'Tests fix one cap.', [D + 'interestrate/cap.rs', C + 'bachelier.rs'], [('npv and greeks', D + 'interestrate/cap.rs')], ['InterestRateCap valuation'],
     'Sampled.', 'runtime oracle: independent optionlet sum, parity monitor, finite-difference monitor')
prop('C15', 'Rates volatility surfaces interpolate within their quotes and strip consistently',
     'A rates volatility surface reads the first expiry at or after the queried time (the last one beyond the end), interpolates linearly between neighbouring strikes and extrapolates flat. Caplet volatilities stripped from cap quotes with common expiries reprice every quoted cap.',
     ['inputs', 'configurations'], 'random surfaces and query points, random cap quotes',
     'Tests read a few nodes.', [MK + 'interestrate/volsurface.rs', MK + 'interestrate/market_context.rs'], [('interpolation', MK + 'interestrate/volsurface.rs')], ['surface queries'],
     'Sampled.', 'runtime oracle: independent interpolation and repricing')
# -------------------------------------------------------------------- FX --
prop('C16', 'FX forward points interpolate their quotes',
     'Forward points return the quoted value on its settlement date (one of them when several quotes settle that day), interpolate linearly in calendar days between neighbouring quotes, report nothing outside the quoted range or on or before the valuation date, and never depend on the order in which quotes were supplied.',
     ['inputs', 'configurations'], 'random quote sets, tenors, valuation and query dates, calendars',
     'Tests use one quote set.', [MK + 'forex/quotes/forwardpoints.rs'], [('interpolation', MK + 'forex/quotes/forwardpoints.rs')], ['FXForwardHelper'],
     'Sampled.', 'runtime oracle: independent interpolation')
prop('C17', 'FX forward valuation and sensitivities are consistent',
     'An FX forward is worth the difference between market forward and strike on the base notional (a domestic notional converts at the strike), discounted on the domestic curve; it changes sign with direction and is linear in notional. Its delta is the slope of the payoff in the forward, gamma and vega are zero, and a settlement date outside the quoted range is an error.',
     ['inputs', 'configurations'], 'random forwards, curves and market states', 'Tests value one forward.',
     [D + 'forex/forward.rs'], [('mtm', D + 'forex/forward.rs')], ['FXForward valuation'], 'Sampled.',
     'runtime oracle: independent discounting and finite-difference monitor')
prop('C18', 'FX vanilla options follow Black with parity and exact sensitivities',
     'A vanilla FX option is worth the discounted Black value on its forward (the premium leg, negative for the buyer); call minus put equals the discounted forward payoff. Forward delta, gamma and vega (per one volatility point) equal the slopes of the Black price on the base notional, a domestic notional converting at the strike, and a settlement date outside the quotes is an error.',
     ['inputs', 'configurations'], 'random options across strikes, vols, expiries, directions and market states', 'Tests price one option.',
     [D + 'forex/option.rs', D + 'forex/basic.rs'], [('pricing and greeks', D + 'forex/option.rs')], ['FXVanillaOption valuation'], 'Sampled.',
     'runtime oracle: independent Black formula, parity and finite-difference monitors')
prop('C19', 'FX volatility surface reproduces its delta quotes',
     'At each quoted expiry the smile passes through the volatilities implied by the at-the-money, risk-reversal and butterfly (or call and put) quotes at the strikes having the quoted forward delta. Between expiries total variance is linear in time, before the first and after the last the volatility of that expiry applies, and inconsistent quote sets are rejected.',
     ['inputs', 'configurations'], 'random smiles and query points', 'Tests read a few nodes.',
     [MK + 'forex/quotes/volsurface.rs'], [('smile construction', MK + 'forex/quotes/volsurface.rs')], ['FXVolSurface queries'], 'Sampled.',
     'runtime oracle: independent smile interpolation')
prop('C20', 'FX market context returns quotes consistent with its inputs',
     'Spot, outright forward, discounts and volatility returned by an FX market context are those of the curves and quotes it was built from, whichever constructor was used, for every pair and date; missing data is reported as an error rather than invented.',
     ['inputs', 'configurations', 'histories'], 'random contexts and queries including absent pairs', 'Tests use one context.',
     [MK + 'forex/market_context.rs'], [('lookup', MK + 'forex/market_context.rs')], ['FxMarketContext'], 'Sampled.',
     'runtime oracle: model map compared with every query')
# ---------------------------------------------------------------- models --
prop('C21', 'Closed-form option formulas and implied volatilities are exact',
     'The normal distribution, Black-Scholes and Bachelier formulas match high-precision references, respect parity, bounds and monotonicity, and the implied-volatility solver inverts the price wherever the price determines the volatility.',
     ['inputs'], 'random and extreme forwards, strikes, vols, expiries', 'Tests use a few round numbers.',
     ['src/math/normal.rs', C + 'black_scholes.rs', C + 'bachelier.rs'], [('formulas', C)], ['pricing functions'], 'Sampled.',
     'runtime oracle: independent numerical integration and erfc, bound and inversion monitors')
prop('C22', 'The Nelder-Mead minimiser never returns a worse point and reports truthfully',
     'The reported minimum value is the objective at the reported point, is the lowest value the optimiser ever evaluated, is never worse than the start, and the evaluation and iteration limits are honoured; smooth convex objectives are solved to tolerance. In any number of variables every point evaluated after the initial simplex is the reflection, expansion, contraction or shrink (1, 2, 1/2, 1/2) of the current simplex, and the reported number of iterations is the number performed.',
     ['inputs', 'histories'], 'random objectives, starts, dimensions and options', 'Tests minimise two functions.',
     ['src/math/optimize.rs'], [('nelder_mead', 'src/math/optimize.rs')], ['every objective evaluation (wrapped closure)'], 'Sampled.',
     'online monitor on the objective callback (every evaluation recorded) against the returned report, and a trace checker of the simplex moves')
prop('C23', 'Square-root process moments match the process law',
     'Mean, variance, characteristic quantities and expected square root of the square-root process match their closed forms, limits and the exact transition distribution for every parameter set and horizon.',
     ['inputs'], 'random parameters including Feller violation, tiny and huge horizons', 'Tests use two parameter sets.',
     [C + 'cir.rs'], [('moments', C + 'cir.rs')], ['CirProcess'], 'Sampled.', 'runtime oracle: independent quadrature of the transition law')
prop('C24', 'Hull-White bond formulas reproduce the curve and the process law',
     'The duration factor, conditional short-rate variance and integrated bond variance equal their defining integrals for every mean reversion down to zero; affine bond prices equal the curve at time zero, one at maturity, respond to the rate with the duration factor and are martingales under the forward measure; every simulated step follows the mean-reverting equation with the drift target at the start of the step, and with the curve-fitted drift the model reprices the curve.',
     ['inputs'], 'random parameters, curves and dates', 'Tests use flat curves.',
     [I + 'hull_white.rs'], [('formulas', I + 'hull_white.rs')], ['HullWhite1F'], 'Sampled.', 'runtime oracle: quadrature and ODE integration')
prop('C25', 'Fourier-cosine option prices match the distribution they are given',
     'Given the characteristic function of a known distribution, the cosine pricer returns the option values of that distribution at every strike including strikes beyond the truncation range, with put-call parity, monotone and convex in strike; the default truncation is 128 terms and ten standard deviations about the log forward.',
     ['inputs'], 'random lognormal and jump distributions, strikes, discounts', 'Tests use one lognormal case.',
     [C + 'cos_pricer.rs'], [('cosine series', C + 'cos_pricer.rs')], ['COS pricer'], 'Sampled.', 'runtime oracle: closed forms and quadrature')
prop('C26', 'FX Heston/Hull-White characteristic function is a martingale-consistent law',
     'The characteristic function is one at zero, yields the forward at minus i, is Hermitian and bounded by one, solves its defining equations, and reduces to Heston and Black-Scholes in the respective limits.',
     ['inputs'], 'random model parameters, horizons and arguments', 'Tests check one parameter set.',
     [F + 'fx_hhw1_chf.rs'], [('coefficient functions', F + 'fx_hhw1_chf.rs')], ['FxHhw1ForwardChf'], 'Sampled.', 'runtime oracle: independent complex ODE integration, identity monitors')
prop('C27', 'FX market-model characteristic functions are martingale-consistent laws',
     'For the Libor and forward-market-model FX variants the characteristic function is one at zero, consistent with the forward, Hermitian, bounded by one and solves its Riccati equations; with rate volatilities at zero both reduce to Heston.',
     ['inputs'], 'random tenors, volatilities, correlations, horizons, arguments', 'Tests check one set-up.',
     [F + 'fx_hlmm1_chf.rs', F + 'fx_fmm1_chf.rs', F + 'fx_hlmm.rs', F + 'fx_fmm.rs'], [('piecewise Riccati', F + 'fx_hlmm1_chf.rs')], ['characteristic functions'], 'Sampled.', 'runtime oracle: independent complex ODE integration, identity monitors')
prop('C28', 'SABR smile and effective-parameter formulas match their definitions',
     'SABR implied volatility matches Hagan\'s published expansion, is continuous through the money and in every limit, and is symmetric as the model demands. The effective parameters of a time-dependent SABR model satisfy their averaging equations for every schedule and expiry, reduce to the constants when the inputs are constant, and the piecewise schedules return the value of the interval a time falls in.',
     ['inputs'], 'random parameters, strikes, schedules', 'Tests compare a few values.',
     [F + 'sabr.rs', F + 'sabr_effective.rs'], [('formulas', F + 'sabr.rs')], ['formulas'], 'Sampled.', 'runtime oracle: independent formulas and quadrature')
prop('C29', 'FX simulators follow their stochastic equations step by step',
     'Every step of an FX path simulator (Heston/Hull-White, its stock variant, SABR and time-dependent SABR) equals the discretised model equation, schedules included, applied to standard normal increments with the requested correlations and no memory. Negative variance never turns the state non-finite, equal seeds reproduce paths bit by bit, whole-path drivers equal the iterated step, and the discounted spot is a martingale within sampling error.',
     ['inputs', 'histories', 'configurations'], 'random parameters, seeds, step grids', 'Tests check terminal means for one parameter set.',
     [F + 'fx_hhw.rs', F + 'fx_hhw_stock.rs', F + 'sabr.rs', F + 'sabr_time_dependent.rs'], [('step functions', F)], ['every simulation step'], 'Sampled; statistical parts use 6-sigma bands.', 'online monitor on every simulation step against the discretised equation; statistical monitor on increments')
prop('C30', 'Forward-rate model simulators follow their equations and stay arbitrage-free',
     'Every step of the forward-market and FX-forward-market simulators equals the discretised equation of its measure: rates, bank-account state, variance and spot, with volatility schedules, decay and adapted volatility applied, including steps that straddle or start on a tenor date. Expired rates stay frozen, malformed or indefinite correlations are refused, equal seeds reproduce paths, whole-path drivers equal the iterated step, and deflated bonds and spot are martingales within sampling error.',
     ['inputs', 'histories', 'configurations'], 'random tenors, volatilities, seeds, grids', 'Tests check a few means.',
     [I + 'fmm.rs', F + 'fx_fmm_simulator.rs'], [('step', I + 'fmm.rs')], ['every simulation step'], 'Sampled.', 'online step monitor with twin-run noise extraction; statistical martingale monitor')
prop('C31', 'Path generation reports the state exactly at each requested date',
     'Simulating at a list of dates yields one observation per requested date in order, taken exactly at that date\'s year fraction; steps are positive, contiguous, never longer than the requested step, and the time passed to a step lies in that step\'s interval. Each path starts from the initial state, and dates that repeat or coincide with the start still yield their observation.',
     ['inputs', 'histories', 'configurations'], 'random date lists (unsorted gaps, duplicates, start date), step sizes, recorded model stubs', 'Tests use evenly spaced dates.',
     [C + 'simulation.rs'], [('runner', C + 'simulation.rs')], ['every model step (stub model log)'], 'Sampled.', 'trace checker over the step log of an instrumented model')
prop('C32', 'Calibrators recover known parameters and report their true fit',
     'The error, volatilities and iteration counts a calibrator reports are those of the parameters it returns, never worse than its starting point; parameters stay in their domain and those not calibrated stay unchanged, and a SABR smile is found again. The time-dependent SABR bootstrap solves every stage for every pillar it can reach, strips and targets keep the grid they came from, and the discount factors of the calibrators are those of the model\'s initial rates up to the expiry.',
     ['inputs', 'configurations'], 'random true parameters, starts, strike grids, bounds', 'Tests run one round trip each.',
     [F + 'sabr_calibrator.rs', F + 'fx_hhw_calibrator.rs', F + 'fx_hlmm_calibrator.rs', F + 'fx_fmm_calibrator.rs', F + 'sabr_time_dependent_calibrator.rs', C + 'calibration.rs'], [('objective and packing', F)], ['calibration reports'], 'Sampled.', 'runtime oracle: recomputation of the reported fit, bound and conservation monitors')
prop('C33', 'Forward-market-model bond and bank-account formulas are consistent',
     'At time zero the model reprices the initial curve and the bank account is one; in every state bond prices are positive, one at maturity and compound the forward rates between tenor dates, and follow the separable reconstruction for maturities and times inside a period. The bank account grows by the realised rates, instantaneously without noise, deflated bonds are martingales, and maturities in the past or beyond the tenor are refused.',
     ['inputs', 'histories'], 'random curves, tenors, paths', 'Tests use flat curves.',
     [I + 'fmm.rs'], [('bond and bank account', I + 'fmm.rs')], ['bond_price, bank_account'], 'Sampled.', 'runtime oracle: independent formulas on observed paths')
prop('C34', 'Local-volatility and stochastic-local-volatility models match their surface',
     'Local variance at each node is the Dupire formula on the (possibly uneven) grid with the market variance as fallback, converges to the analytic local variance, and is bilinear inside and clamped outside the grid. Every step of the particle simulator applies local volatility divided by the binned conditional mean of squared volatility, whatever the numbers of paths and bins; equal seeds reproduce paths, the forward is a martingale, and the simulation reprices the input smile within sampling error.',
     ['inputs', 'configurations'], 'random smooth surfaces, grids, seeds', 'Tests use one surface.',
     [F + 'dupire_local_vol.rs', F + 'sabr_slv.rs'], [('Dupire formula', F + 'dupire_local_vol.rs')], ['local_variance'], 'Sampled.', 'runtime oracle: independent Dupire evaluation; statistical monitor')
prop('C35', 'Serialised market objects round-trip without loss',
     'Every serialisable object (calendars, day counters, conventions, indices, curve pillars, quotes, deals, schedules) read back from its own serialised form, compact or pretty, serialises to the same document and answers every later query identically. Convention and frequency names and codes lead back to the value they name, and to no other.',
     ['inputs', 'configurations'], 'random objects of each serialisable kind', 'Tests serialise a few objects.',
     ['src'], [('serde derives', 'src')], ['serde_json round trip + queries'], 'Sampled.', 'runtime oracle: differential execution of original and deserialised copy')

prop('C36', 'Currency-pair conventions combine both markets and the pair\'s spot lag',
     'For every currency pair the calendar is open exactly when both currencies\' markets are open, settlement and near-leg dates use the pair\'s own spot lag, and a trade at or after the pair\'s cut-off counts as dealt on the next common business day. Currencies, quote scaling of forward points and day count are those of the pair.',
     ['inputs', 'configurations'], 'all 60 pairs x days 2000-2030 (calendar) and random trade dates, tenors and times of day around the cut-off',
     'Tests probe a handful of pairs and dates.',
     [D + 'forex/basic.rs', T + 'period.rs'], [('pair conventions', D + 'forex/basic.rs: FXUnderlying')],
     ['FXUnderlying::{calendar,settlement_date,near_date,effective_valuation_date,settles}'],
     'Calendar part exhaustive over 30 years, the rest sampled.', 'runtime oracle: independent convention table and calendar conjunction')

prop('C37', 'Rate-index conventions are those of the published benchmark',
     'Each interest-rate index carries its published currency, fixing calendar, settlement lag, day count and roll convention for every tenor, and dates derived from it follow those conventions.',
     ['configurations'], 'every index x tenors in days, weeks, months and years x 2000-2030 calendar days',
     'Tests never compare the index table with the published conventions.',
     [MK + 'interestrate/interestrateindex.rs'], [('index table', MK + 'interestrate/interestrateindex.rs')],
     ['InterestRateIndex constructors and accessors'], 'Exhaustive over indices, sampled tenors.', 'runtime oracle: independent convention table')

prop('C38', 'Out-of-domain model inputs are refused and in-domain ones accepted',
     'Every public way into an FX or rate model (parameter constructors, validate(), characteristic functions, pricers, simulators, calibrators, local-volatility and schedule builders) refuses, by an error or a panic, input outside the model\'s domain - wrong array lengths, unsorted grids, correlations beyond one, asymmetric or not positive definite, non-positive volatilities, times, strikes or counts - wherever in the input the fault lies, and accepts every input inside it, boundaries included.',
     ['inputs', 'configurations'], 'one randomly placed fault of every kind in otherwise random valid inputs, offered to every entry point; the valid inputs themselves and boundary values', 'Tests offer one malformed object to a few of the constructors.',
     [F + x for x in ['fx_fmm.rs', 'fx_hlmm.rs', 'fx_hhw.rs', 'fx_fmm_simulator.rs', 'fx_fmm1_chf.rs', 'fx_hlmm1_chf.rs', 'fx_hhw1_chf.rs', 'sabr.rs', 'sabr_effective.rs', 'sabr_time_dependent.rs', 'sabr_slv.rs', 'dupire_local_vol.rs', 'sabr_calibrator.rs', 'fx_hhw_calibrator.rs']] + [I + 'fmm.rs', C + 'cos_pricer.rs', C + 'simulation.rs'],
     [('validate()', F + 'fx_fmm.rs'), ('constructor assertions', I + 'fmm.rs')], ['constructor, validate, simulate, calibrate calls'], 'Sampled; every kind of fault is placed at a random position in every run.', 'runtime acceptance/refusal monitor with single-fault injection at random positions')

prop('C39', 'Valuations depend on the question alone: no hidden state, order, thread or environment',
     'The answer of every calendar, day counter, curve, deal, market context, model function, calibration and seeded simulation is a function of its arguments and of the object asked. It is bit-for-bit the same on a fresh object in a fresh process, when asked again, after or between any other work on other objects (other markets, pairs, parameters, seeds), on several threads at once, and under another time zone or locale; asking never alters the object, and a live simulator, observed curve or forward ladder follows its own history however others are interleaved with it.',
     ['histories', 'schedules', 'inputs', 'configurations'], 'random workloads over all parts of the library in random interleavings, sequentially and on six threads', 'Tests ask each question once, on fresh objects, in one order.',
     ['src'], [('valuation entry points', D), ('models', 'src/models'), ('calendars', T + 'calendars.rs')], ['every public query, stepping simulators, notify_observers'], 'Sampled interleavings; the library has no shared mutable state of its own, so a violation needs only one interleaving of two colliding questions.', 'runtime differential monitor: recorded answers of a fresh process against random interleaved and multi-threaded histories')


def main():
    head = json.load(open(ROOT + '/tools/hooks.json')) if os.path.exists(ROOT + '/tools/hooks.json') else []
    lines = []
    checks = []
    na = []
    for p in P:
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False))
        if os.path.exists(f"{ROOT}/harness/src/bin/{p['id'].lower()}.rs"):
            checks.append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick",
                           'thorough_cmd': f"./check.sh {p['id']} thorough",
                           'evidence_file': f"evidence/{p['id']}.json",
                           'technique': 'runtime monitoring: ' + p['technique'],
                           'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'monitor not built yet'})
    open(ROOT + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'hooks': {'guard': 'none', 'enable': 'not needed: every monitor observes the public API', 'source_commits': head},
           'checks': checks, 'not_applicable': na,
           'notes': 'Monitors live in /verif/harness (one binary per property, path dependency on /repo, overflow checks and debug assertions on). See DESIGN.md.'}
    open(ROOT + '/MANIFEST.json', 'w').write(json.dumps(man, indent=1, ensure_ascii=False) + '\n')
    print(len(P), 'properties', len(checks), 'checks')


main()
