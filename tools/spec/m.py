MDT = "exhaustive enumeration of parameter sets, step sequences and maturities on the real code against an executable reference model"
CALT = "exhaustive enumeration of seeds, targets and iteration budgets on the real calibrators, each result checked against the model"
P('M01', "Closed-form option prices and their inversion are exact and arbitrage-free",
  "The shared Black and Bachelier formulas return the discounted expectation of the payoff under their lognormal or normal law for every forward, strike, volatility and time; calls minus puts equal the discounted forward difference, prices stay inside the intrinsic and upper bounds, rise with volatility, and degenerate inputs give the intrinsic value. Implied volatility returns the volatility that produced a price wherever the price determines it, and none for prices outside the bounds.",
  ['inputs'], "product of forwards, strikes deep in and out of the money, volatilities, times, discounts and tolerances",
  "Tests price a handful of near-the-money options.",
  ['src/models/common/black_scholes.rs', 'src/models/common/bachelier.rs'], [('prices', 'src/models/common/black_scholes.rs bs_call_forward, bs_put_forward'), ('inversion', 'src/models/common/black_scholes.rs bs_implied_vol'), ('normal model', 'src/models/common/bachelier.rs')],
  MDT, "Complete over the product; the reference has its own normal law.", ['bs_call_forward', 'bs_implied_vol', 'bachelier_call'])
P('M02', "The normal distribution functions are accurate in both tails",
  "Density, cumulative and inverse cumulative normal agree with the true functions to their documented accuracy over the whole line: the distribution is increasing, symmetric about one half, and the inverse undoes it for every probability strictly between zero and one, including the extreme tails.",
  ['inputs'], "evenly spaced arguments over [-12, 12] and probabilities from 1e-14 to 1-1e-14",
  "Tests check a few tabulated values.",
  ['src/math/normal.rs'], [('distribution', 'src/math/normal.rs cdf, inverse')],
  MDT, "Complete over the stated mesh; the reference integrates the density by series and continued fraction.", ['math::normal'])
P('M03', "The optimiser follows the Nelder-Mead rules for every history of values",
  "Whatever values the objective returns, the simplex search makes exactly the reflect, expand, contract and shrink decisions of Nelder and Mead, asks only for points its rules call for, never returns a value worse than the best one it saw, reports the iterations it made and whether it converged truthfully, and stops at its budget or tolerances.",
  ['histories', 'inputs'], "every ordering of objective values up to a history depth, dimensions 1 to 4, several starts and option sets",
  "Tests minimise three smooth functions.",
  ['src/math/optimize.rs'], [('search', 'src/math/optimize.rs nelder_mead')],
  "exhaustive exploration of all objective-answer histories to a depth, the optimiser replayed against a reference state machine", "Complete over all distinct orderings to the depth; later answers follow a fixed rule. NaN objectives are outside.", ['nelder_mead'])
P('M04', "Date-driven simulation visits every observation date and no other time",
  "Simulating at dates steps from the valuation date to each observation date in date order without skipping, with no step longer than the requested one and year fractions from the given day counter, records the state at every requested date (also one the day counter gives no time to), and gives the same answer for the same seed whatever the order or repetition of the dates; dates not after the valuation date are refused; Brownian and geometric Brownian paths apply exactly their drift and volatility to the drawn noise.",
  ['inputs', 'schedules', 'configurations'], "every non-empty subset of observation positions in several orders, valuation dates, step limits and day counters",
  "Tests simulate one short set of dates.",
  ['src/models/common/simulation.rs'], [('driver', 'src/models/common/simulation.rs simulate_at_dates'), ('models', 'src/models/common/simulation.rs GeometricBrownianMotion')],
  "exhaustive enumeration of observation schedules with a recording model, compared with a reference stepper", "Complete over the subsets stated.", ['simulate_at_dates', 'SimulationModel'])
P('M05', "Cosine-expansion prices agree with the law of their characteristic function",
  "For a lognormal law the cosine pricer reproduces Black prices over its truncation range and stays within the no-arbitrage bounds beyond it; for Heston laws it agrees with an independent inversion; calls and puts keep parity, and explicit ranges and term counts are honoured.",
  ['inputs', 'configurations'], "forwards, volatilities, times, strikes in and out of the truncation range, term counts and ranges, Heston parameter sets",
  "Tests price a few strikes near the money.",
  ['src/models/common/cos_pricer.rs'], [('expansion', 'src/models/common/cos_pricer.rs CosPricer')],
  MDT, "Complete over the product. The Heston part is restricted to parameter sets whose mass lies in the pricer's default range, which depends on the variance level alone.", ['CosPricer'])
P('M06', "The square-root variance process has the moments and steps of its law",
  "Mean, square-root mean and the helper quantities of the variance process equal those of the noncentral chi-squared law for every parameter set and time, tend to the right limits at zero and infinity, simulated variance never goes negative, and each step is the documented full-truncation step of the drawn noise.",
  ['inputs', 'schedules'], "product of mean reversion, level, volatility, starting variance and times, with step sequences",
  "Tests compare one parameter set.",
  ['src/models/common/cir.rs'], [('moments', 'src/models/common/cir.rs CirProcess'), ('steps', 'src/models/common/cir.rs CirSimulator')],
  MDT, "Complete over the product; the reference sums the law's own series.", ['CirProcess', 'CirSimulator'])
P('M07', "The Hull-White model reprices its bonds and has the variance of its law",
  "Rate mean and variance, bond loadings and the integrated variance of discounted bonds equal the integrals that define them for every mean reversion, volatility and pair of times, are continuous as mean reversion tends to zero, and the simulator makes the documented step of the drawn noise.",
  ['inputs', 'schedules'], "product of mean reversions, volatilities and ordered times, with step sequences",
  "Tests evaluate single values.",
  ['src/models/interestrate/hull_white.rs'], [('closed forms', 'src/models/interestrate/hull_white.rs HullWhite1F'), ('steps', 'src/models/interestrate/hull_white.rs HullWhiteSimulator')],
  MDT, "Complete over the product; the reference integrates numerically. Mean reversions between 0 and 1e-3, where the closed forms lose digits, are outside.", ['HullWhite1F', 'HullWhiteSimulator'])
P('M08', "SABR smiles and paths obey the published formula and the drawn noise",
  "Implied volatility equals Hagan's lognormal expansion for every parameter set, strike and time, continuously through the at-the-money strike and the limits of zero vol of vol and beta one; simulated paths follow the documented step with the stated correlation, keep the forward non-negative and depend only on the seed.",
  ['inputs', 'schedules'], "parameter sets including the limits, forwards, times, strikes, step sequences and seeds",
  "Tests compare a few strikes of one smile.",
  ['src/models/forex/sabr.rs'], [('expansion', 'src/models/forex/sabr.rs SabrParams::implied_vol'), ('steps', 'src/models/forex/sabr.rs SabrSimulator')],
  MDT, "Complete over the product.", ['SabrParams', 'SabrSimulator'])
P('M09', "The FX hybrid Heston/Hull-White model prices and steps by its definition",
  "The characteristic function of the FX-HHW model solves its defining affine equations for every correlation structure, is one at zero and keeps the forward; the simulator makes the documented correlated step for FX, both rates and variance, correlation matrices are validated, and the stock extension adds its own asset consistently.",
  ['inputs', 'configurations', 'schedules'], "correlation matrices, parameter sets, frequencies, maturities and step sequences",
  "Tests compare one parameter set with a tabulated value.",
  ['src/models/forex/fx_hhw.rs', 'src/models/forex/fx_hhw1_chf.rs', 'src/models/forex/fx_hhw_stock.rs'], [('equations', 'src/models/forex/fx_hhw1_chf.rs'), ('steps', 'src/models/forex/fx_hhw.rs'), ('stock', 'src/models/forex/fx_hhw_stock.rs')],
  MDT, "Complete over the product; the reference integrates the affine equations step by step.", ['FxHhw1ForwardChf', 'FxHhwSimulator'])
P('M10', "The FX Libor-market hybrid prices and steps by its definition",
  "The linearised characteristic function and forward volatility coefficients of the FX-HLMM model equal the defining sums over the tenor for every expiry, correlation and skew; the two-currency simulator makes the documented step with the forward-measure drifts, and inconsistent dimensions are refused.",
  ['inputs', 'configurations', 'schedules'], "parameter sets, expiries across the tenor, frequencies and step sequences",
  "Tests evaluate one tenor at one expiry.",
  ['src/models/forex/fx_hlmm.rs', 'src/models/forex/fx_hlmm1_chf.rs'], [('coefficients', 'src/models/forex/fx_hlmm1_chf.rs'), ('parameters', 'src/models/forex/fx_hlmm.rs')],
  MDT, "Complete over the product, for expiries within the tenor and positive vol of vol.", ['FxHlmm1ForwardChf', 'FxHlmmParams'])
P('M11', "The forward market model evolves every forward rate by its definition",
  "Decay functions, drifts, volatilities and bank account of the forward market model equal their definitions at every time of the tenor; rates stop moving once their period has ended, a front stub behaves like the continuously fixed rate, discount bonds follow from the rates, and paths depend only on the drawn noise.",
  ['inputs', 'schedules', 'histories'], "models, seeds and every step pattern across tenor dates, including steps that end exactly on, straddle and fall inside a period",
  "Tests run one model on one uniform grid.",
  ['src/models/interestrate/fmm.rs'], [('dynamics', 'src/models/interestrate/fmm.rs FmmSimulator'), ('tenor', 'src/models/interestrate/fmm.rs FmmTenor')],
  MDT, "Complete over the stated step patterns. The tenor starts at zero.", ['FmmSimulator', 'FmmTenor'])
P('M12', "The FX forward-market hybrid prices and steps by its definition",
  "The characteristic function of the FX-FMM model equals the defining coefficients per tenor segment for every expiry and correlation, and the joint simulator of FX, variance and both rate curves makes the documented correlated step, including the front stub and finished periods.",
  ['inputs', 'configurations', 'schedules'], "parameter sets, frequencies, expiries, seeds and step patterns across tenor dates",
  "Tests evaluate one parameter set.",
  ['src/models/forex/fx_fmm.rs', 'src/models/forex/fx_fmm1_chf.rs', 'src/models/forex/fx_fmm_simulator.rs'], [('coefficients', 'src/models/forex/fx_fmm1_chf.rs'), ('steps', 'src/models/forex/fx_fmm_simulator.rs')],
  MDT, "Complete over the product, for expiries within the tenor.", ['FxFmm1ForwardChf', 'FxFmmSimulator'])
P('M13', "Dupire local variance is the one the option surface implies",
  "From any grid of implied volatilities the local variance is Dupire's ratio of the surface's own call prices, clamped to its band and falling back to the market variance where the ratio is undefined; it interpolates bilinearly and is flat outside the grid, a strike-independent surface gives its forward variance, and the stochastic local volatility simulator steps so that the conditional variance matches the local one. Malformed grids are refused.",
  ['inputs', 'configurations', 'schedules'], "spots, rates, grids and surfaces including arbitrageable ones; particle counts, bins, steps and seeds",
  "Tests rebuild a flat and one smiled surface.",
  ['src/models/forex/dupire_local_vol.rs', 'src/models/forex/sabr_slv.rs'], [('ratio', 'src/models/forex/dupire_local_vol.rs build'), ('particles', 'src/models/forex/sabr_slv.rs')],
  MDT, "Complete over the product; where cancellation leaves the ratio undetermined both outcomes are accepted.", ['dupire_local_vol::build', 'TimeDependentSabrSlvSimulator'])
P('M14', "Effective SABR parameters are the averages of their schedules",
  "A piecewise-constant schedule returns the value of the interval a time lies in; effective volatility, vol of vol and correlation equal their defining time averages for every schedule and horizon, reduce to the constant for flat schedules, and the time-dependent SABR simulator follows all three schedules through time.",
  ['inputs', 'schedules'], "knots, values, horizons across, on and past the knots, step patterns and seeds",
  "Tests check flat schedules and one two-piece case.",
  ['src/models/forex/sabr_effective.rs', 'src/models/forex/sabr_time_dependent.rs'], [('averages', 'src/models/forex/sabr_effective.rs'), ('steps', 'src/models/forex/sabr_time_dependent.rs')],
  MDT, "Complete over the product; the reference integrates numerically.", ['PiecewiseConstant', 'effective_term_structure', 'TimeDependentSabrSimulator'])
P('M15', "A calibration reports its own fit truthfully and never worsens its start",
  "For every model with a smile calibrator, the reported error is the fitted parameters' own error against the targets, fixed parameters are untouched, fitted ones stay in their domain and bounds, the result is no worse than the starting point and exact when the targets are the start's own smile, and calibrating through the surface pipeline gives the same answer.",
  ['inputs', 'configurations'], "seeds inside and outside the domain, expiries, target smiles, iteration budgets and bounds for the SABR, FX-HHW, FX-HLMM and FX-FMM calibrators",
  "Tests calibrate each model once.",
  ['src/models/forex/sabr_calibrator.rs', 'src/models/forex/fx_hhw_calibrator.rs', 'src/models/forex/fx_hlmm_calibrator.rs', 'src/models/forex/fx_fmm_calibrator.rs', 'src/models/common/calibration.rs'], [('calibrators', 'src/models/forex/*_calibrator.rs calibrate'), ('pipeline', 'src/models/common/calibration.rs')],
  CALT, "Complete over the product. Finding the global optimum is not claimed.", ['calibrate', 'CalibrationReport'])
P('M16', "The time-dependent SABR fit reproduces every pillar and reports its residuals",
  "Calibrating a surface fits each pillar's smile first and then finds schedules whose effective parameters reproduce each pillar's in turn, leaving earlier pillars untouched; clamped values are clamped towards their target, reported errors are the true ones, a market made by a flat-volatility model with a square-root or lognormal backbone gives that model back, and market strips copy the surface's volatilities and times exactly.",
  ['inputs', 'configurations'], "surfaces produced from every combination of schedules in the bound, iteration budgets, strips from a volatility surface",
  "Tests calibrate one surface.",
  ['src/models/forex/sabr_time_dependent_calibrator.rs', 'src/models/forex/market_data.rs'], [('stages', 'src/models/forex/sabr_time_dependent_calibrator.rs calibrate_time_dependent'), ('strips', 'src/models/forex/market_data.rs smile_strip')],
  CALT, "Complete over the product. Pillars whose market vol of vol is below 1e-4 carry no correlation and are not compared on it.", ['calibrate_time_dependent', 'smile_strip'])
