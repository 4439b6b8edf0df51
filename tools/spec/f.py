FXT = "exhaustive enumeration of pairs, dates, quote sets and trades on the real code against an executable reference model"
P('F01', "Forward points follow the quoted settlement dates exactly",
  "For any set of quoted tenors in any order, the forward points of a date are the quoted ones on that quote's own settlement date, linear in calendar days between neighbouring settlement dates, and absent on or before the valuation date, outside the quoted range, or with fewer than two quotes. Settlement dates use the pair's own spot lag and calendar.",
  ['inputs', 'configurations'], "every subset of quoted tenors in the bound (all sizes in the thorough tier), pairs with both spot lags, every target day",
  "Tests look up a few dates of one full quote set.",
  ['src/markets/forex/quotes/forwardpoints.rs'], [('interpolation', 'src/markets/forex/quotes/forwardpoints.rs get_forward'), ('spot lag', 'src/derivatives/forex/basic.rs forward_helper')],
  FXT, "Complete over the subsets stated. Where two quotes settle on the same day with different points either is accepted.", ['FXForwardHelper::get_forward'])
P('F02', "Every FX pair has its market's currencies, calendar, lag, cut-off and dates",
  "Each supported pair has the base and quote currency its name says, the points divisor, day count, spot lag and cut-off of its market, and a calendar that is closed exactly when one of its two currencies' markets is; settlement and near-leg dates of every tenor use that lag and calendar, market data at or after the cut-off moves the effective valuation date to the next business day of the pair, and names and serialized forms select the same pair.",
  ['inputs', 'configurations'], "all 60 pairs, every day 1901-2199 for the calendar, every day of a window for all tenors and times around every cut-off",
  "Tests check two pairs on a week of October 2023.",
  ['src/derivatives/forex/basic.rs', 'src/time/period.rs'], [('pair table', 'src/derivatives/forex/basic.rs FXUnderlying'), ('dates', 'src/time/period.rs settlement_date_with_lag, near_date_with_lag')],
  FXT, "Complete over pairs and days; expected conventions are a transcribed market table.", ['FXUnderlying'])
P('F03', "An FX forward is worth its discounted difference to the outright forward",
  "A forward is worth its signed notional times the outright forward at expiry (spot plus scaled points) minus the strike, discounted on the domestic curve to expiry, in domestic currency; a notional in domestic currency is converted at the strike with the opposite sign; its delta is the signed base-currency notional, gamma and vega are zero, and an expiry outside the quoted range is reported as an expired trade.",
  ['inputs', 'configurations'], "all pairs, valuation dates, curve shapes, expiries before, on, between and after the quotes, strikes, notional currencies and directions",
  "Tests price EURUSD on one date.",
  ['src/derivatives/forex/forward.rs'], [('pricing', 'src/derivatives/forex/forward.rs mtm, delta')],
  FXT, "Complete over the product.", ['FXForward::mtm', 'FXForward::delta'])
P('F04', "FX option premium and Greeks obey Black-Scholes for every trade",
  "Premium, delta, gamma and vega of a European FX option equal the forward-form Black-Scholes values at the pair's outright forward, domestic discount and Act/365 time, scaled by notional, notional currency and direction; calls minus puts equal the discounted forward difference, prices stay inside their no-arbitrage bounds and grow with variance, zero volatility gives the intrinsic value, and an expiry outside the quoted range is reported.",
  ['inputs', 'configurations'], "all pairs, valuation dates, expiries, strikes, volatilities including zero, types, notional currencies and directions",
  "Tests price one EURUSD call.",
  ['src/derivatives/forex/option.rs'], [('formula', 'src/derivatives/forex/option.rs black_scholes'), ('Greeks', 'src/derivatives/forex/option.rs delta, gamma, vega')],
  FXT, "Complete over the product; the reference has its own normal distribution. A zero-volatility option struck exactly at the forward is outside the grid (its delta is undefined).", ['FXVanillaOption::mtm', 'black_scholes'])
P('F05', "The FX smile passes through every quote and interpolates as documented",
  "However the quotes are expressed (calls and puts, risk reversals and butterflies, any order), the surface returns each quoted volatility at that quote's own delta strike, follows the documented quadratic plus residual between strikes and the quadratic outside them, interpolates total variance linearly in time between expiries and keeps the volatility flat outside, and refuses incomplete, duplicated, out-of-range or inconsistent quotes.",
  ['inputs', 'configurations'], "every non-empty set of four deltas, grids of ATM, risk reversal and butterfly, expiries, forwards, five quoting styles, several pillar sets in both orders, dates across the pillars",
  "Tests build three smiles and read a few strikes.",
  ['src/markets/forex/quotes/volsurface.rs'], [('smile', 'src/markets/forex/quotes/volsurface.rs SmileSection'), ('expiry interpolation', 'src/markets/forex/quotes/volsurface.rs volatility')],
  FXT, "Complete over the grid; the reference inverts its own normal distribution.", ['FXVolSurface::new', 'FXVolSurface::volatility'])
P('F06', "An FX market context answers from exactly the data it was built from",
  "Whichever constructor is used, a context's rates, discounts, forwards and volatilities equal those of the curves, forward quotes and surface given, each currency's curve answering for its own side; forwards are outright (spot plus points on the pair's divisor, with the pair's own spot lag), dates outside the quoted range and bad components are reported as errors.",
  ['inputs', 'configurations'], "all pairs plus unlisted ones, valuation dates, three constructors, every query day",
  "One test reads two values back.",
  ['src/markets/forex/market_context.rs'], [('constructors', 'src/markets/forex/market_context.rs new, from_raw_quotes, for_linear'), ('queries', 'src/markets/forex/market_context.rs forward_at')],
  FXT, "Complete over the product.", ['FxMarketContext'])
