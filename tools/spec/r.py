RAT = "exhaustive enumeration of quote sets, schedules and dates on the real code against an executable reference model"
P('R01', "A bootstrapped curve reprices every quote it was built from",
  "For every set of cash, futures and swap quotes in maturity order, bootstrapping succeeds, keeps one pillar per used quote at that quote's own maturity, ignores the order quotes are supplied in, and the resulting pillars give back every quoted rate: deposits by their accrued amount from spot, futures by the discount at their start times the quarter's accrual, swaps by a zero present value at the quoted rate on the curve ending at their pillar.",
  ['inputs', 'configurations'], "every subset of cash tenors, futures counts and swap sets in the bound, curve shapes including negative rates, several valuation dates, both quote orders",
  "Tests strip one market snapshot; other mixes of instruments, overlapping futures and cash, negative rates and holiday-adjusted valuation dates are never built.",
  ['src/markets/termstructures/yieldcurve.rs', 'src/markets/termstructures/yieldcurve/'],
  [('stripping', 'src/markets/termstructures/yieldcurve.rs get_stripped_curve'), ('quote maturities', 'src/markets/termstructures/yieldcurve/ratehelper.rs, oisratehelper.rs')],
  RAT, "Quotes are generated from known curves and the curve is asked for them back. Swaps are assumed to mature after the last cash and futures quote. One known finding: the first futures pillar's zero rate (value pinned by an existing test).",
  ['YieldTermStructure::get_stripped_curve'])
P('R02', "Curve reads: interpolation, extrapolation, shifts, hidden pillars agree",
  "Zero rates are linear in calendar days between visible pillars and flat outside them, discounts follow from the zero rate over actual/365, hidden pillars have no influence, the forward rate of a period follows from the discounts at its two ends, and a shifted discount is the discount with every zero rate moved by exactly that many basis points.",
  ['inputs', 'configurations'], "every pillar layout, every zero-rate assignment from an alphabet, every hidden mask, every query day",
  "Tests read a few dates of one curve without hidden pillars.",
  ['src/markets/termstructures/yieldcurve.rs'],
  [('reads', 'src/markets/termstructures/yieldcurve.rs zero_rate, discount, forward_rate, shift')],
  RAT, "Complete over the layouts stated. One known finding: a date is read at the following day, so a pillar's own date does not return its zero rate (pinned by an existing test).",
  ['YieldTermStructure::zero_rate', 'YieldTermStructure::discount'])
P('R03', "Swap legs schedule and value exactly their contractual cash flows",
  "A leg's generated schedule runs from its settlement date to its maturity in contiguous periods of the leg's tenor under its calendar and convention, with reset and delayed payment dates; every coupon accrues by the leg's day count on its own period's balance; floating coupons use the curve's forward rate plus spread; a leg is worth its discounted coupons plus the final balance, signed by direction; and a swap is worth the sum of its legs, whether valued through a market context or through a curve.",
  ['inputs', 'configurations'], "the product of leg kinds, tenors, day counts, conventions, pay delays, reset lags, directions, explicit amortising schedules, valuation dates and curves",
  "Tests price two swaps on one date.",
  ['src/derivatives/interestrate/swap.rs'],
  [('schedules', 'src/derivatives/interestrate/swap.rs generate_schedule'), ('valuation', 'src/derivatives/interestrate/swap.rs npv, mtm')],
  RAT, "Complete over the product; the reference builds its own schedule and flows. 30/360 with daily periods is excluded (a zero-length accrual has no forward rate).",
  ['InterestRateSwap::mtm', 'InterestRateSwapLeg::npv'])
P('R04', "Swap DV01 and gamma are the exact repricing differences they are named for",
  "DV01 equals the change of a swap's value when every zero rate of the curve moves up by one basis point; gamma with a zero-rate shift equals the up-value plus the down-value minus twice the base value for the requested shift; modified duration is the negative DV01 relative to the value (zero for a worthless trade); a swap has no vega; shift modes that are not supported are refused rather than answered.",
  ['inputs', 'configurations'], "every leg pair of the product on every curve shape, shift size and valuation date",
  "Tests check one hard-coded value.",
  ['src/derivatives/interestrate/swap.rs'],
  [('risk', 'src/derivatives/interestrate/swap.rs dv01, gamma, vega')],
  RAT, "Complete over the product; expected values come from repricing on a curve whose pillars were moved.", ['InterestRateSwap::dv01', 'InterestRateSwap::gamma'])
P('R05', "Caps and floors are worth the sum of their caplets' normal-model values",
  "A cap or floor is worth the sum over its periods of the discounted normal-model value of that period's forward rate, with the surface's volatility at its expiry and strike and the variance its style (forward-looking or backward-compounded) accrues; directions flip the sign, cap minus floor at one strike equals the strip of swaplets, DV01, gamma and vega are exact repricing differences, modified duration is the relative DV01, and pricing without a surface is refused.",
  ['inputs', 'configurations'], "every strike, start offset before and after the valuation date, caplet count, surface and curve shape in the bound",
  "Tests price one cap.",
  ['src/derivatives/interestrate/cap.rs', 'src/models/common/bachelier.rs'],
  [('pricing', 'src/derivatives/interestrate/cap.rs mtm'), ('normal model', 'src/models/common/bachelier.rs')],
  RAT, "Complete over the product; the reference has its own normal distribution.", ['CapFloor::mtm'])
P('R06', "Stripped caplet volatilities reprice every cap quote",
  "For every set of quoted strikes and maturities, including ragged ones, stripping gives caplet volatilities that reprice every quoted cap and floor whatever the quote order, or is refused leaving the surface exactly as it was; a lookup is piecewise flat in expiry, linear in strike and flat outside the grid, and an unstripped surface refuses it.",
  ['inputs', 'configurations', 'histories'], "every non-empty subset of strikes and maturities including ragged grids, both quote styles and orders, strip failures after successes",
  "Tests strip one rectangular grid.",
  ['src/markets/interestrate/volsurface.rs'],
  [('stripping', 'src/markets/interestrate/volsurface.rs'), ('lookup', 'src/markets/interestrate/volsurface.rs volatility')],
  RAT, "Complete over the grids; volatilities are not compared where the premium cannot resolve them.", ['CapletVolSurface'])
P('R07', "Interest-rate indices and market contexts carry their market's conventions",
  "Every index has its market's currency, calendar, day count, settlement lag, tenor and rolling rule, and a market context answers rates, discounts and caplet volatilities exactly as its own curve and surface do.",
  ['configurations'], "every index with every tenor it accepts, every calendar day of the range, contexts with and without surface",
  "Tests construct two indices.",
  ['src/markets/interestrate/interestrateindex.rs', 'src/markets/interestrate/market_context.rs'],
  [('index table', 'src/markets/interestrate/interestrateindex.rs from_enum'), ('context', 'src/markets/interestrate/market_context.rs')],
  RAT, "Complete over the table; expected conventions are a transcribed market table.", ['InterestRateIndex::from_enum', 'IRMarketContext'])
P('R08', "Futures settle and mature on IMM dates and quote 100 minus the rate",
  "A futures code settles on the first IMM date of its month and year digit not before the reference date, matures on the IMM date its tenor reaches, and its implied rate is (100 - price + convexity adjustment) per cent.",
  ['inputs'], "every start day of the range, every code, many reference dates, all tenors",
  "Tests check one code.",
  ['src/markets/interestrate/futures.rs', 'src/markets/termstructures/yieldcurve/ratehelper.rs'],
  [('futures dates', 'src/markets/interestrate/futures.rs'), ('futures rate', 'src/markets/termstructures/yieldcurve/ratehelper.rs')],
  RAT, "Complete over the stated ranges.", ['InterestRateFutures::maturity_date', 'FuturesRate'])
