ENUM = "exhaustive enumeration of the real code against an executable reference model"
P('C01', "Market calendars close on exactly the market's holidays, every day 1901-2199",
  "For every supported market and every day from 1901 to 2199, the calendar reports a business day exactly when the day is neither a weekend nor one of the holidays the market's declared rules put there, including rules bounded by year, substitute days, feasts relative to Easter and one-off closures. The last calendar day and last business day of each month follow from the same facts.",
  ['inputs', 'configurations'], "every market and sub-market, every day of 1901-2199",
  "The tests list only the days of 2023 (one year in 299) and only for the default or a few sub-markets; year-bounded rules, substitutes and one-off closures of other years are never evaluated.",
  ['src/time/calendars.rs', 'src/time/calendars/'],
  [('per-market holiday rules', 'src/time/calendars/*.rs is_business_day'), ('Easter tables', 'src/time/calendars.rs'), ('month ends', 'src/time/calendars.rs end_of_month')],
  ENUM, "Every day of every market compared with an independent rule set (own Easter computus, equinoxes from an astronomical series, Jewish calendar arithmetic). Lunar and one-off dates of nine Asian markets are an explicit transcribed list, so for those the check detects changes rather than original mistakes. Weekend is Saturday/Sunday for all markets.",
  ['Calendar::is_business_day', 'Calendar::is_holiday', 'Calendar::end_of_month'])
P('C02', "Easter and Orthodox Easter are right in every year 1901-2199",
  "For every year from 1901 to 2199, the Western and the Orthodox Easter Monday are the days the ecclesiastical computation gives.",
  ['inputs'], "every year 1901-2199, both churches, through every calendar",
  "No test evaluates the tables outside 2023.",
  ['src/time/calendars.rs'], [('Easter tables', 'src/time/calendars.rs EASTER_MONDAY, ORTHODOX_EASTER_MONDAY')],
  ENUM, "Complete: all 299 years against the computus.", ['Calendar::easter_monday', 'Calendar::orthodox_easter_monday'])
P('C03', "Rolling a date obeys the chosen business-day convention",
  "For every market calendar, date and convention, the rolled date is the one the convention defines over that calendar's business days: following, preceding, their modified forms that never leave the month, the half-month form that never crosses mid-month, unadjusted, and nearest with ties going forward.",
  ['inputs', 'configurations'], "every calendar, every day of the range, all seven conventions",
  "Tests roll a handful of dates on one calendar; long holiday runs at month ends, mid-month and ties occur on other dates.",
  ['src/time/calendars.rs', 'src/time/businessdayconvention.rs'], [('date rolling', 'src/time/calendars.rs adjust')],
  ENUM, "Complete over the stated days and calendars; the reference rolls over the calendar's own business-day set.", ['Calendar::adjust'])
P('C04', "Advancing a date by a tenor follows business-day and month-end rules",
  "Advancing by n days moves n business days; weeks, months and years move by calendar time (clamped to the month's length) and are then rolled by the convention; with the end-of-month flag, months and years land on the last business day of the month reached. Zero days only rolls.",
  ['inputs', 'configurations'], "every calendar, every start day of the window, signed day, week, month and year tenors, all conventions, all month-end flags",
  "Tests advance a few dates; month-end flags combined with rolling across a month boundary are not reached.",
  ['src/time/calendars.rs', 'src/time/period.rs'], [('advance', 'src/time/calendars.rs advance'), ('date plus tenor', 'src/time/period.rs')],
  ENUM, "Complete over the stated window; two leap years and all month lengths are inside.", ['Calendar::advance'])
P('C05', "Counting business days between two dates honours both inclusion flags",
  "The count equals the number of business days strictly between the dates plus each included end that is a business day (start included and end excluded by default), is negated when the dates are reversed with each flag still belonging to its own date, and an empty interval counts at most one day, only when both ends are included.",
  ['inputs', 'configurations'], "every calendar, every start day, every signed interval length in the bound, all nine flag combinations",
  "One test counts one month both ways with default flags.",
  ['src/time/calendars.rs'], [('counting', 'src/time/calendars.rs business_days_between')],
  ENUM, "Complete over the stated window.", ['Calendar::business_days_between'])
P('C06', "A joint calendar is closed exactly when one of its members is",
  "A day is a business day of a joint calendar exactly when it is one of every member, for any number, order and nesting of members, and month ends and rolling derive from that; with no members nothing is closed.",
  ['inputs', 'configurations'], "every ordered pair of markets, rings of consecutive markets of every size up to all of them, flat, reversed, doubled and nested, every day of the range",
  "Tests join two markets on a few dates.",
  ['src/time/calendars/jointcalendar.rs'], [('joint rule', 'src/time/calendars/jointcalendar.rs is_business_day')],
  ENUM, "Complete over all ordered pairs of markets and the stated years.", ['JointCalendar'])
P('C07', "Tenor arithmetic and FX settlement dates follow the documented tables",
  "Adding or subtracting a tenor moves by days, weeks or clamped calendar months, scaling a tenor multiplies its length, and a tenor that leaves the representable dates is reported as an error. The far settlement date starts from today, tomorrow or spot as the tenor says, is capped at the last business day of its month and rolled forward; the near date of the three pre-spot swaps is today, tomorrow or spot rolled forward, and no other tenor has one.",
  ['inputs', 'configurations'], "every day of the window, every calendar, all tenor kinds and lengths in the bound, both directions",
  "Tests cover a few tenors around one week of October 2023.",
  ['src/time/period.rs'], [('tenor arithmetic', 'src/time/period.rs Add/Sub/Mul'), ('settlement', 'src/time/period.rs settlement_date, near_date')],
  ENUM, "Complete over the stated windows; standard two-day spot lag (other lags are decided in F02).", ['NaiveDate + Period', 'Period::settlement_date', 'Period::near_date'])
P('C08', "Day counts and year fractions equal their conventions' definitions",
  "For every pair of dates in either order, each day counter returns the day count and year fraction its market convention defines: actual over a fixed basis, leap days skipped, time split between leap and common years, whole years counted back from the end, business days over 252, and the seven 30/360 rules.",
  ['inputs', 'configurations'], "every start day of three windows (leap century, non-leap century, current years) and every signed offset in the bound, all counters and variants",
  "Tests evaluate a few date pairs per counter; leap days, month ends, reversed dates and long spans mostly are not sampled.",
  ['src/time/daycounters.rs', 'src/time/daycounters/'], [('counters', 'src/time/daycounters/*.rs day_count, year_fraction')],
  ENUM, "Complete over the stated windows, against definitions computed a different way (prefix counts of leap days and business days).", ['DayCounters::day_count', 'DayCounters::year_fraction'])
P('C09', "Accrual is zero on an empty period, additive, antisymmetric and invertible",
  "Every day counter gives zero for an empty period; the additive ones give the same total when a period is split anywhere; reversing the dates flips the sign where the convention is symmetric; a longer period never accrues less (beyond the 30/360 February rules); and the date recovered from a year fraction is the original one (exactly for actual/365, within a few days otherwise).",
  ['inputs'], "every start day of the window and every pair of lengths from a ladder of month, quarter and year crossing lengths",
  "Tests never combine two periods.",
  ['src/time/daycounters.rs', 'src/time/daycounters/'], [('counters', 'src/time/daycounters/*.rs'), ('inverse', 'src/time/daycounters.rs year_fraction_to_date')],
  ENUM, "Complete over the stated triples.", ['DayCounters'])
P('C10', "IMM dates and codes: third Wednesdays, next date, code round trip",
  "A date is an IMM date exactly when it is the third Wednesday (of a quarter month on the main cycle); the next one after a date is the first strictly later; a code is valid exactly when it is a month letter, either case, and a digit; and a code with a reference date gives the first IMM date of that month letter and year digit on or after it. Any other text is rejected without failing.",
  ['inputs'], "every day of 1905-2195, every code in both cases with every reference day of the range, every text of up to two characters over printable ASCII and multi-byte characters",
  "Tests check a few dates and codes of one year.",
  ['src/time/imm.rs'], [('IMM rules', 'src/time/imm.rs')],
  ENUM, "Complete over the stated ranges (reference dates every third day in the quick tier).", ['IMM::is_imm_date', 'IMM::next_date', 'IMM::code', 'IMM::date'])
P('C11', "Frequency and convention codes select themselves and step as named",
  "Every frequency and convention name, code and serialized form selects that same frequency or convention and unknown codes select nothing; stepping by a frequency's tenor as many times a year as its name says covers the years exactly for month-based ones and to within the calendar remainder for week and day ones.",
  ['inputs', 'configurations'], "all frequencies and conventions, every start day of three years",
  "Tests check names and tenors but not that codes and steps agree.",
  ['src/time/frequency.rs', 'src/time/businessdayconvention.rs'], [('codes', 'src/time/frequency.rs from_code'), ('codes', 'src/time/businessdayconvention.rs from_code')],
  ENUM, "Complete. One known finding: the code \"Once\" selects another frequency (pinned by an existing test).", ['Frequency::from_code', 'Frequency::period'])
