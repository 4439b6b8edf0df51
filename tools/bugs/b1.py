PRE = 'use chrono::*; use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _;\nfn d(y:i32,m:u32,x:u32)->NaiveDate{NaiveDate::from_ymd_opt(y,m,x).unwrap()}\n'
bug('C01-nz-waitangi', 'C01', [('src/time/calendars/newzealand.rs', "((d == 7 || d == 8) && w == Weekday::Mon && m == 2 && y > 2013)", "(d == 7 && w == Weekday::Mon && m == 2 && y > 2013)")],
 PRE + 'fn main(){ let c=NewZealand::default(); assert!(!c.is_business_day(d(2027,2,8)),"Waitangi Day 2027 falls on a Saturday"); assert!(!c.is_business_day(d(2022,2,7))); assert!(c.is_business_day(d(2023,2,8))); }',
 'a year in which 6 February is a Saturday', 'the Monday substitute of Waitangi Day is missed when the feast falls on a Saturday')
bug('C03-half-month', 'C03', [('src/time/calendars.rs', "&& date.day() <= 15\n                && d1.day() > 15", "&& date.day() < 15\n                && d1.day() > 15")],
 'use chrono::*; use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _; use finquant::time::businessdayconvention::BusinessDayConvention as B;\nfn main(){ let c=Target; let x=NaiveDate::from_ymd_opt(2024,6,15).unwrap(); assert_eq!(c.adjust(x,B::HalfMonthModifiedFollowing),NaiveDate::from_ymd_opt(2024,6,14)); }',
 'the 15th itself being a holiday under the half-month convention', 'a date on the 15th rolls forward across mid-month')
bug('C08-euro-leap', 'C08', [('src/time/daycounters/actualactual.rs', "            } else if d1.leap_year() {\n                temp = NaiveDate::from_ymd_opt(d1.year(), 2, 29).unwrap();\n                if new_d2 > temp && d1 <= temp {", "            } else if d1.leap_year() {\n                temp = NaiveDate::from_ymd_opt(d1.year(), 2, 29).unwrap();\n                if new_d2 > temp && d1 < temp {")],
 'use chrono::*; use finquant::time::daycounters::*; use finquant::time::daycounters::actualactual::*;\nfn main(){ let c=ActualActual{market:Some(ActualActualMarket::Euro)}; let a=NaiveDate::from_ymd_opt(2024,2,29).unwrap(); let b=NaiveDate::from_ymd_opt(2025,2,1).unwrap(); let y=c.year_fraction(a,b).unwrap(); assert!((y-338.0/366.0).abs()<1e-12,"{y}"); }',
 'a period starting exactly on 29 February and ending in a common year', 'the leap day at the start of a period is left out of the actual/actual (Euro) denominator')

IRLEG = r"""use chrono::*; use iso_currency::Currency; use finquant::time::calendars::*; use finquant::time::period::Period; use finquant::time::frequency::Frequency; use finquant::time::businessdayconvention::BusinessDayConvention as B; use finquant::time::daycounters::*; use finquant::time::daycounters::actual360::Actual360; use finquant::derivatives::interestrate::swap::*; use finquant::derivatives::basic::Direction; use finquant::markets::interestrate::interestrateindex::*;
fn d(y:i32,m:u32,x:u32)->NaiveDate{NaiveDate::from_ymd_opt(y,m,x).unwrap()}
fn leg(eom:bool, conv:B)->InterestRateSwapLeg{ InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed{coupon:0.03},Direction::Buy,InterestRateIndex{period:Period::Months(3),settlement_days:2,currency:Currency::EUR,calendar:Box::new(Target),convention:conv,day_counter:Box::new(Actual360),end_of_month:eom},1.0,ScheduleDetail::new(Frequency::Quarterly,Period::Months(3),Period::Months(12),Box::new(Actual360),Box::new(Target),conv,2,0,0),vec![]) }
"""
bug('R03-eom', 'R03', [('src/derivatives/interestrate/swap.rs', "                        (n) * self.schedule_detail.frequency.period().unwrap(),\n                        self.schedule_detail.convention,\n                        Some(self.interest_rate_index.end_of_month),", "                        (n) * self.schedule_detail.frequency.period().unwrap(),\n                        self.schedule_detail.convention,\n                        Some(self.interest_rate_index.end_of_month && n < num),")],
 IRLEG + 'fn main(){ let s=leg(true,B::ModifiedFollowing).generate_schedule(d(2024,2,27)).unwrap(); assert_eq!(s.last().unwrap().accrual_end_date, d(2025,2,28)); let s=leg(true,B::ModifiedFollowing).generate_schedule(d(2023,2,24)).unwrap(); assert_eq!(s[0].accrual_start_date,d(2023,2,28)); assert_eq!(s.last().unwrap().accrual_end_date, d(2024,2,29)); }',
 'an end-of-month index whose last period ends in a month longer than the starting day', 'the final period of a leg on an end-of-month index does not end on the month end')
