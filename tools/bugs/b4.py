D = 'use chrono::*;\nfn d(y:i32,m:u32,x:u32)->NaiveDate{NaiveDate::from_ymd_opt(y,m,x).unwrap()}\n'
C = 'src/time/calendars.rs'
bug('C05-decades', 'C05', [(C, ".take(day_diff.max(0) as usize)", ".take(day_diff.clamp(0, 20_000) as usize)")],
 D + 'use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _;\nfn main(){ let c=Target; let (a,b)=(d(1930,1,2),d(1995,1,2)); let mut n=0; let mut x=a; while x<b { if c.is_business_day(x){n+=1;} x+=Duration::days(1);} assert_eq!(c.business_days_between(a,b,None,None) as i64,n); }',
 'dates more than fifty-four years apart', 'the days after the first 20000 are not counted')
bug('C10-digit9', 'C10', [('src/time/imm.rs', "if result < ref_date {", "if result < ref_date && ref_date.year() % 10 != 0 {")],
 D + 'use finquant::time::imm::*;\nfn main(){ for (c,r) in [("H0",d(2020,6,1)),("H5",d(2025,6,1)),("F0",d(2030,2,1))]{ let x=IMM.date(c.to_string(),Some(r)).unwrap(); assert!(x>=r,"{c} {r} {x}"); } }',
 'a code of the current year digit, already past, in the first year of a decade', 'the code resolves to a date before the reference date')
bug('C02-late', 'C02', [(C, "fn orthodox_easter_monday(&self, year: i32) -> u32 {\n        ORTHODOX_EASTER_MONDAY[year as usize - 1901usize]", "fn orthodox_easter_monday(&self, year: i32) -> u32 {\n        if year == 2100 {\n            return 121;\n        }\n        ORTHODOX_EASTER_MONDAY[year as usize - 1901usize]")],
 'use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _;\nfn main(){ let y=2100; let a=y%4; let b=y%7; let c=y%19; let dd=(19*c+15)%30; let e=(2*a+4*b-dd+34)%7; let m=(dd+e+114)/31; let day=(dd+e+114)%31+1; let julian=chrono::NaiveDate::from_ymd_opt(y,m as u32,day as u32).unwrap(); let g=julian+chrono::Duration::days(13+1+1); use chrono::Datelike; let t=Target.orthodox_easter_monday(y); let ok=[g.ordinal(),g.ordinal()-1]; assert!(ok.contains(&t),"{t} {ok:?}"); }',
 'the year 2100', 'Orthodox Easter of the non-leap century year is out')
bug('R02-forty', 'R02', [('src/markets/termstructures/yieldcurve.rs', "        for strip_curve in &self.stripped_curves {\n            if target_date <= strip_curve.date", "        for strip_curve in self.stripped_curves.iter().take(40) {\n            if target_date <= strip_curve.date")],
 D + '''use finquant::markets::termstructures::yieldcurve::*; use finquant::time::calendars::Target; use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main(){ let v=d(2025,1,2); let p=|n:i64,z:f64|StrippedCurve{first_settle_date:v,date:v+Duration::days(n),market_rate:z,zero_rate:z,discount:(-z*n as f64/365.0).exp(),source:InterestRateQuoteEnum::OIS,hidden_pillar:false}; let y=YieldTermStructure::new(Box::new(Target),Box::new(Actual365Fixed::default()),v,(1..=60).map(|k|p(60*k,0.01+0.0005*k as f64)).collect()); for k in [20i64,39,40,41,45,58]{ let z=y.zero_rate(v+Duration::days(60*k+30),&InterpolationMethodEnum::StepFunctionForward).unwrap(); assert!(z>0.01+0.0005*k as f64-1e-4 && z<0.01+0.0005*(k+1) as f64+1e-4,"{k} {z}"); } }''',
 'a curve of more than forty pillars', 'reads past the fortieth pillar miss their bracket')
bug('O02-back', 'O02', [('src/markets/termstructures/yieldcurve.rs', "            self.valuation_date = concrete_observable.valuation_date;\n", "            self.valuation_date = self.valuation_date.max(concrete_observable.valuation_date);\n")],
 D + '''use finquant::markets::termstructures::yieldcurve::*; use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate; use finquant::markets::interestrate::interestrateindex::*; use finquant::time::calendars::Target; use finquant::time::daycounters::actual365fixed::Actual365Fixed; use finquant::time::period::Period; use finquant::patterns::observer::*; use std::rc::Rc; use std::cell::RefCell;
fn main(){ let v=d(2025,3,3); let y=Rc::new(RefCell::new(YieldTermStructure::new(Box::new(Target),Box::new(Actual365Fixed::default()),v,vec![]))); let mut m=YieldTermMarketData::new(v,vec![OISRate{value:0.03,interest_rate_index:InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap()}],vec![],vec![]); m.attach(y.clone()); m.notify_observers().unwrap(); m.valuation_date=d(2025,2,3); m.notify_observers().unwrap(); assert_eq!(y.borrow().valuation_date,d(2025,2,3)); }''',
 'a notification whose data is dated before the curve', 'the curve keeps the later valuation date with the earlier data')
bug('R08-negative', 'R08', [('src/markets/termstructures/yieldcurve/ratehelper.rs', "        1f64 - self.value / 100.0 + self.convexity_adjustment / 100.0", "        (1f64 - self.value / 100.0).max(0.0) + self.convexity_adjustment / 100.0")],
 '''use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate; use finquant::markets::interestrate::futures::InterestRateFutures; use finquant::markets::interestrate::interestrateindex::*; use finquant::time::period::Period;
fn main(){ for v in [95.0,100.0,100.4]{ let f=FuturesRate{value:v,imm_code:"H6".into(),convexity_adjustment:-0.01,futures_spec:InterestRateFutures::new(Period::Months(3)),interest_rate_index:InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap()}; assert!((f.implied_quote()-(100.0-v-0.01)/100.0).abs()<1e-12,"{v}"); } }''',
 'a futures price above 100', 'negative implied rates are floored at zero')
bug('M02-tail', 'M02', [('src/math/normal.rs', "    standard().cdf(x)", "    standard().cdf(x.clamp(-8.0, 8.0))")],
 'use finquant::math::normal::cdf;\nfn main(){ assert!(cdf(-9.0)<cdf(-8.5)); assert!((cdf(-10.0)/7.619853024160527e-24-1.0).abs()<1e-6); }',
 'an argument more than eight deviations out', 'the lower tail is flat below minus eight')
bug('M12-late', 'M12', [('src/models/forex/fx_fmm.rs', "two_ac += psi_f[j - 1] * params.correlations.rho_xi_f[j - 1];", "two_ac += psi_f[j - 1] * params.correlations.rho_xi_f[(j - 1).max(start_idx - 1).min(5)];")],
 'use finquant::models::forex::fx_fmm::*; use finquant::models::interestrate::fmm::*; use finquant::models::common::cir::*;\nfn main(){ let n=8; let side=||FmmSide{sigmas:vec![0.2;n],lambda:1.0,eta:0.1,v_0:1.0,rate_corr:(0..n).map(|i|(0..n).map(|j|if i==j{1.0}else{0.5}).collect::<Vec<f64>>()).collect::<Vec<_>>(),decay:LinearDecay}; let p=|r:f64|{ let mut rf=vec![0.0;n]; rf[n-1]=r; FxFmmParams{fx_0:1.2,heston:CirProcess{kappa:0.5,theta:0.1,gamma:0.3,sigma_0:0.1},tenor:FmmTenor::new((0..=n).map(|k|k as f64).collect(),vec![0.03;n]),domestic:side(),foreign:side(),correlations:FxFmmCorrelations{rho_xi_sigma:-0.3,rho_xi_d:vec![0.0;n],rho_xi_f:rf,rho_sigma_d:vec![0.0;n],rho_sigma_f:vec![0.0;n],cross_rate_corr:vec![vec![0.0;n];n]}} }; let a=compute_f_linearised(&p(0.4),0.5,1); let b=compute_f_linearised(&p(-0.4),0.5,1); assert!((a+b).abs()<1e-12 && a < -1e-6 ,"{a} {b}"); }',
 'a tenor structure of more than six periods with unequal FX/foreign-rate correlations', 'late periods use the sixth correlation')
bug('M15-rho', 'M15', [('src/models/forex/fx_hhw_calibrator.rs', "        inv_softplus(initial.heston.gamma.max(1e-8)),\n        inv_softplus(initial.heston.theta.max(1e-8)),\n        inv_softplus(initial.heston.sigma_0.max(1e-8)),\n        initial\n            .correlations\n            .rho_xi_sigma\n            .clamp(-0.999, 0.999)", "        inv_softplus(initial.heston.gamma.max(1e-8)),\n        inv_softplus(initial.heston.theta.max(1e-8)),\n        inv_softplus(initial.heston.sigma_0.max(1e-8)),\n        initial\n            .correlations\n            .rho_xi_sigma\n            .clamp(-0.9, 0.9)")],
 'use finquant::models::forex::fx_hhw::*; use finquant::models::forex::fx_hhw_calibrator::*; use finquant::models::common::cir::*; use finquant::models::interestrate::hull_white::HullWhite1F; use finquant::math::optimize::NelderMeadOptions;\nfn main(){ for r in [-0.4,-0.95]{ let hw=||HullWhite1F{mean_reversion:0.01,sigma:0.007}; let p=FxHhwParams{fx_0:1.35,heston:CirProcess{kappa:1.0,theta:0.02,gamma:0.3,sigma_0:0.02},domestic:hw(),foreign:hw(),rd_0:0.02,rf_0:0.05,theta_d:0.02,theta_f:0.05,correlations:Correlation4x4{rho_xi_sigma:r,rho_xi_d:0.0,rho_xi_f:0.0,rho_sigma_d:0.0,rho_sigma_f:0.0,rho_d_f:0.25}}; let t:Vec<CalibrationTarget>=[1.2,1.3,1.4].iter().map(|&k|CalibrationTarget{strike:k,market_vol:0.14}).collect(); let c=calibrate(p,&t,1.0,0.1,NelderMeadOptions{max_iter:0,ftol:1e-12,xtol:1e-12,step_frac:1e-9}); assert!((c.params.correlations.rho_xi_sigma-r).abs()<1e-6,"{r} {}",c.params.correlations.rho_xi_sigma); } }',
 'a starting correlation beyond 0.9 in size', 'the search starts from a clamped correlation')
bug('M16-far', 'M16', [('src/models/forex/market_data.rs', "        .map(|&k| surface.volatility(expiry, k))", "        .map(|&k| surface.volatility(expiry, k.clamp(forward * 0.4, forward * 2.5)))")],
 D + '''use finquant::markets::forex::quotes::volsurface::*; use finquant::models::forex::market_data::smile_strip;
fn main(){ let v=d(2025,1,2); let s=FXVolSurface::new(v,vec![FXDeltaVolPillar{expiry:d(2027,1,2),forward:1.2,quotes:vec![FXVolQuote::Atm(0.3),FXVolQuote::RiskReversal{delta:0.25,vol:0.01},FXVolQuote::Butterfly{delta:0.25,vol:0.004}]}]).unwrap(); let ks=[0.3,0.45,1.2,2.8,3.5]; let m=smile_strip(&s,v,d(2027,1,2),1.2,&ks).unwrap(); for (k,x) in ks.iter().zip(&m.vols){ assert_eq!(*x,s.volatility(d(2027,1,2),*k).unwrap(),"{k}"); } }''',
 'a strike below 0.4 or above 2.5 times the forward', 'the strip takes the volatility of the nearer bound')
Q = D + '''use finquant::markets::termstructures::yieldcurve::*; use finquant::derivatives::interestrate::swap::*; use finquant::derivatives::basic::*; use finquant::time::daycounters::actual360::Actual360; use finquant::time::daycounters::actual365fixed::Actual365Fixed; use finquant::time::calendars::Target; use finquant::markets::interestrate::market_context::IrMarketContext; use iso_currency::Currency;
'''
bug('R04-far', 'R04', [('src/derivatives/interestrate/swap.rs', "                let df_pay = yts.shifted_discount(period.pay_date, method, rate_shift_bp)?;\n                let payment", "                let df_pay =\n                    yts.shifted_discount(period.pay_date, method, rate_shift_bp.clamp(-150.0, 150.0))?;\n                let payment")],
 Q + 'use finquant::derivatives::interestrate::basic::*; use finquant::markets::interestrate::interestrateindex::*; use finquant::time::period::Period; use finquant::time::frequency::Frequency; use finquant::time::businessdayconvention::BusinessDayConvention;\nfn main(){ let v=d(2025,1,2); let y=||YieldTermStructure::new(Box::new(Target),Box::new(Actual365Fixed::default()),v,[30i64,365,3650,9000].iter().map(|&n|StrippedCurve{first_settle_date:v,date:v+Duration::days(n),market_rate:0.03,zero_rate:0.03,discount:(-0.03*n as f64/365.0).exp(),source:InterestRateQuoteEnum::OIS,hidden_pillar:false}).collect()); let leg=InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed{coupon:0.05},Direction::Buy,InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(6))).unwrap(),1e6,ScheduleDetail::new(Frequency::Annual,Period::Years(1),Period::Years(10),Box::new(Actual360),Box::new(Target),BusinessDayConvention::ModifiedFollowing,2,0,0),vec![]); let s=leg.generate_schedule(v).unwrap(); let pv=|b:f64|{ let df=|x:NaiveDate|(-(0.03+b*1e-4)*(x-v).num_days() as f64/365.0).exp(); s.iter().map(|p|0.05*(p.accrual_end_date-p.accrual_start_date).num_days() as f64/360.0*p.balance*df(p.pay_date)).sum::<f64>()+s.last().unwrap().balance*df(s.last().unwrap().pay_date) }; let w=InterestRateSwap::new(vec![leg]); let m=IrMarketContext::new(v,Currency::EUR,y(),None); for b in [1.0,100.0,300.0]{ let g=w.gamma(&m,b,RateShiftMode::Zeros).unwrap(); let e=pv(b)+pv(-b)-2.0*pv(0.0); assert!((g.abs()-e.abs()).abs()<1e-6*e.abs()+1e-4,"{b} {g} {e}"); } }',
 'a gamma or shifted value asked for a shift of more than 150 bp', 'coupons are discounted at the 150 bp shift')
bug('M13-bins', 'M13', [('src/models/forex/sabr_slv.rs', "        self.n_bins = n_bins;", "        self.n_bins = n_bins.min(64);")],
 'use finquant::models::forex::sabr_slv::*; use finquant::models::forex::sabr_effective::*; use finquant::models::forex::sabr_time_dependent::*; use finquant::models::forex::dupire_local_vol::*;\nfn main(){ let lv=||build(&[0.5,1.0,2.0],&[0.8,1.0,1.2],&vec![vec![0.1;3];3],1.0,0.0,0.0); let pc=|v:f64|PiecewiseConstant::new(vec![0.0,1.0],vec![v]); let run=|nu:f64,n:usize,b:usize|TimeDependentSabrSlvSimulator::new(TimeDependentSabrParams::new(pc(0.2),pc(0.0),pc(nu),1.0,1.0),lv(),7).with_bins(b).simulate(1.0,6,n); for n in [40usize,200]{ for (a,b) in run(0.0,n,n).iter().zip(run(0.8,n,n)){ assert!((a.forward-b.forward).abs()<1e-9,"{n} {} {}",a.forward,b.forward); } } }',
 'more than 64 bins asked for', 'the bins are capped at 64')
bug('S01-delay', 'S01', [('src/derivatives/interestrate/swap.rs', "    pub settlement_days: i64,\n    pub pay_delay: i64,", "    pub settlement_days: i64,\n    #[serde(default, skip_serializing_if = \"is_default_delay\")]\n    pub pay_delay: i64,"), ('src/derivatives/interestrate/swap.rs', "#[derive(Deserialize, Serialize, Debug)]\npub struct ScheduleDetail {", "fn is_default_delay(delay: &i64) -> bool {\n    *delay <= 0\n}\n\n#[derive(Deserialize, Serialize, Debug)]\npub struct ScheduleDetail {")],
 D + 'use finquant::derivatives::interestrate::swap::*; use finquant::time::calendars::Target; use finquant::time::period::Period; use finquant::time::frequency::Frequency; use finquant::time::businessdayconvention::BusinessDayConvention; use finquant::time::daycounters::actual360::Actual360;\nfn main(){ for n in [0i64,2,-2]{ let s=ScheduleDetail::new(Frequency::Annual,Period::Years(1),Period::Years(10),Box::new(Actual360),Box::new(Target),BusinessDayConvention::ModifiedFollowing,2,n,0); let t=serde_json::to_string(&s).unwrap(); let r:ScheduleDetail=serde_json::from_str(&t).unwrap(); assert_eq!(r.pay_delay,n); } }',
 'a negative pay delay', 'a negative delay is lost on the way through JSON')
