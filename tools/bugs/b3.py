D = 'use chrono::*;\nfn d(y:i32,m:u32,x:u32)->NaiveDate{NaiveDate::from_ymd_opt(y,m,x).unwrap()}\n'
bug('F02-longclose', 'F02', [('src/derivatives/forex/basic.rs', """            while !cal.is_business_day(next) {
                next += Duration::days(1);
            }""", """            for _ in 0..6 {
                if cal.is_business_day(next) {
                    break;
                }
                next += Duration::days(1);
            }""")],
 D + 'use finquant::derivatives::forex::basic::FXUnderlying::*; use finquant::time::calendars::Calendar as _;\nfn main(){ for p in [USDCNY,USDTRY,USDTHB,USDILS,EURJPY,USDIDR,USDTWD]{ let c=p.calendar(); let mut x=d(2005,1,1); while x<d(2030,1,1){ let e=p.effective_valuation_date(x,NaiveTime::from_hms_opt(23,0,0).unwrap()); assert!(e>x && c.is_business_day(e),"{x} -> {e}"); x+=Duration::days(1); } } }',
 'a pair whose market closes for seven or more days running, after the cut-off', 'the effective valuation date falls inside the long closure')
bug('C04-advance', 'C04', [('src/time/calendars.rs', """            Period::Days(mut num) => {
                let mut advance_date = date;""", """            Period::Days(mut num) => {
                num = num.clamp(-2500, 2500);
                let mut advance_date = date;""")],
 D + 'use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _; use finquant::time::period::Period; use finquant::time::businessdayconvention::BusinessDayConvention as B;\nfn main(){ let c=Target; let a=d(2001,3,5); for n in [100i64,2000,2600,-2600]{ let r=c.advance(a,Period::Days(n),B::Following,None).unwrap().unwrap(); let mut x=a; let mut k=0; while k<n.abs(){ x+=Duration::days(n.signum()); if c.is_business_day(x){k+=1;} } assert_eq!(r,x,"{n}"); } }',
 'an advance by more than 2500 business days', 'the advance stops after 2500 business days')
bug('F05-many', 'F05', [('src/markets/forex/quotes/volsurface.rs', """        smiles.sort_by_key(|s| s.expiry);
        Ok(Self {""", """        smiles.sort_by_key(|s| s.expiry);
        smiles.truncate(12);
        Ok(Self {""")],
 D + 'use finquant::markets::forex::quotes::volsurface::*;\nfn main(){ let v=d(2025,1,2); let mk=|k:i64,vol:f64| FXDeltaVolPillar{expiry:v+Duration::days(30*k),forward:1.1,quotes:vec![FXVolQuote::Atm(vol),FXVolQuote::RiskReversal{delta:0.25,vol:0.0},FXVolQuote::Butterfly{delta:0.25,vol:0.001}]}; let s=FXVolSurface::new(v,(1..=16).map(|k|mk(k,0.08+0.004*k as f64)).collect()).unwrap(); for k in 1..=16i64 { let vol=0.08+0.004*k as f64; let t=30.0*k as f64/365.0; let x=s.volatility(v+Duration::days(30*k),1.1*(0.5*vol*vol*t).exp()).unwrap(); assert!((x-vol).abs()<1e-9,"{k} {x} {vol}"); } }',
 'more than twelve expiry pillars', 'the pillars after the twelfth are dropped')
bug('M06-eps', 'M06', [('src/models/common/cir.rs', "if eps > 500.0 {", "if eps > 100.0 {")],
 'use finquant::models::common::cir::*;\nfn main(){ let p=CirProcess{kappa:0.5,theta:0.002,gamma:0.3,sigma_0:0.5}; let eps=|t:f64|{ let e=(-0.5*t).exp(); 4.0*0.5*0.5*e/(0.09*(1.0-e)) }; let mut lo=1e-3; let mut hi=5.0; for _ in 0..200 { let m=0.5*(lo+hi); if eps(m)>100.0 {lo=m} else {hi=m} } let (a,b)=(p.sqrt_mean(lo-1e-7),p.sqrt_mean(hi+1e-7)); assert!((a-b).abs()<2e-6,"{a} {b}"); }',
 'a non-centrality between 100 and 500', 'the two-term expansion is used where it is not accurate')
bug('M09-simpson', 'M09', [('src/models/forex/fx_hhw1_chf.rs', "            n_simpson: n,", "            n_simpson: n.min(32),")],
 'use finquant::models::forex::fx_hhw::*; use finquant::models::forex::fx_hhw1_chf::*; use finquant::models::common::cir::*; use finquant::models::interestrate::hull_white::HullWhite1F; use num_complex::Complex64;\nfn main(){ let hw=||HullWhite1F{mean_reversion:0.01,sigma:0.007}; let mut f=hw(); f.sigma=0.012; f.mean_reversion=0.05; let p=FxHhwParams{fx_0:1.35,heston:CirProcess{kappa:3.0,theta:0.1,gamma:0.5,sigma_0:0.2},domestic:hw(),foreign:f,rd_0:0.02,rf_0:0.05,theta_d:0.02,theta_f:0.05,correlations:Correlation4x4{rho_xi_sigma:-0.4,rho_xi_d:-0.15,rho_xi_f:-0.15,rho_sigma_d:0.3,rho_sigma_f:0.3,rho_d_f:0.25}}; let t=25.0; let u=Complex64::new(3.0,0.0); let c=FxHhw1ForwardChf::with_simpson_steps(&p,t,2048); let (a,b)=(c.components(u,t).a,c.components(u,t*(1.0-1e-9)).a); assert!((a-b).norm()<1e-6*a.norm(),"{a} {b}"); }',
 'components at a time to maturity short of the expiry, with a fine grid asked for', 'the fine grid is not used away from the full expiry')
bug('M10-late', 'M10', [('src/models/forex/fx_hlmm.rs', "two_ac += psi_f[j - 1] * params.correlations.rho_xi_f[j - 1];", "two_ac += psi_f[j - 1] * params.correlations.rho_xi_f[(j - 1).min(5)];")],
 'use finquant::models::forex::fx_hlmm::*; use finquant::models::common::cir::*;\nfn main(){ let n=8; let id=|o:f64|(0..n).map(|i|(0..n).map(|j|if i==j{1.0}else{o}).collect::<Vec<f64>>()).collect::<Vec<_>>(); let lmm=||DdSvLmm{sigmas:vec![0.2;n],betas:vec![0.8;n],lambda:1.0,eta:0.1,v_0:1.0,libor_corr:id(0.5)}; let p=|r:f64|{ let mut rf=vec![0.0;n]; rf[n-1]=r; FxHlmmParams{fx_0:1.2,heston:CirProcess{kappa:0.5,theta:0.1,gamma:0.3,sigma_0:0.1},tenor:LiborTenor::new((0..=n).map(|k|k as f64).collect(),vec![0.03;n]),domestic:lmm(),foreign:lmm(),correlations:FxHlmmCorrelations{rho_xi_sigma:-0.3,rho_xi_d:vec![0.0;n],rho_xi_f:rf,libor_cross_corr:vec![vec![0.0;n];n]}} }; let a=compute_f_linearised(&p(0.4),0.5,1); let b=compute_f_linearised(&p(-0.4),0.5,1); assert!((a+b).abs()<1e-12 && a < -1e-6 ,"{a} {b}"); }',
 'a tenor structure of more than six periods with unequal FX/foreign-rate correlations', 'late periods use the sixth correlation')
bug('M14-late', 'M14', [('src/models/forex/sabr_effective.rs', "    for k in 0..deltas.len() {\n        let denom = os[k];", "    for k in 0..deltas.len().min(8) {\n        let denom = os[k];")],
 'use finquant::models::forex::sabr_effective::*;\nfn main(){ for n in [3usize,8,10]{ let k:Vec<f64>=(0..=n).map(|x|x as f64*0.5).collect(); let p=|v:f64|PiecewiseConstant::new(k.clone(),vec![v;n]); let r=effective_correlation(&p(0.4),&p(1.0),&p(-0.5),n as f64*0.5); assert!((r+0.5).abs()<1e-5,"{n} {r}"); } }',
 'a schedule of more than eight segments before the expiry', 'the correlation after the eighth segment is ignored')
bug('M05-terms', 'M05', [('src/models/common/cos_pricer.rs', "for k in 0..self.n_terms {", "for k in 0..self.n_terms.min(700) {")],
 'use finquant::models::common::cos_pricer::*; use finquant::models::common::black_scholes::*; use num_complex::Complex64;\nstruct B; impl ForwardChf for B { fn evaluate(&self,u:Complex64)->Complex64{ let v=0.0004; let i=Complex64::new(0.0,1.0); (i*u*(-0.5*v)-0.5*v*u*u).exp() } fn expiry(&self)->f64{1.0} fn log_forward(&self)->f64{0.0} fn typical_variance(&self)->f64{0.0004} }\nfn main(){ let p=CosPricer::new(&B).with_range(-12.0,12.0).with_n_terms(2500).call(1.01,1.0); let e=bs_call_forward(1.0,1.01,0.02,1.0,1.0); assert!((p-e).abs()<1e-7,"{p} {e}"); }',
 'a wide range and a concentrated density, so that over 700 terms matter', 'the terms asked for beyond 700 are not summed')
Q = D + '''use finquant::markets::termstructures::yieldcurve::*; use finquant::markets::interestrate::volsurface::*; use finquant::derivatives::interestrate::cap::*; use finquant::derivatives::interestrate::swap::*; use finquant::derivatives::interestrate::basic::*; use finquant::derivatives::basic::*; use finquant::time::daycounters::actual360::Actual360; use finquant::time::daycounters::actual365fixed::Actual365Fixed; use finquant::time::calendars::Target; use finquant::markets::interestrate::market_context::IrMarketContext; use iso_currency::Currency;
fn yts(v:NaiveDate)->YieldTermStructure{ YieldTermStructure::new(Box::new(Target),Box::new(Actual365Fixed::default()),v,[30i64,365,3650,9000].iter().enumerate().map(|(i,&n)|StrippedCurve{first_settle_date:v,date:v+Duration::days(n),market_rate:0.03,zero_rate:0.03,discount:(-0.03*n as f64/365.0).exp(),source:if i==0{InterestRateQuoteEnum::OIS}else{InterestRateQuoteEnum::Swap},hidden_pillar:false}).collect()) }
fn sched(v:NaiveDate,n:i64)->Vec<InterestRateSchedulePeriod>{ (1..=n).map(|k|InterestRateSchedulePeriod::new(v+Duration::days(90*k),v+Duration::days(90*k+90),v+Duration::days(90*k+92),v+Duration::days(90*k),0.0,1e6)).collect() }
fn cap(v:NaiveDate,n:i64,k:f64)->CapFloor{ let s=sched(v,n); CapFloor{basic_info:BasicInfo{trade_date:v,style:Style::IRSwap,direction:Direction::Buy,expiry_date:s.last().unwrap().accrual_end_date,delivery_date:s.last().unwrap().pay_date},kind:CapFloorKind::Cap,style:CapStyle::ForwardLooking,currency:Currency::USD,notional:1e6,strike:k,valuation_date:v,schedule:s,accrual_day_counter:Box::new(Actual360)} }
'''
bug('R05-forty', 'R05', [('src/derivatives/interestrate/cap.rs', "        for period in &self.schedule {\n            let m = self.caplet_market(period, yts, vs, rate_shift_bp, vol_shift_bp)?;\n            let opt", "        for period in self.schedule.iter().take(60) {\n            let m = self.caplet_market(period, yts, vs, rate_shift_bp, vol_shift_bp)?;\n            let opt")],
 Q + '''fn main(){ let v=d(2025,1,2); let mut vs=IRNormalVolSurface::new(v); vs.pillars=vec![CapletVolPillar{expiry:v+Duration::days(400),nodes:vec![(0.03,0.008)]}]; let pv=|n|cap(v,n,0.03).mtm(&IrMarketContext::new(v,Currency::USD,yts(v),Some({let mut x=IRNormalVolSurface::new(v); x.pillars=vs.pillars.clone(); x}))).unwrap().value; let (a,b,c)=(pv(30),pv(60),pv(80)); assert!(b>a && c>b*1.05,"{a} {b} {c}"); }''',
 'a strip of more than sixty caplets', 'the caplets after the sixtieth are not valued')
bug('R06-strikes', 'R06', [('src/markets/interestrate/volsurface.rs', ".find(|(k, _)| (k - q.strike).abs() < 1.0e-12)", ".find(|(k, _)| (k - q.strike).abs() < 2.0e-4)")],
 Q + '''fn main(){ let v=d(2025,1,2); let px=|k:f64,s:f64|{ let mut x=IRNormalVolSurface::new(v); x.pillars=vec![CapletVolPillar{expiry:v+Duration::days(400),nodes:vec![(k,s)]}]; cap(v,6,k).mtm(&IrMarketContext::new(v,Currency::USD,yts(v),Some(x))).unwrap().value }; let q=|k:f64,s:f64|CapQuote{strike:k,notional:1e6,direction:Direction::Buy,kind:CapFloorKind::Cap,style:CapStyle::ForwardLooking,currency:Currency::USD,schedule:sched(v,6),accrual_day_counter:Box::new(Actual360),market_npv:px(k,s)}; let md=IRCapMarketData::new(v,vec![q(0.03,0.008),q(0.0301,0.0095)]); let mut vs=IRNormalVolSurface::new(v); vs.rebuild(&yts(v),&md).unwrap(); let e=v+Duration::days(90*6); let a=vs.caplet_volatility(e,0.03).unwrap(); let b=vs.caplet_volatility(e,0.0301).unwrap(); assert!((a-0.008).abs()<1e-6&&(b-0.0095).abs()<1e-6,"{a} {b}"); }''',
 'two cap columns whose strikes are one basis point apart', 'close strikes are stripped as one column')
