D = 'use chrono::*;\nfn d(y:i32,m:u32,x:u32)->NaiveDate{NaiveDate::from_ymd_opt(y,m,x).unwrap()}\n'
bug('C06-fifth', 'C06', [('src/time/calendars/jointcalendar.rs', "for calendar in &self.calendars {", "for calendar in self.calendars.iter().take(4) {")],
 D + 'use finquant::time::calendars::*; use finquant::time::calendars::Calendar as _;\nfn main(){ let j=JointCalendar::new(vec![Box::new(Target), Box::<UnitedStates>::default(), Box::<UnitedKingdom>::default(), Box::<Canada>::default(), Box::new(Japan)]); assert!(!j.is_business_day(d(2024,4,29)), "Showa Day closes Tokyo"); assert!(j.is_business_day(d(2024,4,30))); }',
 'a joint calendar of five or more members and a day only the last one is closed', 'the members after the fourth are not consulted')
bug('M01-coarse', 'M01', [('src/models/common/black_scholes.rs', "for _ in 0..200 {", "for _ in 0..24 {")],
 'use finquant::models::common::black_scholes::*;\nfn main(){ for s in [0.05,0.3,1.7f64]{ let p=bs_call_forward(1e6,1.05e6,s,2.0,0.97); let v=bs_implied_vol(p,1e6,1.05e6,2.0,0.97,true).unwrap(); assert!((v-s).abs()<1e-9,"{s} {v}"); } }',
 'a price on a large forward, where the residual test cannot stop the bisection early', 'the implied vol is only good to 3e-7')
bug('M03-dim', 'M03', [('src/math/optimize.rs', "for &idx in &order[1..] {", "for &idx in order[1..].iter().take(4) {")],
 'use finquant::math::optimize::*;\nfn main(){ let mut c=0usize; let o=NelderMeadOptions{max_iter:1,ftol:0.0,xtol:0.0,step_frac:0.5}; nelder_mead(|_x|{ c+=1; if c<=7 { c as f64 } else { 100.0 } },&[1.0;6],o); assert_eq!(c,7+2+6,"reflection, contraction and a shrink of all six vertices"); }',
 'a shrink step in five or more dimensions', 'a shrink moves only four vertices')
bug('M04-longgrid', 'M04', [('src/models/common/simulation.rs', "while cur < last {\n        let next", "while cur < last && grid.len() < 1500 {\n        let next")],
 D + 'use finquant::models::common::simulation::*; use finquant::time::daycounters::actual365fixed::Actual365Fixed;\nstruct C; impl SimulationModel for C { type State=(usize,f64); fn initial_state(&self)->(usize,f64){(0,0.0)} fn step(&mut self,s:&(usize,f64),_t:f64,dt:f64)->(usize,f64){ (s.0+1,s.1.max(dt)) } }\nfn main(){ let v=d(2024,1,1); let e=v+Duration::days(3000); let p=simulate_at_dates(&mut C,v,&[e],1,1,&Actual365Fixed::default()); let s=p.paths[0][0]; assert_eq!(s.0,3000); assert!(s.1<1.5/365.0); }',
 'a daily grid reaching past six years', 'the integration steps stop being capped after 1500 grid points')
bug('M07-theta', 'M07', [('src/models/interestrate/hull_white.rs', "let theta = (self.theta_fn)(t);", "let theta = (self.theta_fn)(if t > 5.0 { t + dt } else { t });")],
 'use finquant::models::interestrate::hull_white::*; use finquant::models::common::simulation::SimulationModel;\nfn main(){ for t in [1.0f64,7.0]{ let m=HullWhite1F{mean_reversion:0.5,sigma:0.0}; let mut s=HullWhiteSimulator::new_constant_theta(m,0.01,0.0,1).with_theta_fn(|t|t*t); let r=s.step(&0.01,t,0.25); assert!((r-(0.01+0.5*(t*t-0.01)*0.25)).abs()<1e-12,"{t} {r}"); } }',
 'a time-dependent target and a step starting after five years', 'the mean-reversion target is read at the end of late steps')
bug('M08-long', 'M08', [('src/models/forex/sabr.rs', "+ (2.0 - 3.0 * rho * rho) * nu * nu / 24.0)\n            * t;\n\n    alpha", "+ (2.0 - 3.0 * rho * rho) * nu * nu / 24.0)\n            * t.min(25.0);\n\n    alpha")],
 'use finquant::models::forex::sabr::*;\nfn main(){ let p=SabrParams::new(0.1,0.5,-0.2,0.3); let v=|t|hagan_implied_vol(&p,1.2,1.4,t); let s=v(2.0)-v(1.0); assert!((v(40.0)-v(30.0)-10.0*s).abs()<1e-9); }',
 'an expiry beyond 25 years', 'the expansion stops growing with expiry')
bug('M11-hl', 'M11', [('src/models/interestrate/fmm.rs', "if a.abs() < 1e-12 {", "if a.abs() < 2e-3 {")],
 'use finquant::models::interestrate::fmm::*;\nfn main(){ let t=FmmTenor::new(vec![0.0,10.0,20.0],vec![0.03,0.03]); let m=Fmm::new(t,vec![0.2,0.2],vec![vec![1.0,0.5],vec![0.5,1.0]],LinearDecay).with_vol_schedule(VolSchedule::HoLeeEquivalent{vol:0.01,mean_reversion:1e-3}); let w=0.01*((-1e-3f64*10.0).exp()-(-1e-3f64*20.0).exp())/1e-3; assert!((m.sigma_at(2,0.0)-w).abs()<1e-9, "{} {w}", m.sigma_at(2,0.0)); }',
 'a mean reversion of at most 20 bp a year', 'slow mean reversion is treated as none')
bug('F04-gamma0', 'F04', [('src/derivatives/forex/option.rs', "let sqrt_v = variance.sqrt();\n    let d1", "let variance = variance.min(9.0);\n    let sqrt_v = variance.sqrt();\n    let d1")],
 'use finquant::derivatives::forex::option::*;\nfn main(){ let p=black_scholes(1.0,1.0,16.0,1.0,OptionType::Call); assert!((p-0.954499736).abs()<1e-6,"{p}"); }',
 'a total variance above 9', 'the premium stops growing with volatility at very high variance')
bug('F01-many', 'F01', [('src/markets/forex/quotes/forwardpoints.rs', "        // Sort by settlement date once\n        dated.sort_unstable_by_key(|(d, _)| *d);", "        // Sort by settlement date once\n        dated.sort_unstable_by_key(|(d, _)| *d);\n        dated.truncate(16);")],
 D + 'use finquant::time::calendars::*; use finquant::time::period::Period; use finquant::markets::forex::quotes::forwardpoints::*;\nfn main(){ let q=(1..=20).map(|k|FXForwardQuote{tenor:Period::Months(k),value:k as f64}).collect(); let h=FXForwardHelper::new(d(2024,4,22),1.1,q); let c=Target; let x=Period::Months(20).settlement_date(d(2024,4,22),&c).unwrap(); assert_eq!(h.get_forward(x,&c).unwrap(),Some(20.0)); }',
 'a strip of more than sixteen forward quotes', 'the quotes after the sixteenth are ignored')
bug('O01-dedup', 'O01', [('src/markets/forex/quotes/forwardpoints.rs', "self.observers.borrow_mut().push(Rc::downgrade(&observer));", "if self.observers.borrow().iter().any(|w| w.strong_count() == 0) {\n            self.observers.borrow_mut().clear();\n        }\n        self.observers.borrow_mut().push(Rc::downgrade(&observer));")],
 D + 'use finquant::markets::forex::quotes::forwardpoints::*; use finquant::patterns::observer::*; use std::rc::Rc; use std::cell::RefCell; use std::any::Any;\n#[derive(Debug)] struct C(usize);\nimpl Observer for C { fn update(&mut self,_o:&dyn Observable)->finquant::error::Result<()>{ self.0+=1; Ok(()) } fn as_any(&self)->&dyn Any{self} }\nfn main(){ let mut h=FXForwardHelper::new(d(2024,4,22),1.1,vec![]); let a=Rc::new(RefCell::new(C(0))); h.attach(a.clone()); { let b=Rc::new(RefCell::new(C(0))); h.attach(b.clone()); } let e=Rc::new(RefCell::new(C(0))); h.attach(e.clone()); h.notify_observers().unwrap(); assert_eq!(a.borrow().0,1,"a living observer is still told"); assert_eq!(e.borrow().0,1); }',
 'an attach after another observer has been dropped', 'attaching after a drop forgets the observers still alive')
