use crate::fw::Run;
pub mod calendar;
pub mod daycount;
pub mod forex;
pub mod dates;
pub mod mcommon;
pub mod mfx;
pub mod mrates;
pub mod mvol;
pub mod observe;
pub mod rates;
pub mod serial;

pub type Prop = (&'static str, fn(&Run));
pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    v.extend(calendar::PROPS);
    v.extend(daycount::PROPS);
    v.extend(dates::PROPS);
    v.extend(rates::PROPS);
    v.extend(forex::PROPS);
    v.extend(observe::PROPS);
    v.extend(serial::PROPS);
    v.extend(mcommon::PROPS);
    v.extend(mfx::PROPS);
    v.extend(mrates::PROPS);
    v.extend(mvol::PROPS);
    v
}
