//! Every market calendar of the crate, with the reference section it must agree with.
use finquant::time::calendars::*;
use finquant::time::calendars::{
    australia::AustraliaMarket as Au, austria::AustriaMarket as At, brazil::BrazilMarket as Br,
    canada::CanadaMarket as Ca, france::FranceMarket as Fr, germany::GermanyMarket as Ge,
    israel::IsraelMarket as Il, italy::ItalyMarket as It, newzealand::NewZealandMarket as Nz,
    poland::PolandMarket as Pl, russia::RussiaMarket as Ru, unitedkingdom::UnitedKingdomMarket as Uk,
    unitedstates::UnitedStatesMarket as Us,
};

pub struct CalDef {
    pub name: &'static str,
    pub reference: &'static str,
    pub make: fn() -> Box<dyn Calendar>,
}

macro_rules! unit { ($($t:ident),*) => { vec![$(CalDef{name: stringify!($t), reference: stringify!($t), make: || Box::new($t)}),*] } }
macro_rules! mk { ($v:ident, $t:ident, $m:ident, $def:literal, [$($x:ident),*]) => {
    $v.push(CalDef{name: concat!(stringify!($t), "(default)"), reference: concat!(stringify!($t), "/", $def), make: || Box::new($t{market: None})});
    $v.push(CalDef{name: concat!(stringify!($t), "::default()"), reference: concat!(stringify!($t), "/", $def), make: || Box::new($t::default())});
    $($v.push(CalDef{name: concat!(stringify!($t), "/", stringify!($x)), reference: concat!(stringify!($t), "/", stringify!($x)), make: || Box::new($t{market: Some($m::$x)})});)*
} }

pub fn all() -> Vec<CalDef> {
    let mut v = unit!(
        Argentina, Botswana, Chile, China, CzechRepublic, Denmark, Finland, HongKong, Hungary,
        Iceland, India, Indonesia, Japan, Mexico, Norway, Romania, Singapore, Slovakia,
        SouthAfrica, SouthKorea, Sweden, Switzerland, Taiwan, Target, Thailand, Turkey, Ukraine,
        WeekendsOnly
    );
    mk!(v, Austria, At, "Settlement", [Settlement, Exchange]);
    mk!(v, Australia, Au, "Settlement", [Settlement, ASX]);
    mk!(v, Brazil, Br, "Settlement", [Settlement, Exchange]);
    mk!(v, Canada, Ca, "Settlement", [Settlement, TSX]);
    mk!(v, France, Fr, "Settlement", [Settlement, Exchange]);
    mk!(v, Germany, Ge, "FrankfurtStockExchange", [Settlement, FrankfurtStockExchange, Xetra, Eurex, Euwax]);
    mk!(v, Israel, Il, "Shir", [TelAviv, Shir]);
    mk!(v, Italy, It, "Settlement", [Settlement, Exchange]);
    mk!(v, NewZealand, Nz, "Wellington", [Wellington, Auckland]);
    mk!(v, Poland, Pl, "Settlement", [Settlement, WSE]);
    mk!(v, Russia, Ru, "Settlement", [Settlement, Exchange]);
    mk!(v, UnitedKingdom, Uk, "Settlement", [Settlement, Exchange, Metals]);
    mk!(v, UnitedStates, Us, "Settlement", [Settlement, Libor, NYSE, GovernmentBond, SOFR, NERC, FederalReserve]);
    v
}
