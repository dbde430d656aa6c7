//! Every calendar variant the library offers, by name.
use finquant::time::calendars as c;
use finquant::time::calendars::Calendar;

pub fn markets() -> Vec<(&'static str, Box<dyn Calendar>)> {
    let mut v: Vec<(&'static str, Box<dyn Calendar>)> = vec![];
    macro_rules! plain { ($($t:ident),*) => { $( v.push((stringify!($t), Box::new(c::$t::default()))); )* } }
    plain!(
        Argentina, Botswana, Chile, China, CzechRepublic, Denmark, Finland, HongKong, Hungary,
        Iceland, India, Indonesia, Japan, Mexico, Norway, Romania, Singapore, Slovakia,
        SouthAfrica, SouthKorea, Sweden, Switzerland, Taiwan, Target, Thailand, Turkey, Ukraine,
        WeekendsOnly
    );
    macro_rules! mk {
        ($t:ident, $m:ident, $e:ident, $dflt:literal, [$($x:ident),*]) => {
            v.push(($dflt, Box::new(c::$t { market: None })));
            $( v.push((concat!(stringify!($t), "/", stringify!($x)), Box::new(c::$t { market: Some(c::$m::$e::$x) }))); )*
        };
    }
    mk!(Austria, austria, AustriaMarket, "Austria/Settlement", [Settlement, Exchange]);
    mk!(Australia, australia, AustraliaMarket, "Australia/Settlement", [Settlement, ASX]);
    mk!(Brazil, brazil, BrazilMarket, "Brazil/Settlement", [Settlement, Exchange]);
    mk!(Canada, canada, CanadaMarket, "Canada/Settlement", [Settlement, TSX]);
    mk!(France, france, FranceMarket, "France/Settlement", [Settlement, Exchange]);
    mk!(Germany, germany, GermanyMarket, "Germany/FrankfurtStockExchange",
        [Settlement, FrankfurtStockExchange, Xetra, Eurex, Euwax]);
    mk!(Israel, israel, IsraelMarket, "Israel/Shir", [TelAviv, Shir]);
    mk!(Italy, italy, ItalyMarket, "Italy/Settlement", [Settlement, Exchange]);
    mk!(NewZealand, newzealand, NewZealandMarket, "NewZealand/Wellington", [Wellington, Auckland]);
    mk!(Poland, poland, PolandMarket, "Poland/Settlement", [Settlement, WSE]);
    mk!(Russia, russia, RussiaMarket, "Russia/Settlement", [Settlement, Exchange]);
    mk!(UnitedKingdom, unitedkingdom, UnitedKingdomMarket, "UnitedKingdom/Settlement",
        [Settlement, Exchange, Metals]);
    mk!(UnitedStates, unitedstates, UnitedStatesMarket, "UnitedStates/Settlement",
        [Settlement, Libor, NYSE, GovernmentBond, SOFR, NERC, FederalReserve]);
    v
}
