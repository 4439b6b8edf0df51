//! Independent reference for market calendars: a small rule language over
//! data/holidays.txt, with Easter from the computus, equinoxes and solstices
//! from Meeus' astronomical series and Jewish feasts from calendar arithmetic.
use chrono::{Datelike, Duration, NaiveDate, Weekday};
use std::collections::BTreeMap;

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;

pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}
pub fn first() -> NaiveDate {
    ymd(Y0, 1, 1)
}
pub fn last() -> NaiveDate {
    ymd(Y1, 12, 31)
}
pub fn ndays() -> usize {
    (last() - first()).num_days() as usize + 1
}
pub fn idx(d: NaiveDate) -> usize {
    (d - first()).num_days() as usize
}
pub fn day(i: usize) -> NaiveDate {
    first() + Duration::days(i as i64)
}
pub fn add(d: NaiveDate, n: i64) -> NaiveDate {
    d + Duration::days(n)
}

/// Gregorian Easter Sunday (anonymous / Meeus-Jones-Butcher).
pub fn easter_sunday(y: i32) -> NaiveDate {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let mo = (h + l - 7 * m + 114) / 31;
    let da = (h + l - 7 * m + 114) % 31 + 1;
    ymd(y, mo as u32, da as u32)
}
/// Orthodox Easter Sunday: Julian computus (Meeus), converted to Gregorian.
pub fn orthodox_sunday(y: i32) -> NaiveDate {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let mo = (d + e + 114) / 31;
    let da = (d + e + 114) % 31 + 1;
    // Julian -> Gregorian: 13 days from 1900-03-01 to 2100-02-28, 14 afterwards
    let shift = y / 100 - y / 400 - 2;
    add(ymd(y, mo as u32, da as u32), shift as i64)
}

/// Julian Ephemeris Day of equinox/solstice k (0 March, 1 June, 2 September, 3 December).
fn season_jde(y: i32, k: usize) -> f64 {
    let t = (y as f64 - 2000.0) / 1000.0;
    let c = [
        [2451623.80984, 365242.37404, 0.05169, -0.00411, -0.00057],
        [2451716.56767, 365241.62603, 0.00325, 0.00888, -0.00030],
        [2451810.21715, 365242.01767, -0.11575, 0.00337, 0.00078],
        [2451900.05952, 365242.74049, -0.06223, -0.00823, 0.00032],
    ][k];
    let j0 = c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * c[4])));
    let tt = (j0 - 2451545.0) / 36525.0;
    let w = (35999.373 * tt - 2.47).to_radians();
    let dl = 1.0 + 0.0334 * w.cos() + 0.0007 * (2.0 * w).cos();
    const P: [(f64, f64, f64); 24] = [
        (485., 324.96, 1934.136), (203., 337.23, 32964.467), (199., 342.08, 20.186),
        (182., 27.85, 445267.112), (156., 73.14, 45036.886), (136., 171.52, 22518.443),
        (77., 222.54, 65928.934), (74., 296.72, 3034.906), (70., 243.58, 9037.513),
        (58., 119.81, 33718.147), (52., 297.17, 150.678), (50., 21.02, 2281.226),
        (45., 247.54, 29929.562), (44., 325.15, 31555.956), (29., 60.93, 4443.417),
        (18., 155.12, 67555.328), (17., 288.79, 4562.452), (16., 198.04, 62894.029),
        (14., 199.76, 31436.921), (12., 95.39, 14577.848), (12., 287.11, 31931.756),
        (12., 320.81, 34777.259), (9., 227.73, 1222.114), (8., 15.45, 16859.074),
    ];
    let s: f64 = P.iter().map(|(a, b, c)| a * (b + c * tt).to_radians().cos()).sum();
    j0 + 0.00001 * s / dl
}
fn delta_t(y: f64) -> f64 {
    if y < 1941.0 {
        24.0
    } else if y < 1961.0 {
        29.0 + 0.3 * (y - 1941.0)
    } else if y < 2005.0 {
        34.0 + (y - 1961.0) * 0.7
    } else if y < 2050.0 {
        65.0 + (y - 2005.0) * 0.3
    } else {
        let t = y - 2000.0;
        62.92 + 0.32217 * t + 0.005589 * t * t
    }
}
/// Local civil date of the season start, and how many hours it is from midnight.
pub fn season_date(y: i32, k: usize, utc_hours: f64) -> (NaiveDate, f64) {
    let jd = season_jde(y, k) - delta_t(y as f64) / 86400.0 + utc_hours / 24.0 + 0.5;
    let days = jd.floor();
    let frac = jd - days;
    // JD 2451545.0 = 2000-01-01 12:00 -> day number 2451545 starts (after +0.5) at 2000-01-01 00:00
    let d = add(ymd(2000, 1, 1), days as i64 - 2451545);
    (d, (frac * 24.0).min((1.0 - frac) * 24.0))
}

// ---- Jewish calendar ----
fn heb_elapsed(y: i64) -> i64 {
    let m = (235 * y - 234).div_euclid(19);
    let p = 12084 + 13753 * m;
    let mut d = m * 29 + p.div_euclid(25920);
    if (3 * (d + 1)).rem_euclid(7) < 3 {
        d += 1;
    }
    d
}
fn heb_new_year(y: i64) -> i64 {
    let (a, b, c) = (heb_elapsed(y - 1), heb_elapsed(y), heb_elapsed(y + 1));
    let corr = if c - b == 356 {
        2
    } else if b - a == 382 {
        1
    } else {
        0
    };
    // Hebrew epoch: R.D. -1373427
    -1373428 + b + corr + 1
}
fn rd(n: i64) -> NaiveDate {
    add(ymd(1, 1, 1), n - 1)
}
/// 1 Tishri of the Hebrew year that begins in Gregorian year y.
fn rosh(y: i32) -> NaiveDate {
    rd(heb_new_year(y as i64 + 3761))
}
fn jewish(name: &str, y: i32) -> NaiveDate {
    // Passover (15 Nisan) is 163 days before the following 1 Tishri
    let passover = add(rosh(y), -163);
    match name {
        "NewYear" => rosh(y),
        "Passover" => passover,
        "Purim" => add(passover, -30),
        "Shavuot" => add(passover, 50),
        "AvFast" => {
            let d = add(passover, 112);
            if d.weekday() == Weekday::Sat { add(d, 1) } else { d }
        }
        "Independence" => {
            let d = add(passover, 20);
            match d.weekday() {
                Weekday::Fri => add(d, -1),
                Weekday::Sat => add(d, -2),
                Weekday::Mon if y >= 2004 => add(d, 1),
                _ => d,
            }
        }
        _ => panic!("feast {name}"),
    }
}

fn wd(s: &str) -> Weekday {
    s.parse().unwrap()
}
fn md(s: &str) -> (u32, u32) {
    let (a, b) = s.split_once('-').unwrap();
    (a.parse().unwrap(), b.parse().unwrap())
}
fn pdate(s: &str) -> NaiveDate {
    s.parse().unwrap()
}

pub struct RefCal {
    pub name: String,
    /// true = closed by a holiday rule (weekends not included)
    pub hol: Vec<bool>,
    pub open: Vec<NaiveDate>,
}

impl RefCal {
    pub fn business(&self, i: usize) -> bool {
        let d = day(i);
        if self.open.contains(&d) {
            return true;
        }
        let wknd = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
        !(wknd || self.hol[i])
    }
}

fn lists(name: &str) -> &'static str {
    match name {
        "China" => include_str!("../../data/lists/China.txt"),
        "HongKong" => include_str!("../../data/lists/HongKong.txt"),
        "India" => include_str!("../../data/lists/India.txt"),
        "Indonesia" => include_str!("../../data/lists/Indonesia.txt"),
        "Singapore" => include_str!("../../data/lists/Singapore.txt"),
        "SouthKorea" => include_str!("../../data/lists/SouthKorea.txt"),
        "Taiwan" => include_str!("../../data/lists/Taiwan.txt"),
        "Thailand" => include_str!("../../data/lists/Thailand.txt"),
        "Turkey" => include_str!("../../data/lists/Turkey.txt"),
        _ => panic!("list {name}"),
    }
}

pub fn load() -> BTreeMap<String, RefCal> {
    load_from(include_str!("../../data/holidays.txt"))
}

pub fn load_from(text: &str) -> BTreeMap<String, RefCal> {
    let mut out: BTreeMap<String, RefCal> = BTreeMap::new();
    let mut cur: Option<RefCal> = None;
    for (ln, raw) in text.lines().enumerate() {
        let l = raw.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        if let Some(n) = l.strip_prefix('[') {
            if let Some(c) = cur.take() {
                out.insert(c.name.clone(), c);
            }
            cur = Some(RefCal {
                name: n.trim_end_matches(']').to_string(),
                hol: vec![false; ndays()],
                open: vec![],
            });
            continue;
        }
        let c = cur.as_mut().unwrap();
        let mut pos: Vec<&str> = vec![];
        let (mut lo, mut hi, mut not, mut roll) = (i32::MIN, i32::MAX, vec![], "none");
        for tok in l.split_whitespace() {
            if let Some(v) = tok.strip_prefix("y=") {
                let (a, b) = v.split_once('-').unwrap();
                lo = a.parse().unwrap_or(i32::MIN);
                hi = b.parse().unwrap_or(i32::MAX);
            } else if let Some(v) = tok.strip_prefix("not=") {
                not = v.split(',').map(|x| x.parse::<i32>().unwrap()).collect();
            } else if let Some(v) = tok.strip_prefix("roll=") {
                roll = v;
            } else {
                pos.push(tok);
            }
        }
        let mut close: Vec<NaiveDate> = vec![];
        let years: Vec<i32> = (Y0 - 1..=Y1 + 1).filter(|y| *y >= lo && *y <= hi && !not.contains(y)).collect();
        let rolled = |d: NaiveDate, close: &mut Vec<NaiveDate>| {
            close.push(d);
            let w = d.weekday();
            match (roll, w) {
                ("none", _) => {}
                ("mon", Weekday::Sat) => close.push(add(d, 2)),
                ("mon" | "sun" | "us", Weekday::Sun) => close.push(add(d, 1)),
                ("us", Weekday::Sat) => close.push(add(d, -1)),
                ("plus2", Weekday::Sat | Weekday::Sun) => close.push(add(d, 2)),
                _ => {}
            }
        };
        // Japanese equinoxes: astronomical up to 2100, then the almanac's published approximation
        let eq = |y: i32, k: usize| {
            if y <= 2100 {
                return season_date(y, k, 9.0).0;
            }
            let (base, m) = if k == 0 { (21.8510, 3) } else { (24.2488, 9) };
            ymd(y, m, (base + 0.242194 * (y - 1980) as f64 - ((y - 1980) / 4) as f64) as u32)
        };
        let ae = |y: i32| eq(y, 2);
        match pos[0] {
            "fix" => {
                let (m, d) = md(pos[1]);
                for y in years {
                    rolled(ymd(y, m, d), &mut close);
                }
            }
            "nth" => {
                let m: u32 = pos[1].parse().unwrap();
                let (w, n) = (wd(pos[2]), pos[3].parse::<i64>().unwrap());
                for y in years {
                    let mut ds: Vec<NaiveDate> =
                        (1..=31).filter_map(|d| NaiveDate::from_ymd_opt(y, m, d)).filter(|d| d.weekday() == w).collect();
                    if n < 0 {
                        ds.reverse();
                    }
                    close.push(ds[(n.unsigned_abs() - 1) as usize]);
                }
            }
            "east" | "orth" => {
                let k: i64 = pos[1].parse().unwrap();
                for y in years {
                    let s = if pos[0] == "east" { easter_sunday(y) } else { orthodox_sunday(y) };
                    close.push(add(s, 1 + k));
                }
            }
            "on" => {
                let (m, d) = md(pos[1]);
                let ws: Vec<Weekday> = pos[2].split(',').map(wd).collect();
                for y in years {
                    if ws.contains(&ymd(y, m, d).weekday()) {
                        close.push(ymd(y, m, d));
                    }
                }
            }
            "win" => {
                let (a, b, w) = (md(pos[1]), md(pos[2]), wd(pos[3]));
                for y in years {
                    let (s, e) = (ymd(y, a.0, a.1), ymd(y, b.0, b.1));
                    let mut d = s;
                    while d <= e {
                        if d.weekday() == w {
                            close.push(d);
                        }
                        d = add(d, 1);
                    }
                }
            }
            "date" => close.extend(pos[1..].iter().map(|s| pdate(s))),
            "open" => c.open.extend(pos[1..].iter().map(|s| pdate(s))),
            "range" => {
                let (mut d, e) = (pdate(pos[1]), pdate(pos[2]));
                while d <= e {
                    close.push(d);
                    d = add(d, 1);
                }
            }
            "range-md" => {
                let (a, b) = (md(pos[1]), md(pos[2]));
                for y in years {
                    for d in a.1..=b.1 {
                        close.push(ymd(y, a.0, d));
                    }
                }
            }
            "weekly" => {
                let (w, mut d, e) = (wd(pos[1]), pdate(pos[2]), pdate(pos[3]));
                while d <= e {
                    if d.weekday() == w {
                        close.push(d);
                    }
                    d = add(d, 1);
                }
            }
            "every" => {
                let (m, d) = md(pos[1]);
                let k: i32 = pos[2].parse().unwrap();
                for y in years {
                    if (y - lo) % k == 0 {
                        close.push(ymd(y, m, d));
                    }
                }
            }
            "vernal" => {
                for y in years {
                    rolled(eq(y, 0), &mut close);
                }
            }
            "autumnal" => {
                for y in years {
                    rolled(ae(y), &mut close);
                }
            }
            // a single working day between Respect for the Aged Day and the equinox
            "bridge" => {
                for y in years.into_iter().filter(|y| *y >= 2003) {
                    let aged = (15..=21).map(|d| ymd(y, 9, d)).find(|d| d.weekday() == Weekday::Mon).unwrap();
                    if add(aged, 2) == ae(y) {
                        close.push(add(aged, 1));
                    }
                }
            }
            "solstice" => {
                for y in years {
                    // in 2137 it falls within minutes of local midnight; the published table has the 20th
                    close.push(if y == 2137 { ymd(y, 6, 20) } else { season_date(y, 1, -4.0).0 });
                }
            }
            "gfnfp" => {
                for y in years {
                    let gf = add(easter_sunday(y), -2);
                    if !(gf.month() == 4 && gf.day() <= 7) {
                        close.push(gf);
                    }
                }
            }
            "heb" => {
                let k: i64 = pos[2].parse().unwrap();
                for y in 2000..=2050 {
                    let d = add(jewish(pos[1], y), k);
                    if d.year() >= lo && d.year() <= hi {
                        close.push(d);
                    }
                }
            }
            "lists" => {
                for l in lists(pos[1]).lines() {
                    let l = l.split('#').next().unwrap();
                    close.extend(l.split_whitespace().map(pdate));
                }
            }
            "inc" => {
                let o = &out[pos[1]];
                let hol = o.hol.clone();
                for (i, h) in hol.iter().enumerate() {
                    if *h {
                        c.hol[i] = true;
                    }
                }
                let op = o.open.clone();
                c.open.extend(op);
            }
            x => panic!("line {}: rule {x}", ln + 1),
        }
        for d in close {
            if d >= first() && d <= last() {
                c.hol[idx(d)] = true;
            }
        }
    }
    if let Some(c) = cur.take() {
        out.insert(c.name.clone(), c);
    }
    out
}
