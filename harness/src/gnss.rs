//! C23-C27: GNSS sentences against NMEA 0183 field positions.
use crate::engine::*;
use crate::msg::*;
use nmea_parser::gnss::*;
use nmea_parser::*;

pub fn all() -> Vec<Box<dyn Property>> {
    vec![Box::new(Coords), Box::new(Times), Box::new(Fields), Box::new(VtgGsa), Box::new(Malformed)]
}

/// Checksum forms; a non-ASCII body never gets a checksum.
pub fn seal_any(src: &mut Src, body: String) -> String {
    if body.is_ascii() {
        seal(src, body)
    } else if src.bool() {
        body + "*"
    } else {
        body
    }
}
pub fn fields_of(body: &str) -> Vec<String> {
    body.split(',').map(|s| s.to_string()).collect()
}
const GGA: usize = 0;
const RMC: usize = 1;
const GSA: usize = 2;
const VTG: usize = 3;
const GLL: usize = 4;
const NAMES: [&str; 5] = ["GGA", "RMC", "GSA", "VTG", "GLL"];

/// Field numbers of latitude, hemisphere, longitude, hemisphere
fn coord_at(ty: usize) -> usize {
    match ty {
        GGA => 2,
        RMC => 3,
        _ => 1,
    }
}
fn time_at(ty: usize) -> usize {
    if ty == GLL {
        5
    } else {
        1
    }
}
fn latlon(r: &Res) -> Option<(Option<f64>, Option<f64>)> {
    match r {
        Ok(ParsedSentence::Gga(g)) => Some((g.latitude, g.longitude)),
        Ok(ParsedSentence::Rmc(g)) => Some((g.latitude, g.longitude)),
        Ok(ParsedSentence::Gll(g)) => Some((g.latitude, g.longitude)),
        _ => None,
    }
}
fn ts(r: &Res) -> Option<Option<(i64, u32)>> {
    let f = |t: i64, n: u32| (t, n);
    match r {
        Ok(ParsedSentence::Gga(g)) => Some(g.timestamp.map(|t| f(t.timestamp(), t.timestamp_subsec_nanos()))),
        Ok(ParsedSentence::Rmc(g)) => Some(g.timestamp.map(|t| f(t.timestamp(), t.timestamp_subsec_nanos()))),
        Ok(ParsedSentence::Gll(g)) => Some(g.timestamp.map(|t| f(t.timestamp(), t.timestamp_subsec_nanos()))),
        _ => None,
    }
}
fn untimed(r: Res) -> Res {
    match r {
        Ok(ParsedSentence::Gga(mut g)) => {
            g.timestamp = None;
            Ok(ParsedSentence::Gga(g))
        }
        Ok(ParsedSentence::Rmc(mut g)) => {
            g.timestamp = None;
            Ok(ParsedSentence::Rmc(g))
        }
        Ok(ParsedSentence::Gll(mut g)) => {
            g.timestamp = None;
            Ok(ParsedSentence::Gll(g))
        }
        r => r,
    }
}

// ---- C23 ------------------------------------------------------------------------------------------
pub struct Coords;
fn near(got: Option<f64>, want: Option<f64>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => (a - b).abs() <= 1e-11,
        _ => false,
    }
}
impl Property for Coords {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "A case is a GGA, RMC or GLL sentence with generated latitude and longitude (1 to 60 decimals, all-nines and trailing-zero fractions, both hemispheres, each possibly empty) and generated other fields; both results are compared with an integer-arithmetic conversion within 1e-11 degrees. Sweeps: every whole DDMM of latitude and DDDMM of longitude, both hemispheres, all three sentences. Non-trivial: at least one coordinate is non-empty and not zero."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 12_000_000, guided: 1_000_000, sweep_reps: 12 }
        } else {
            Plan { random: 500_000, guided: 60_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for ty in 0..3 {
            for h in 0..2 {
                for m in 0..=5400 {
                    v.push(vec![1, ty, h, m]);
                }
                for m in 0..=10800 {
                    v.push(vec![2, ty, h, m]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        for (s, lat, lon) in [
            ("$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,*47", Some(48.1173), Some(11.516666666666667)),
            ("$GPGGA,123519,4807.0,S,01131.0,W,1,08,0.9,545.4,M,46.9,M,,", Some(-48.116666666666667), Some(-11.516666666666667)),
            ("$GPGLL,4916.45,N,12311.12,W,225444,A", Some(49.274166666666667), Some(-(123.0 + 11.12 / 60.0))),
            ("$GPRMC,225446,A,0000.5,S,,,000.5,054.7,191120,,", Some(-0.5 / 60.0), None),
            ("$GPRMC,225446,A,,,18000.0,W,000.5,054.7,191120,,", None, Some(-180.0)),
        ] {
            let r = once(ctx, s);
            let (a, b) = latlon(&r).ok_or(format!("{} -> {:?}", s, r))?;
            ensure!(near(a, lat) && near(b, lon), "{} -> {:?} {:?}", s, a, b);
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let sel = src.below(3);
        let ty = [GGA, RMC, GLL][src.usize(3)];
        let mut forced = None;
        if sel > 0 {
            let h = src.usize(2);
            let (w, max) = if sel == 1 { (2, 5401) } else { (3, 10801) };
            let m = src.below(max);
            let nf = [1usize, 2, 3, 4, 5][src.usize(5)];
            let fr: String = if m + 1 == max { "0".repeat(nf) } else { (0..nf).map(|_| (b'0' + src.below(10) as u8) as char).collect() };
            forced = Some((format!("{:0w$}{:02}.{}", m / 60, m % 60, fr, w = w), h));
        }
        let talker = src.pick(NAV_TALKERS);
        let mut f = fields_of(&gen_gnss_body(src, ty, talker));
        let at = coord_at(ty);
        let mut want = [None, None];
        for (k, w) in want.iter_mut().enumerate() {
            let hemi = [["N", "S"], ["E", "W"]][k];
            let i = at + 2 * k;
            let (text, h) = match &forced {
                Some((t, h)) if sel as usize == k + 1 => (t.clone(), *h),
                _ => {
                    if src.chance(1, 4) {
                        // empty, with or without a hemisphere
                        f[i] = String::new();
                        f[i + 1] = src.pick(&["", hemi[0], hemi[1]]).to_string();
                        continue;
                    }
                    (gen_coord(src, k == 0).0, src.usize(2))
                }
            };
            let v = coord_value(&text, 2 + k);
            *w = Some(if h == 1 { -v } else { v });
            f[i] = text;
            f[i + 1] = hemi[h].to_string();
            if v != 0.0 {
                ctx.nontrivial();
            }
        }
        ctx.class(match (want[0].is_some(), want[1].is_some()) {
            (true, true) => "both coordinates",
            (true, false) => "latitude only",
            (false, true) => "longitude only",
            _ => "no coordinate",
        });
        let s = seal(src, f.join(","));
        let r = once(ctx, &s);
        let (a, b) = latlon(&r).ok_or_else(|| format!("{} answered with {:?}", s, r))?;
        ensure!(near(a, want[0]), "latitude of {}: got {:?}, want {:?}", s, a, want[0]);
        ensure!(near(b, want[1]), "longitude of {}: got {:?}, want {:?}", s, b, want[1]);
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["not checked: coordinates without a decimal part, a coordinate with an empty or unknown hemisphere, minutes above 59, degrees above 90 or 180"]
    }
}

// ---- C24 ------------------------------------------------------------------------------------------
pub struct Times;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Val {
    Good(i64, i64, i64),
    Bad,
    Any,
}
fn six(s: &str) -> Option<(i64, i64, i64)> {
    let b = s.as_bytes();
    if b.len() < 6 || !b[..6].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let d = |i: usize| (b[i] - b'0') as i64 * 10 + (b[i + 1] - b'0') as i64;
    Some((d(0), d(2), d(4)))
}
fn ref_time(s: &str) -> Val {
    match six(s) {
        None => Val::Bad,
        Some((23, 59, 60)) => Val::Any,
        Some((h, m, sec)) if h < 24 && m < 60 && sec < 60 => Val::Good(h, m, sec),
        _ => Val::Bad,
    }
}
fn ref_date(s: &str, now: Civil) -> Val {
    match six(s) {
        None => Val::Bad,
        Some((d, m, y)) => {
            let y = now.y - now.y % 100 + y;
            if (1..=12).contains(&m) && d >= 1 && d <= dim(y, m) {
                Val::Good(y, m, d)
            } else {
                Val::Bad
            }
        }
    }
}
const ODD: &[&str] = &["+", "-", " ", ".", "a", "O", "\u{661}", "\u{ff11}", "\u{b2}", "\u{bd}", "/", ":", "\u{0}", "\u{20ac}", "x", "N", "e"];
/// Six digits with something wrong about them.
fn garble(src: &mut Src, good: &str) -> String {
    let mut c: Vec<String> = good.chars().map(|c| c.to_string()).collect();
    match src.below(6) {
        0 => return String::new(),
        1 => {
            let n = src.usize(6);
            c.truncate(n);
        }
        2 => {
            let i = src.usize(6);
            c[i] = src.pick(ODD).to_string();
        }
        3 => {
            let i = src.usize(6);
            c.insert(i, src.pick(ODD).to_string());
        }
        4 => {
            let n = src.usize(6);
            c.truncate(n);
            c.push(src.pick(&[".", ".0", ".00", ".123456"]).to_string());
        }
        _ => {
            let n = 1 + src.usize(9);
            c = (0..n).map(|_| if src.bool() { src.pick(ODD).to_string() } else { src.below(10).to_string() }).collect();
        }
    }
    c.concat()
}
impl Times {
    fn check(&self, ctx: &mut Ctx, f: &mut [String], ty: usize, now: Civil, time: &str, date: &str, fin: &mut dyn FnMut(String) -> String) -> R {
        let t = ref_time(time);
        let d = if ty == RMC { ref_date(date, now) } else { Val::Good(now.y, now.mo, now.d) };
        let at = time_at(ty);
        f[at] = "000000".into();
        if ty == RMC {
            f[9] = "010100".into();
        }
        let base = once(ctx, &f.join(","));
        ensure!(ts(&base).is_some(), "{} answered with {:?}", f.join(","), base);
        f[at] = time.into();
        if ty == RMC {
            f[9] = date.into();
        }
        let s = fin(f.join(","));
        let r = once(ctx, &s);
        let got = ts(&r).ok_or_else(|| format!("{:?} answered with {:?}", s, r))?;
        let want = match (t, d) {
            (Val::Good(h, mi, sec), Val::Good(y, mo, d)) => Some(Some(Civil { y, mo, d, h, mi, s: sec }.ts())),
            (Val::Bad, _) | (_, Val::Bad) => Some(None),
            _ => None,
        };
        if let Some(w) = want {
            ctx.class(if w.is_some() { "real time" } else { "no timestamp" });
            ensure!(got == w.map(|x| (x, 0)), "timestamp of {:?} at {}: got {:?}, want {:?} (seconds since 1970, nanoseconds)", s, now, got, w);
        }
        let (a, b) = (untimed(r), untimed(base));
        ensure!(same(&a, &b), "time {:?} date {:?} changed the rest of the sentence: {:?} instead of {:?}", time, date, a, b);
        Ok(())
    }
}
const CENT: &[i64] = &[2021, 1999, 2000, 2100, 2199, 1970, 2345, 9998];
impl Property for Times {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "A case is a GGA, RMC or GLL sentence with a generated time (and date) text, sent at a generated system instant (the process clock is an input: 1970 to 9998, month ends, leap days, century ends, last second of a day); the timestamp is compared with a reference calendar and the other fields with those of the same sentence with a good time. Sweeps: all HHMM, all MMSS of two-digit values, all DDMM with 12 years under several centuries (thorough: all 10^6 times and all 10^6 dates). Non-trivial: the text is six real digits, or is malformed but not empty."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 8_000_000, guided: 1_000_000, sweep_reps: 1 }
        } else {
            Plan { random: 260_000, guided: 60_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        if th {
            for n in 0..1_000_000 {
                v.push(vec![1, n % 3, n]);
                v.push(vec![2, n]);
            }
        } else {
            for a in 0..100u64 {
                for b in 0..100 {
                    let k = (a + b) % 3;
                    v.push(vec![1, k, a * 10000 + b * 100 + (a * b) % 60]);
                    v.push(vec![1, (k + 1) % 3, (a % 24) * 10000 + b * 100 + a]);
                }
            }
            for d in 0..100u64 {
                for m in 0..100u64 {
                    let full = d <= 32 && m <= 13;
                    for y in if full { &[0u64, 1, 4, 19, 20, 21, 24, 69, 70, 96, 99, 50][..] } else { &[20u64][..] } {
                        v.push(vec![2, d * 10000 + m * 100 + y]);
                    }
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        // every short form that once crashed the parser
        now_default();
        let now = DEFAULT_NOW;
        for ty in [GGA, RMC, GLL] {
            let body = match ty {
                GGA => "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,",
                RMC => "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E",
                _ => "$GPGLL,4916.45,N,12311.12,W,225444,A,A",
            };
            for t in ["", "1", "12", "123", "1234", "12345", "240000", "236000", "235960", "120060", "12345x", "+12345", "-12345", "12 345", "\u{661}\u{662}0000", "999999", "000000", "235959", "235959.999", "123456.", "235959.9999999999999"] {
                let mut f = fields_of(body);
                if t.ends_with('.') {
                    continue;
                }
                self.check(ctx, &mut f, ty, now, t, "010120", &mut |s| s)?;
                if ty == RMC {
                    self.check(ctx, &mut f, ty, now, "120000", t.split('.').next().unwrap(), &mut |s| s)?;
                }
            }
            for d in ["290221", "290220", "310421", "311221", "000121", "010021", "011321", "320121"] {
                let mut f = fields_of(body);
                self.check(ctx, &mut f, ty, now, "235959", d, &mut |s| s)?;
            }
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let sel = src.below(3);
        let ty = if sel == 2 { RMC } else { [GGA, RMC, GLL][src.usize(3)] };
        let n = if sel > 0 { src.below(1_000_000) } else { 0 };
        let now = if sel == 2 {
            let mut c = DEFAULT_NOW;
            c.y = CENT[(n % CENT.len() as u64 + n / 10000) as usize % CENT.len()];
            set_clock(c, 0);
            c
        } else {
            gen_clock(src, ctx)
        };
        let good = |src: &mut Src| match src.below(3) {
            0 => format!("{:02}{:02}{:02}", src.below(24), src.below(60), src.below(60)),
            1 => src.pick(&["000000", "235959", "120000", "000001", "235900", "230000", "005959"]).to_string(),
            _ => format!("{:06}", src.below(1_000_000)),
        };
        let good_date = |src: &mut Src| match src.below(4) {
            0 | 1 => {
                let m = 1 + src.below(12) as i64;
                let y = src.below(100) as i64;
                let yy = now.y - now.y % 100 + y;
                let d = match src.below(3) {
                    0 => dim(yy, m),
                    1 => dim(yy, m) + 1,
                    _ => 1 + src.below(28) as i64,
                };
                format!("{:02}{:02}{:02}", d, m, y)
            }
            2 => format!("{:02}{:02}{:02}", src.below(33), src.below(14), src.below(100)),
            _ => format!("{:06}", src.below(1_000_000)),
        };
        let mut time = good(src);
        let mut date = good_date(src);
        match sel {
            1 => time = format!("{:06}", n),
            2 => date = format!("{:06}", n),
            _ => {
                if src.chance(1, 3) {
                    time = garble(src, &time);
                }
                if src.chance(1, 4) {
                    date = garble(src, &date);
                }
            }
        }
        if time.len() == 6 && time.bytes().all(|b| b.is_ascii_digit()) && src.bool() {
            time.push('.');
            for _ in 0..1 + src.usize(12) {
                time.push((b'0' + src.below(10) as u8) as char);
            }
        }
        if !time.is_empty() && (ty != RMC || !date.is_empty()) {
            ctx.nontrivial();
        }
        let talker = src.pick(NAV_TALKERS);
        let mut f = fields_of(&gen_gnss_body(src, ty, talker));
        let q = src.below(4);
        self.check(ctx, &mut f, ty, now, &time, &date, &mut |s| {
            if !s.is_ascii() || q == 2 {
                s
            } else if q == 3 {
                s + "*"
            } else {
                with_sum(&s)
            }
        })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "23:59:60 may be none or not",
            "characters after the sixth digit are only generated as a decimal fraction",
            "the system clock is interposed (clock_gettime) for the whole call; the code reads it through chrono only",
        ]
    }
}

// ---- C25 ------------------------------------------------------------------------------------------
pub struct Fields;
fn quality(v: u64) -> GgaQualityIndicator {
    use GgaQualityIndicator::*;
    [Invalid, GpsFix, DGpsFix, PpsFix, RealTimeKinematic, RealTimeKinematicFloat, DeadReckoning, ManualInputMode, SimulationMode][v as usize]
}
fn gen_faa(src: &mut Src) -> (&'static str, Option<FaaMode>) {
    src.pick(&[
        ("A", Some(FaaMode::Autonomous)),
        ("D", Some(FaaMode::Differential)),
        ("E", Some(FaaMode::Estimated)),
        ("N", Some(FaaMode::NotValid)),
        ("S", Some(FaaMode::Simulator)),
        ("", None),
    ])
}
/// FAA modes of later NMEA versions; a result may leave them out but not show another mode.
fn later_faa(src: &mut Src) -> Option<&'static str> {
    if src.chance(1, 40) {
        Some(src.pick(&["F", "R", "P", "M", "C", "U"]))
    } else {
        None
    }
}
fn faa_shown(d: &mut Diffs, got: &Option<FaaMode>, want: Option<FaaMode>, later: Option<&str>) {
    match (later, got) {
        (Some(_), None) => {}
        (Some(l), Some(m)) => d.e("faa_mode", &api(|| m.to_string()), &l.to_string()),
        (None, _) => d.e("faa_mode", got, &want),
    }
}
fn gen_uint(src: &mut Src, max: u64, typical: u64) -> (String, Option<u64>) {
    let v = match src.below(6) {
        0 => return (String::new(), None),
        1 => src.below(max + 1),
        2 => src.pick(&[0, max, max - 1, max / 2, max / 2 + 1, 1]),
        _ => src.below(typical),
    };
    (pad(src, v), Some(v))
}
fn pad(src: &mut Src, v: u64) -> String {
    let w = src.usize(5);
    format!("{:0w$}", v, w = w)
}
fn junk(src: &mut Src) -> String {
    src.pick(&["", "A", "V", "N", "S", "x", "1", "99", "4807.038", "E", "W", "-1", "M", "1e9", "nan", "garbage", "0", "D"]).to_string()
}
fn gga_fields(src: &mut Src, talker: &str, sel: u64, val: u64) -> (Vec<String>, GgaData) {
    let mut f = vec![format!("${}GGA", talker)];
    let mut g = GgaData {
        source: nav_of(talker),
        timestamp: None,
        latitude: None,
        longitude: None,
        quality: GgaQualityIndicator::Invalid,
        satellite_count: None,
        hdop: None,
        altitude: None,
        geoid_separation: None,
        age_of_dgps: None,
        ref_station_id: None,
    };
    f.push(if src.chance(1, 4) { "".into() } else { "123519".into() });
    let c = gen_latlon(src, &mut f);
    g.latitude = c.0;
    g.longitude = c.1;
    let q = if sel == 1 {
        Some(val % 9)
    } else if src.chance(1, 6) {
        None
    } else {
        Some(src.below(9))
    };
    match q {
        None => f.push(String::new()),
        Some(q) => {
            g.quality = quality(q);
            f.push(q.to_string());
        }
    }
    let (t, v) = if sel == 2 { (pad(src, val % 256), Some(val % 256)) } else { gen_uint(src, 255, 30) };
    f.push(t);
    g.satellite_count = v.map(|v| v as u8);
    let (t, v) = gen_opt_decimal(src, false);
    f.push(t);
    g.hdop = v;
    let (t, v) = gen_opt_decimal(src, true);
    f.push(t);
    g.altitude = v;
    f.push(src.pick(&["M", ""]).into());
    let (t, v) = gen_opt_decimal(src, true);
    f.push(t);
    g.geoid_separation = v;
    f.push(src.pick(&["M", ""]).into());
    let (t, v) = gen_opt_decimal(src, false);
    f.push(t);
    g.age_of_dgps = v;
    let (t, v) = if sel == 3 { (pad(src, val % 65536), Some(val % 65536)) } else { gen_uint(src, 65535, 4096) };
    f.push(t);
    g.ref_station_id = v.map(|v| v as u16);
    (f, g)
}
/// Pushes four fields.
fn gen_latlon(src: &mut Src, f: &mut Vec<String>) -> (Option<f64>, Option<f64>) {
    let mut out = [None, None];
    for (k, o) in out.iter_mut().enumerate() {
        if src.chance(1, 3) {
            f.push(String::new());
            f.push(String::new());
            continue;
        }
        let (t, v) = gen_coord(src, k == 0);
        let h = src.usize(2);
        f.push(t);
        f.push([["N", "S"], ["E", "W"]][k][h].into());
        *o = Some(if h == 1 { -v } else { v });
    }
    (out[0], out[1])
}
fn filled(f: &[String]) -> usize {
    f.iter().filter(|s| !s.is_empty()).count()
}
impl Property for Fields {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "A case is a GGA, RMC or GLL sentence of which every field is generated together with its expected value (each possibly empty; decimals with up to 9 digits before and after the point, leading zeros, negative altitude and geoid separation), possibly cut off after any field or followed by 1 to 8 arbitrary extra fields; every field of the result is compared (relative tolerance 1e-9). Sweeps: all qualities, all satellite counts 0-255, station ids, and every cut position of every sentence. Non-trivial: at least four non-empty fields after the cut."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 10_000_000, guided: 1_000_000, sweep_reps: 6 }
        } else {
            Plan { random: 420_000, guided: 80_000, sweep_reps: 2 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for q in 0..9 {
            for _ in 0..20 {
                v.push(vec![0, 1, q]);
            }
        }
        for q in 0..256 {
            v.push(vec![0, 2, q]);
        }
        for q in 0..if th { 65536 } else { 4200 } {
            v.push(vec![0, 3, q]);
        }
        for ty in 0..3 {
            for cut in 0..16 {
                for _ in 0..60 {
                    v.push(vec![ty, 4, cut]);
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let ty = src.usize(3);
        let sel = src.below(5);
        let val = src.below(65536);
        let talker = src.pick(NAV_TALKERS);
        // generated first, so that a sweep prefix fixes it
        let cut = if sel == 4 {
            Some(1 + (val % 16) as usize)
        } else if src.chance(1, 5) {
            Some(1 + src.usize(15))
        } else {
            None
        };
        let extra = if cut.is_none() && src.chance(1, 4) { 1 + src.usize(8) } else { 0 };
        let mut d = Diffs::default();
        let s;
        match ty {
            0 => {
                let (mut f, mut g) = gga_fields(src, talker, sel, val);
                // a quality code that has no meaning must not pass for one that has
                let unlisted = src.chance(1, 40);
                if unlisted {
                    f[6] = (9 + src.pick(&[0, 1, 247, 246, 90, 2]).min(src.below(247))).to_string();
                    g.quality = GgaQualityIndicator::Invalid;
                }
                let n = keep(&mut f, cut, &[3, 5]);
                if n <= 2 {
                    g.latitude = None;
                }
                if n <= 4 {
                    g.longitude = None;
                }
                if n <= 6 {
                    g.quality = GgaQualityIndicator::Invalid;
                }
                if n <= 7 {
                    g.satellite_count = None;
                }
                if n <= 8 {
                    g.hdop = None;
                }
                if n <= 9 {
                    g.altitude = None;
                }
                if n <= 11 {
                    g.geoid_separation = None;
                }
                if n <= 13 {
                    g.age_of_dgps = None;
                }
                if n <= 14 {
                    g.ref_station_id = None;
                }
                mark(ctx, &f, cut);
                for _ in 0..extra {
                    f.push(junk(src));
                }
                if f.len() < 2 {
                    return Ok(()); // no comma left
                }
                s = seal(src, f.join(","));
                match once(ctx, &s) {
                    Ok(ParsedSentence::Gga(r)) => {
                        d.e("source", &r.source, &g.source);
                        d.f("latitude", r.latitude, g.latitude);
                        d.f("longitude", r.longitude, g.longitude);
                        d.e("quality", &r.quality, &g.quality);
                        d.e("satellite_count", &r.satellite_count, &g.satellite_count);
                        d.f("hdop", r.hdop, g.hdop);
                        d.f("altitude", r.altitude, g.altitude);
                        d.f("geoid_separation", r.geoid_separation, g.geoid_separation);
                        d.f("age_of_dgps", r.age_of_dgps, g.age_of_dgps);
                        d.e("ref_station_id", &r.ref_station_id, &g.ref_station_id);
                    }
                    Err(_) if unlisted && n > 6 => return Ok(()),
                    r => return Err(format!("{} answered with {:?}", s, r)),
                }
            }
            1 => {
                let mut f = vec![format!("${}RMC", talker)];
                f.push(if src.chance(1, 4) { "".into() } else { "225446".into() });
                let (t, status) = src.pick(&[("A", Some(true)), ("V", Some(false)), ("", None)]);
                f.push(t.into());
                let (lat, lon) = gen_latlon(src, &mut f);
                let (t, sog) = gen_opt_decimal(src, false);
                f.push(t);
                let (t, cog) = gen_opt_decimal(src, false);
                f.push(t);
                f.push(if src.chance(1, 4) { "".into() } else { "191120".into() });
                let (t, mut var) = gen_opt_decimal(src, false);
                f.push(t);
                if var.is_some() {
                    let w = src.bool();
                    f.push(if w { "W" } else { "E" }.into());
                    if w {
                        var = var.map(|v| -v);
                    }
                } else {
                    f.push(src.pick(&["", "E", "W"]).into());
                }
                let n = keep(&mut f, cut, &[4, 6, 11]);
                mark(ctx, &f, cut);
                for _ in 0..extra {
                    f.push(junk(src));
                }
                if f.len() < 2 {
                    return Ok(());
                }
                s = seal(src, f.join(","));
                match once(ctx, &s) {
                    Ok(ParsedSentence::Rmc(r)) => {
                        d.e("source", &r.source, &nav_of(talker));
                        d.e("status_active", &r.status_active, &status.filter(|_| n > 2));
                        d.f("latitude", r.latitude, lat.filter(|_| n > 3));
                        d.f("longitude", r.longitude, lon.filter(|_| n > 5));
                        d.f("sog_knots", r.sog_knots, sog.filter(|_| n > 7));
                        d.f("bearing", r.bearing, cog.filter(|_| n > 8));
                        d.f("variation", r.variation, var.filter(|_| n > 10));
                    }
                    r => return Err(format!("{} answered with {:?}", s, r)),
                }
            }
            _ => {
                let mut f = vec![format!("${}GLL", talker)];
                let (lat, lon) = gen_latlon(src, &mut f);
                f.push(if src.chance(1, 4) { "".into() } else { "225446".into() });
                let (t, valid) = src.pick(&[("A", Some(true)), ("V", Some(false)), ("", None)]);
                f.push(t.into());
                let (t, faa) = gen_faa(src);
                let later = later_faa(src);
                f.push(later.unwrap_or(t).into());
                let n = keep(&mut f, cut, &[2, 4]);
                let later = later.filter(|_| n > 7);
                mark(ctx, &f, cut);
                for _ in 0..extra {
                    f.push(junk(src));
                }
                if f.len() < 2 {
                    return Ok(());
                }
                s = seal(src, f.join(","));
                match once(ctx, &s) {
                    Ok(ParsedSentence::Gll(r)) => {
                        d.e("source", &r.source, &nav_of(talker));
                        d.f("latitude", r.latitude, lat.filter(|_| n > 1));
                        d.f("longitude", r.longitude, lon.filter(|_| n > 3));
                        d.e("data_valid", &r.data_valid, &valid.filter(|_| n > 6));
                        faa_shown(&mut d, &r.faa_mode, faa.filter(|_| n > 7), later);
                    }
                    r => return Err(format!("{} answered with {:?}", s, r)),
                }
            }
        }
        d.done(&s)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a quality code above 8 may be an error or Invalid, an FAA letter of a later NMEA version may be left out; not checked: unknown GLL validity letters, a cut between a coordinate and its hemisphere or between the variation and its side"]
    }
}
/// Cuts to `cut` fields (never right before one of `not`); returns the number of fields left.
fn keep(f: &mut Vec<String>, cut: Option<usize>, not: &[usize]) -> usize {
    if let Some(c) = cut {
        let mut c = c.min(f.len());
        if not.contains(&c) && !f[c - 1].is_empty() {
            c -= 1;
        }
        f.truncate(c);
    }
    f.len()
}
fn mark(ctx: &mut Ctx, f: &[String], cut: Option<usize>) {
    if filled(f) >= 5 {
        ctx.nontrivial();
    }
    ctx.class(match (cut.is_some(), &f.get(0).map_or("", |s| &s[s.len().min(3)..])) {
        (true, _) => "cut off",
        (_, &"GGA") => "GGA",
        (_, &"RMC") => "RMC",
        (_, &"GLL") => "GLL",
        (_, &"VTG") => "VTG",
        _ => "GSA",
    });
}

// ---- C26 ------------------------------------------------------------------------------------------
pub struct VtgGsa;
impl Property for VtgGsa {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A case is a VTG or GSA sentence of which every field is generated together with its expected value (each possibly empty; numbers with up to 9 digits on either side of the point; PRNs 0-255 in any subset of the 12 slots), possibly cut off after any field or followed by extra fields; every field of the result is compared and the FAA mode printed. Sweeps: all 4096 subsets of PRN slots, every PRN in every slot, all mode/fix-type pairs, all subsets of VTG values, all FAA modes, every cut. Non-trivial: at least four non-empty fields after the cut."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 30_000_000, guided: 2_000_000, sweep_reps: 20 }
        } else {
            Plan { random: 900_000, guided: 150_000, sweep_reps: 3 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for m in 0..4096 {
            v.push(vec![1, 1, m]);
        }
        for slot in 0..12 {
            for x in 0..256 {
                v.push(vec![1, 2, slot * 256 + x]);
            }
        }
        for k in 0..12 {
            v.push(vec![1, 3, k]);
        }
        for m in 0..32 {
            for _ in 0..20 {
                v.push(vec![0, 1, m]);
            }
        }
        for k in 0..6 {
            for _ in 0..20 {
                v.push(vec![0, 2, k]);
            }
        }
        for ty in 0..2 {
            for cut in 0..19 {
                for _ in 0..40 {
                    v.push(vec![ty, 4, cut]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        for m in [FaaMode::Autonomous, FaaMode::Differential, FaaMode::Estimated, FaaMode::NotValid, FaaMode::Simulator] {
            let l = api(|| m.to_string());
            let s = format!("$GPVTG,1.5,T,2.5,M,3.5,N,4.5,K,{}", l);
            match once(ctx, &s) {
                Ok(ParsedSentence::Vtg(g)) => ensure!(g.faa_mode == Some(m), "{} decodes to {:?}, printed from {:?}", s, g.faa_mode, m),
                r => return Err(format!("{} -> {:?}", s, r)),
            }
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let ty = src.usize(2);
        let sel = src.below(5);
        let val = src.below(4096);
        let talker = src.pick(NAV_TALKERS);
        let cut = if sel == 4 {
            Some(1 + (val % 19) as usize)
        } else if sel == 0 && src.chance(1, 5) {
            Some(1 + src.usize(19))
        } else {
            None
        };
        let extra = if cut.is_none() && src.chance(1, 4) { 1 + src.usize(8) } else { 0 };
        let mut d = Diffs::default();
        if ty == 0 {
            let mut f = vec![format!("${}VTG", talker)];
            let mut v = [None; 4];
            for k in 0..4 {
                let (t, x) = if sel == 1 {
                    if val >> k & 1 == 1 {
                        let (t, x) = gen_decimal(src, false);
                        (t, Some(x))
                    } else {
                        (String::new(), None)
                    }
                } else {
                    gen_opt_decimal(src, false)
                };
                f.push(t);
                f.push(if src.chance(1, 6) { "" } else { ["T", "M", "N", "K"][k] }.into());
                v[k] = x;
            }
            let (t, faa) = if sel == 2 { [("A", Some(FaaMode::Autonomous)), ("D", Some(FaaMode::Differential)), ("E", Some(FaaMode::Estimated)), ("N", Some(FaaMode::NotValid)), ("S", Some(FaaMode::Simulator)), ("", None)][(val % 6) as usize] } else { gen_faa(src) };
            let later = if sel == 2 { None } else { later_faa(src) };
            let t = later.unwrap_or(t);
            f.push(t.into());
            let n = keep(&mut f, cut, &[]);
            let later = later.filter(|_| n > 9);
            mark(ctx, &f, cut);
            for _ in 0..extra {
                f.push(junk(src));
            }
            if f.len() < 2 {
                return Ok(());
            }
            let s = seal(src, f.join(","));
            match once(ctx, &s) {
                Ok(ParsedSentence::Vtg(g)) => {
                    d.e("source", &g.source, &nav_of(talker));
                    d.f("cog_true", g.cog_true, v[0].filter(|_| n > 1));
                    d.f("cog_magnetic", g.cog_magnetic, v[1].filter(|_| n > 3));
                    d.f("sog_knots", g.sog_knots, v[2].filter(|_| n > 5));
                    d.f("sog_kph", g.sog_kph, v[3].filter(|_| n > 7));
                    faa_shown(&mut d, &g.faa_mode, faa.filter(|_| n > 9), later);
                    if let Some(m) = g.faa_mode {
                        let l = api(|| m.to_string());
                        ensure!(l == t, "FAA mode {:?} decoded from {:?} prints as {:?}", m, t, l);
                    }
                }
                r => return Err(format!("{} answered with {:?}", s, r)),
            }
            return d.done(&s);
        }
        let mut f = vec![format!("${}GSA", talker)];
        let modes = [("M", Some(false)), ("A", Some(true)), ("", None)];
        let fixes = [("1", Some(GsaFixMode::NotAvailable)), ("2", Some(GsaFixMode::Fix2D)), ("3", Some(GsaFixMode::Fix3D)), ("", None)];
        let (mi, fi) = if sel == 3 { ((val % 3) as usize, (val / 3 % 4) as usize) } else { (src.usize(3), src.usize(4)) };
        let (m, fix) = (modes[mi], fixes[fi].clone());
        f.push(m.0.into());
        f.push(fix.0.into());
        let dense = src.below(4);
        let mut prn: Vec<(usize, u8)> = vec![];
        for k in 0..12usize {
            let on = match sel {
                1 => val >> k & 1 == 1,
                2 if (val / 256) as usize % 12 == k => true,
                _ => src.below(4) >= dense,
            };
            if !on {
                f.push(String::new());
                continue;
            }
            let x = if sel == 2 && (val / 256) as usize % 12 == k {
                val % 256
            } else {
                match src.below(4) {
                    0 => src.below(256),
                    _ => 1 + src.below(99),
                }
            };
            f.push(pad(src, x));
            prn.push((3 + k, x as u8));
        }
        let mut v = [None; 3];
        for x in v.iter_mut() {
            let (t, y) = gen_opt_decimal(src, false);
            f.push(t);
            *x = y;
        }
        let n = keep(&mut f, cut, &[]);
        mark(ctx, &f, cut);
        for _ in 0..extra {
            f.push(junk(src));
        }
        if f.len() < 2 {
            return Ok(());
        }
        let s = seal(src, f.join(","));
        match once(ctx, &s) {
            Ok(ParsedSentence::Gsa(g)) => {
                d.e("source", &g.source, &nav_of(talker));
                d.e("mode1_automatic", &g.mode1_automatic, &m.1.filter(|_| n > 1));
                d.e("mode2_3d", &g.mode2_3d, &fix.1.filter(|_| n > 2));
                let want: Vec<u8> = prn.iter().filter(|p| p.0 < n).map(|p| p.1).collect();
                d.e("prn_numbers", &g.prn_numbers, &want);
                d.f("pdop", g.pdop, v[0].filter(|_| n > 15));
                d.f("hdop", g.hdop, v[1].filter(|_| n > 16));
                d.f("vdop", g.vdop, v[2].filter(|_| n > 17));
            }
            r => return Err(format!("{} answered with {:?}", s, r)),
        }
        d.done(&s)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an FAA letter of a later NMEA version may be left out"]
    }
}

// ---- C27 ------------------------------------------------------------------------------------------
pub struct Malformed;
/// Bad for certain as a decimal number; forms a reader may reasonably accept ("+5", "5.", ".5") are not generated.
fn bad_decimal(s: &str) -> bool {
    let t = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
    let digits = t.bytes().filter(|b| b.is_ascii_digit()).count();
    let dots = t.bytes().filter(|b| *b == b'.').count();
    !s.is_empty() && (digits == 0 || dots > 1 || digits + dots != t.len())
}
/// Too large for any floating-point number
fn too_large(s: &str) -> bool {
    let t = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
    let whole = t.split('.').next().unwrap().trim_start_matches('0');
    whole.len() > 309
}
/// Bad for certain as an unsigned integer not above `max`
fn bad_uint(s: &str, max: u64) -> bool {
    if s.is_empty() {
        return false;
    }
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        // "-0" and "7.0" are left open
        let u = s.strip_prefix('-').unwrap_or(s);
        return !(u.bytes().all(|b| b == b'0' || b == b'.') && u.contains('0')) && !matches!(s.split_once('.'), Some((_, f)) if f.bytes().all(|b| b == b'0'));
    }
    let t = t.trim_start_matches('0');
    t.len() > 19 || t.parse::<u64>().map_or(false, |v| v > max)
}
/// Bad for certain as DDMM.m / DDDMM.m; without decimals is left open.
fn bad_coord(s: &str, dd: usize) -> bool {
    if s.is_empty() {
        return false;
    }
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    !(a.len() == dd + 2 && a.bytes().all(|c| c.is_ascii_digit()) && b.bytes().all(|c| c.is_ascii_digit()))
}
pub const NASTY: &[&str] = &[
    "x", "1x", "x1", "nan", "NaN", "inf", "-inf", "+inf", "infinity", "Infinity", "1e3", "1E3", "1e-3", "e", "1e", "0x10", "0b1", " 1", "1 ", " ", "--1", "++1", "+-1",
    "1.2.3", ".", "..", "-", "+", "-.", "1-2", "1-", "\u{661}", "\u{bd}", "\u{ff11}", "1\u{a0}", "1_000", "_1", "M", "N", "E", "W", "A", "V", "1;2", "1/2", "1:2", "12'30", "$1", "1.5x",
    "x1.5", "1.5e", "1..5", "1. 5", "\t1", "1\t", "1\n", "1\r", "\u{0}", "1\u{0}", "\u{feff}1", "\u{2212}1", "none", "null", "true", "#", "?", "%", "1%", "I", "O", "l0", "1f64", "0.0.0", "1\u{b0}",
];
const NASTY_UINT: &[&str] = &[
    "256", "257", "300", "511", "512", "999", "1000", "65536", "65537", "65792", "99999", "4294967296", "4294967297", "4294967295", "18446744073709551616", "18446744073709551617",
    "99999999999999999999999", "-1", "-5", "-128", "-255", "1.5", "0.5", "12.34",
];
const NASTY_COORD: &[&str] = &[
    "48", "480", "x", "1", ".", ".5", "-4807.038", "+4807.038", "-01131.000", "807.038", "14807.038", "1131.000", "001131.000", "48.117", "11.5", "4807..038", "4807.038.1", "4807.038N", "4807.038 ", " 4807.038",
    "48 7.038", "48\u{b0}07.038", "48o7.038", "4807.03x", "x4807.038", "4807.038x", "4807.x38", "4807,038", "nan", "inf", "1e3", "4807.0e1", "4807.038\n", "\n4807.038", "\u{661}\u{662}\u{663}\u{664}.0", "\u{ff14}807.038",
    "01131.000x", "x01131.000", "0x131.000", "01131.000\u{0}", "01131.000e", "01131..0", "0113l.000", "4807:038", "4807-038", "48-07.038", "480-7.038", "4807.-38", "4807.+38", "0807.038E", "N", "E",
    "4807.038N4807.038", "01131.00001131.000x", "4807.038 N", "4 807.038",
];
fn gen_bad(src: &mut Src, kind: &Kind, good: &str) -> String {
    for _ in 0..40 {
        let s = match kind {
            Kind::Code(bad) => src.pick(bad).to_string(),
            Kind::Dec | Kind::Uint(_) if src.chance(1, 12) => {
                // more digits than any type can hold
                let mut t = String::from(src.pick(&["", "-", "000"]));
                t.push((b'1' + src.below(9) as u8) as char);
                let d = (b'0' + src.below(10) as u8) as char;
                for _ in 0..309 + src.usize(200) {
                    t.push(d);
                }
                t + src.pick(&["", ".0", ".75"])
            }
            _ => match src.below(4) {
                0 => src.pick(NASTY).to_string(),
                1 => match kind {
                    Kind::Uint(_) => src.pick(NASTY_UINT).to_string(),
                    Kind::Coord(_) => src.pick(NASTY_COORD).to_string(),
                    _ => src.pick(NASTY).to_string(),
                },
                2 => {
                    // an edit of a good value
                    let mut c: Vec<char> = if good.is_empty() { "12.5".chars().collect() } else { good.chars().collect() };
                    let i = src.usize(c.len());
                    let x = gen_char(src);
                    match src.below(4) {
                        0 => c[i] = x,
                        1 => c.insert(i, x),
                        2 => c.push(x),
                        _ => {
                            c.remove(i);
                        }
                    }
                    c.into_iter().collect()
                }
                _ => {
                    let n = 1 + src.usize(8);
                    (0..n).map(|_| gen_char(src)).collect()
                }
            },
        };
        if s.contains(',') || s.contains('*') {
            continue;
        }
        if is_bad(kind, &s) {
            return s;
        }
    }
    match kind {
        Kind::Code(b) => b[0].to_string(),
        _ => "x".into(),
    }
}
fn is_bad(kind: &Kind, s: &str) -> bool {
    match kind {
        Kind::Dec => bad_decimal(s) || too_large(s),
        Kind::Uint(m) => bad_uint(s, *m),
        Kind::Nan => bad_decimal(s),
        Kind::Coord(d) => bad_coord(s, *d),
        Kind::Code(b) => b.contains(&s),
    }
}
pub fn gen_char(src: &mut Src) -> char {
    match src.below(4) {
        0 => (b'0' + src.below(10) as u8) as char,
        1 => (33 + src.below(94) as u8) as char,
        2 => src.pick(&['.', '-', '+', 'e', 'E', ' ', 'x', 'n', 'N', '_', 'i', 'f', '\'', '"', '\u{661}', '\u{ff11}', '\u{e9}', '\u{a0}', '\u{20ac}', '\u{1f600}', '\u{0}', '\t', '\n', '\r', '\u{7f}']),
        _ => (b'a' + src.below(26) as u8) as char,
    }
}
#[derive(Clone)]
enum Kind {
    Dec,
    Uint(u64),
    /// merely "not a number"
    Nan,
    Coord(usize),
    Code(&'static [&'static str]),
}
const BAD_STATUS: &[&str] = &["X", "a", "v", "AV", "AA", " A", "A ", "1", "0", "D", "?", "\u{410}", "true", "-", "N", "W"];
const BAD_SIDE: &[&str] = &["", "N", "S", "e", "w", "EW", "X", "E ", " W", "1", "-", "East", "\u{415}", "M"];
const BAD_MODE: &[&str] = &["X", "a", "m", "AM", "AA", " A", "1", "0", "D", "?", "-", "3", "\u{410}", "Auto"];
const BAD_FIX: &[&str] = &["0", "4", "5", "9", "12", "13", "33", "x", "A", "-1", "2D", "3D", "2 ", " 3", "255", "\u{663}", "nan", "N"];
const BAD_FAA: &[&str] = &["X", "a", "d", "e", "n", "s", " A", "A ", "AD", "DA", "Dx", "1", "0", "?", "-", "\u{410}", "\tE", "N\r", "S\n", "\u{c4}", "B", "Z", "Auto", "NN", "\u{0}A"];
const BAD_VALID: &[&str] = &["X", "a", "v", "AV", "AA", " A", "A ", "V ", "1", "0", "?", "\u{410}", "true", "-", "N", "D", "A\r", "\tV"];
/// Whether a field of this type and place only loses its own value when malformed.
fn soft(ty: usize, i: usize) -> bool {
    ty == VTG || (ty == GLL && i >= 6)
}
/// Fields of a sentence type whose malformation rejects the sentence (or, where `soft`, the value).
fn strict(ty: usize) -> Vec<(usize, Kind)> {
    use Kind::*;
    match ty {
        GGA => vec![(2, Coord(2)), (4, Coord(3)), (6, Uint(255)), (7, Uint(255)), (8, Dec), (9, Dec), (11, Dec), (13, Dec), (14, Uint(65535))],
        RMC => vec![(2, Code(BAD_STATUS)), (3, Coord(2)), (5, Coord(3)), (7, Dec), (8, Dec), (10, Dec), (11, Code(BAD_SIDE))],
        GSA => {
            let mut v = vec![(1, Code(BAD_MODE)), (2, Code(BAD_FIX))];
            for i in 3..15 {
                v.push((i, Uint(255)));
            }
            v.extend([(15, Dec), (16, Dec), (17, Dec)]);
            v
        }
        GLL => vec![(1, Coord(2)), (3, Coord(3)), (6, Code(BAD_VALID)), (7, Code(BAD_FAA))],
        VTG => vec![(1, Dec), (3, Dec), (5, Dec), (7, Dec), (9, Code(BAD_FAA))],
        _ => vec![(1, Nan), (2, Nan)],
    }
}
impl Property for Malformed {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "A case is a generated valid sentence of which one or more fields are replaced by text that is malformed for certain (a fixed list, an edit of a good value, or random characters, filtered by an independent grammar; forms left open by the property are skipped). GGA, RMC, GLL, GSA and a GSV count or number: the answer must be an invalid-sentence error. VTG, GSV entries and the flag and mode letter of GLL: compared with the same sentence with the field empty. Sweeps: every field of every sentence type x every string of the lists. Non-trivial: every case (each contains a malformed field)."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 12_000_000, guided: 2_000_000, sweep_reps: 24 }
        } else {
            Plan { random: 360_000, guided: 120_000, sweep_reps: 2 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for ty in 0..7u64 {
            let nf = if ty == 6 { 16 } else { strict(ty as usize).len() as u64 };
            for i in 0..nf {
                for s in 0..(NASTY.len() + NASTY_UINT.len() + NASTY_COORD.len()) as u64 {
                    v.push(vec![ty, 1, i, s]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        for s in [
            "$GPGGA,123519,4807.038x,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,",
            "$GPGGA,123519,x4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,",
            "$GPGGA,123519,4807.038,N,01131.000,E,1,08,nan,545.4,M,46.9,M,,",
            "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,inf,M,46.9,M,,",
            "$GPGGA,123519,4807.038,N,01131.000,E,1,256,0.9,545.4,M,46.9,M,,",
            "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,65536",
            "$GPRMC,225446,X,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E",
            "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,",
            "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3",
            "$GPRMC,225446,A,4916.45,N,12311.12,W,1e3,054.7,191120,,",
            "$GPGSA,Z,3,,,,,,,,,,,,,,,",
            "$GPGSA,A,4,,,,,,,,,,,,,,,",
            "$GPGSA,A,3,256,,,,,,,,,,,,,,",
            "$GPGLL,abc,N,12311.12,W,225444,A",
            "$GPGSV,x,1,08,01,40,083,46",
            "$GPGSV,2,x,08,01,40,083,46",
            &format!("$GPGGA,123519,4807.038,N,01131.000,E,1,08,{:0400}.9,545.4,M,46.9,M,,", 0).replace(",000", ",100"),
            &format!("$GPGSA,A,3,,,,,,,,,,,,,1{:0309},,", 0),
        ] {
            let r = once(ctx, s);
            ensure!(matches!(r, Err(ParseError::InvalidSentence(_))), "{} -> {:?}", s, r);
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let ty = src.usize(7);
        let sweep = src.below(2) == 1;
        let talker_i;
        let (mut fi, mut si) = (0usize, 0usize);
        let total = NASTY.len() + NASTY_UINT.len() + NASTY_COORD.len();
        let nf = if ty == 6 { 16 } else { strict(ty).len() };
        if sweep {
            fi = src.usize(nf);
            si = src.usize(total);
        }
        talker_i = src.usize(NAV_TALKERS.len());
        let talker = NAV_TALKERS[talker_i];
        let listed = |k: &Kind, si: usize| -> Option<String> {
            let s = if si < NASTY.len() {
                NASTY[si]
            } else if si < NASTY.len() + NASTY_UINT.len() {
                NASTY_UINT[si - NASTY.len()]
            } else {
                NASTY_COORD[si - NASTY.len() - NASTY_UINT.len()]
            };
            if let Kind::Code(b) = k {
                return Some(b[si % b.len()].to_string());
            }
            if !s.contains(',') && is_bad(k, s) {
                Some(s.to_string())
            } else {
                None
            }
        };
        if ty >= 5 {
            return self.gsv(src, ctx, ty, sweep, fi, si, talker, &listed);
        }
        let mut f = fields_of(&gen_gnss_body(src, ty, talker));
        let spec = strict(ty);
        let times = if sweep { 1 } else { 1 + src.usize(3) };
        let good = f.clone();
        let mut changed = vec![];
        for _ in 0..times {
            let k = if sweep { fi } else { src.usize(spec.len()) };
            let (i, kind) = &spec[k];
            let b = if sweep {
                match listed(kind, si) {
                    Some(b) => b,
                    None => return Ok(()),
                }
            } else {
                gen_bad(src, kind, &good[*i])
            };
            if ty == RMC && *i == 11 && (f[10].is_empty() || changed.contains(&10)) {
                // a side only matters with a variation
                if f[10].is_empty() {
                    f[10] = "020.3".into();
                }
            }
            f[*i] = b;
            changed.push(*i);
        }
        ctx.nontrivial();
        ctx.class(NAMES[ty]);
        let body = f.join(",");
        let s = seal_any(src, body);
        let r = once(ctx, &s);
        if changed.iter().all(|i| soft(ty, *i)) {
            let mut g = good;
            for i in &changed {
                g[*i] = String::new();
            }
            let want = once(ctx, &g.join(","));
            ensure!(matches!(want, Ok(ParsedSentence::Vtg(_)) | Ok(ParsedSentence::Gll(_))), "{:?} answered with {:?}", g.join(","), want);
            ensure!(same(&r, &want), "{:?}: malformed field {:?} gives {:?}, want {:?}", s, changed, r, want);
            return Ok(());
        }
        ensure!(matches!(r, Err(ParseError::InvalidSentence(_))), "malformed field {:?} of {:?} answered with {:?}", changed, s, r);
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["left open and not generated: \"+5\", \"5.\", \".5\", \"7.0\" or \"-0\" for an integer, a coordinate without decimals, coordinates beyond 90/180 degrees, the FAA letters of later NMEA versions (F, M, P, R)"]
    }
}
impl Malformed {
    fn gsv(&self, src: &mut Src, ctx: &mut Ctx, ty: usize, sweep: bool, fi: usize, si: usize, talker: &str, listed: &dyn Fn(&Kind, usize) -> Option<String>) -> R {
        let kinds = [Kind::Uint(255), Kind::Uint(255), Kind::Uint(65535), Kind::Uint(255)];
        let mut f: Vec<String> = vec![format!("${}GSV", talker), "1".into(), "1".into(), "04".into()];
        for _ in 0..4 {
            let e = loop {
                let e = gen_gsv_entry(src);
                if e.1.is_some() || src.bool() {
                    break e.0;
                }
            };
            f.extend(fields_of(&e));
        }
        ctx.nontrivial();
        if ty == 5 {
            // the count or the number
            let i = if sweep { 1 + fi } else { 1 + src.usize(2) };
            let b = if sweep {
                match listed(&Kind::Nan, si) {
                    Some(b) => b,
                    None => return Ok(()),
                }
            } else {
                gen_bad(src, &Kind::Nan, "2")
            };
            let c = 1 + src.below(4);
            f[1] = c.to_string();
            f[2] = (1 + src.below(c)).to_string();
            f[i] = b;
            ctx.class("GSV count or number");
            let s = seal_any(src, f.join(","));
            let r = once(ctx, &s);
            ensure!(matches!(r, Err(ParseError::InvalidSentence(_))), "malformed field {} of {:?} answered with {:?}", i, s, r);
            return Ok(());
        }
        ctx.class("GSV entry");
        let mut want = f.clone();
        let times = if sweep { 1 } else { 1 + src.usize(4) };
        for _ in 0..times {
            let k = if sweep { fi } else { src.usize(16) };
            let b = if sweep {
                match listed(&kinds[k % 4], si) {
                    Some(b) => b,
                    None => return Ok(()),
                }
            } else {
                gen_bad(src, &kinds[k % 4], &f[4 + k])
            };
            f[4 + k] = b;
            want[4 + k] = String::new();
        }
        // expected satellites from the reference text
        let mut sats = vec![];
        for j in 0..4 {
            let e = &want[4 + 4 * j..8 + 4 * j];
            if let Ok(p) = e[0].parse::<u8>() {
                sats.push((p, e[1].parse::<u8>().ok(), e[2].parse::<u16>().ok(), e[3].parse::<u8>().ok()));
            }
        }
        let s = seal_any(src, f.join(","));
        match once(ctx, &s) {
            Ok(ParsedSentence::Gsv(v)) => {
                let got: Vec<_> = v.iter().map(|g| (g.prn_number, g.elevation, g.azimuth, g.snr)).collect();
                ensure!(got == sats, "{:?}: satellites {:?}, want {:?}", s, got, sats);
                Ok(())
            }
            r => Err(format!("{:?} answered with {:?}", s, r)),
        }
    }
}
