//! Sentence and payload builders, value generators, and small reference functions.
#![allow(static_mut_refs)]
use crate::engine::*;
use crate::rt;
use nmea_parser::*;
use std::sync::OnceLock;

pub type Res = Result<ParsedSentence, ParseError>;

// ---- the parser under test ----------------------------------------------------------------------
pub struct P {
    pub inner: NmeaParser,
    young: bool,
    /// Whether records are logged while this parser runs, once known
    logs: Option<bool>,
}
/// Sentences of a long earlier life; all complete.
const LIFE: &[&str] = &[
    "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*4B",
    "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3",
    "!AIVDM,1,1,,B,B52K>;h00Fc>jpUlNV@ikwpUoP06,0",
    "$GPGSV,1,1,01,01,40,083,46",
    "$GPZDA,201530.00,04,07,2002,00,00",
    "!AIVDM,1,1,,B,402=481uaUcf;OQ55JS9ITi025Jp,0",
    "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A",
    "!AIVDM,1,1,,A,H42O55i18tMET00000000000000,2",
    "!AIVDM,1,1,,A,H42O55lt0000000D3nink000?0500,0",
    "$GNGLL,,N,,W,225444,A,D",
    "!AIVDM,2,1,7,Q,55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8,0",
    "!AIVDM,2,2,7,Q,88888888880,2",
];
impl P {
    pub fn new() -> P {
        P { inner: NmeaParser::new(), young: unsafe { AGED }, logs: None }
    }
    /// An earlier life: what a parser was given before must not change what the sentences of the case
    /// mean. A quarter of the parsers of a case start with complete (or rejected) sentences before
    /// `s`, related to it (the same vessel, the same talker, a copy) or not, at another time; some with
    /// hundreds and a few with 70 000. It depends on `s` only, not on choices of the case.
    fn age(&mut self, ctx: &mut Ctx, s: &str) {
        let h = hash_of(s);
        let clock = unsafe { rt::CLOCK };
        let hash = ctx.hash;
        let long = match (h % (1 << 16), h % (1 << 12)) {
            (77, _) => 70_000,
            (_, 78) => 300 + (h >> 32) as usize % 900,
            _ => 0,
        };
        if long > 0 {
            ctx.note(|| format!("{} earlier sentences", long));
            let v = ctx.verbose;
            ctx.verbose = false;
            for i in 0..long / LIFE.len() * LIFE.len() {
                let _ = self.parse(ctx, LIFE[i % LIFE.len()]);
            }
            ctx.verbose = v;
        } else if h % 4 == 0 {
            for x in earlier_life(s, h) {
                if let Some((t, ns)) = clock {
                    let d = [0, 0, 0, 1, 60, 3600, 86_400, 40 * 86_400, 400 * 86_400, 36_600 * 86_400][(h >> 8) as usize % 10];
                    unsafe { rt::CLOCK = Some(((t - d).max(0), ns)) };
                }
                let _ = self.parse(ctx, &x);
            }
        }
        unsafe { rt::CLOCK = clock };
        ctx.hash = hash;
    }
    /// Three quarters of the parsers run with a logger that takes everything, the others with none.
    /// It depends on their first sentence only.
    pub fn set_logging(&mut self, s: &str) {
        let on = *self.logs.get_or_insert_with(|| unsafe { GUIDED } || hash_of(s) >> 20 & 3 != 0);
        rt::logging(on);
    }
    pub fn parse(&mut self, ctx: &mut Ctx, s: &str) -> Res {
        if self.young {
            self.young = false;
            self.age(ctx, s);
        }
        self.set_logging(s);
        in_parser(true);
        let (r, w) = rt::guarded(s.len(), || self.inner.parse_sentence(s));
        in_parser(false);
        ctx.last = w;
        ctx.parses += 1;
        ctx.hash_bytes(s.as_bytes());
        ctx.note(|| {
            let mut q = format!("{:?}", s);
            let mut t = format!("{:?}", r);
            for x in [&mut q, &mut t] {
                if x.len() > 1500 {
                    let mut e = 1500;
                    while !x.is_char_boundary(e) {
                        e -= 1;
                    }
                    x.truncate(e);
                    x.push_str("...");
                }
            }
            format!("parse_sentence({}) -> {}", q, t)
        });
        r
    }
}
fn hash_of(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in s.bytes() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h)
}
static mut LIFE_CHOICES: *mut Shared = std::ptr::null_mut();
/// Complete sentences that may have come before `s`.
pub fn earlier_life(s: &str, h: u64) -> Vec<String> {
    with_private(h, |src| life(src, s))
}
/// Random choices that depend on `h` only.
pub fn with_private<T>(h: u64, f: impl FnOnce(&mut Src) -> T) -> T {
    let sh = unsafe {
        if LIFE_CHOICES.is_null() {
            LIFE_CHOICES = std::alloc::alloc_zeroed(std::alloc::Layout::new::<Shared>()) as *mut Shared;
        }
        LIFE_CHOICES
    };
    f(&mut Src::private(Rng::new(h), sh))
}
fn life(src: &mut Src, s: &str) -> Vec<String> {
    let f: Vec<&str> = s.split(',').collect();
    let is_ais = s.starts_with('!');
    let talker: String = s.chars().skip(1).take(2).collect();
    let nav = if !is_ais && talker.len() == 2 && src.chance(2, 3) { talker.clone() } else { src.pick(NAV_TALKERS).to_string() };
    let mut mmsi = None;
    if is_ais && f.len() > 5 && (f[1] == "1" || f[2] == "1") && f[5].len() >= 7 && f[5].is_ascii() && src.chance(3, 4) {
        let mut v = 0u64;
        for c in f[5].bytes().take(7) {
            v = v << 6 | (c.wrapping_sub(if c < 88 { 48 } else { 56 }) & 63) as u64;
        }
        mmsi = Some(v >> 4 & ((1 << 30) - 1));
    }
    let mut out = vec![];
    for _ in 0..1 + src.below(3) {
        match src.below(10) {
            0 => {
                // the sentence itself
                let single = if is_ais { f.len() > 5 && f[1] == "1" && !f[5].starts_with('H') } else { !s.contains("GSV") };
                if single {
                    out.push(s.to_string());
                }
            }
            1 if s.is_ascii() => out.push(format!("{}*{:02X}", s.split('*').next().unwrap(), xor(s.split('*').next().unwrap()) ^ 0x11)),
            2 => out.push(src.pick(&["$GPZDA,201530.00,04,07,2002,00,00", "!AIVDM,1,1,,A,85Mwp`1Kf3aCnsNvBWLi=wQuNhA5t43N`5nCuI=p<IBfVqnMgPGs,0", "GPGLL", "", "!AIVDM,3,1,1,A,85Mwp,0", "$GPGLL,4916.4,N,x,W,225444,A,D"]).to_string()),
            3 => out.push(format!("${}GSV,1,1,04,{},{}", nav, gen_gsv_entry(src).0, gen_gsv_entry(src).0)),
            4 | 5 if !is_ais => {
                let ty = src.usize(5);
                out.push(gen_gnss_body(src, ty, &nav));
            }
            6 => {
                // a complete pair
                let (mut a, mut b) = (gen_msg(src, 24), gen_msg(src, 124));
                let m = mmsi.unwrap_or_else(|| get(&a, 8, 30));
                put(&mut a, 8, 30, m);
                put(&mut b, 8, 30, m);
                let mut hd = Head::plain();
                hd.own = src.bool();
                out.extend(hd.sentences(&armour(&a)));
                out.extend(hd.sentences(&armour(&b)));
            }
            k => {
                let ty = src.pick(&[1u64, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27]);
                let mut b = gen_msg(src, ty);
                if let Some(m) = mmsi {
                    put(&mut b, 8, 30, m);
                }
                let mut hd = Head::plain();
                hd.own = src.bool();
                if k == 9 {
                    // in two sentences, under the header of the sentence to come
                    hd.id = f.get(3).filter(|x| is_ais && !x.is_empty()).unwrap_or(&"4").to_string();
                    if hd.id.parse::<u64>().is_err() {
                        hd.id = "4".into();
                    }
                    hd.chan = CHANS.iter().find(|c| f.get(4) == Some(c)).unwrap_or(&"B");
                    hd.split = Some(20);
                }
                out.extend(hd.sentences(&armour(&b)));
            }
        }
    }
    out
}
pub fn once(ctx: &mut Ctx, s: &str) -> Res {
    P::new().parse(ctx, s)
}
/// Calls other code of the crate under test (accessors, Display) with the same protection.
pub fn api<T>(f: impl FnOnce() -> T) -> T {
    in_parser(true);
    let (r, _) = rt::guarded(100, f);
    in_parser(false);
    r
}
pub fn same(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y || format!("{:?}", x) == format!("{:?}", y),
        (Err(x), Err(y)) => ekind(x) == ekind(y),
        _ => false,
    }
}
pub fn ekind(e: &ParseError) -> &'static str {
    match e {
        ParseError::UnsupportedSentenceType(_) => "unsupported",
        ParseError::CorruptedSentence(_) => "corrupted",
        ParseError::InvalidSentence(_) => "invalid",
    }
}
pub fn kind(r: &Res) -> &'static str {
    match r {
        Ok(ParsedSentence::Incomplete) => "incomplete",
        Ok(_) => "data",
        Err(e) => ekind(e),
    }
}
pub fn is_incomplete(r: &Res) -> bool {
    matches!(r, Ok(ParsedSentence::Incomplete))
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

// ---- clock --------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}
pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn dim(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 0,
    }
}
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01 of the proleptic Gregorian calendar
    let years = y - 1;
    let mut n = years * 365 + years.div_euclid(4) - years.div_euclid(100) + years.div_euclid(400);
    for k in 1..m {
        n += dim(y, k);
    }
    n + d - 1 - 719162
}
impl Civil {
    pub fn ts(&self) -> i64 {
        days_from_civil(self.y, self.mo, self.d) * 86400 + self.h * 3600 + self.mi * 60 + self.s
    }
    pub fn valid(&self) -> bool {
        (1..=12).contains(&self.mo)
            && self.d >= 1
            && self.d <= dim(self.y, self.mo)
            && (0..24).contains(&self.h)
            && (0..60).contains(&self.mi)
            && (0..60).contains(&self.s)
    }
}
impl std::fmt::Display for Civil {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:04}-{:02}-{:02} {:02}:{:02}:{:02}", self.y, self.mo, self.d, self.h, self.mi, self.s)
    }
}
pub const DEFAULT_NOW: Civil = Civil { y: 2021, mo: 6, d: 15, h: 12, mi: 34, s: 56 };
pub fn set_clock(c: Civil, ns: i64) {
    unsafe { rt::CLOCK = Some((c.ts(), ns)) }
}
pub fn now_default() {
    set_clock(DEFAULT_NOW, 0)
}
/// In some histories time passes between the sentences.
pub fn gen_pace(src: &mut Src) -> bool {
    src.chance(1, 5)
}
pub fn tick(src: &mut Src, ctx: &mut Ctx, pace: bool) {
    if pace {
        let s = src.pick(&[0i64, 0, 1, 6, 31, 61, 121, 301, 3601, 86_401, 2_600_000, 32_000_000, -3, -86_400]);
        if s != 0 {
            rt::pass(s);
            ctx.class("time passes between sentences");
            ctx.note(|| format!("{} s pass", s));
        }
    }
}
/// The system date is an input: any instant of 1970-9998, with the awkward ones favoured.
pub fn gen_clock(src: &mut Src, ctx: &mut Ctx) -> Civil {
    let mut c = DEFAULT_NOW;
    match src.below(8) {
        0 => {}
        1 | 2 => {
            c.y = 1970 + src.below(8029) as i64;
            c.mo = 1 + src.below(12) as i64;
            c.d = 1 + src.below(dim(c.y, c.mo) as u64) as i64;
            c.h = src.below(24) as i64;
            c.mi = src.below(60) as i64;
            c.s = src.below(60) as i64;
        }
        m => {
            c.y = match src.below(4) {
                0 => 2000 + src.below(100) as i64,
                1 => src.pick(&[1970i64, 1972, 1999, 2000, 2004, 2019, 2020, 2023, 2024, 2096, 2099, 2100, 2101, 2104, 2196, 2200, 2399, 2400, 9996, 9998]),
                _ => 2015 + src.below(30) as i64,
            };
            let (mo, d) = match m {
                3 => src.pick(&[(12i64, 31i64), (1, 1), (12, 30), (1, 2)]),
                4 => (2, dim(c.y, 2)),
                5 => src.pick(&[(2i64, 28i64), (3, 1), (2, 27)]),
                _ => {
                    let mo = 1 + src.below(12) as i64;
                    (mo, if src.bool() { dim(c.y, mo) } else { 1 + src.below(28) as i64 })
                }
            };
            c.mo = mo;
            c.d = d;
            let (h, mi, s) = match src.below(4) {
                0 => (0, 0, 0),
                1 => (23, 59, 59),
                2 => src.pick(&[(0i64, 0i64, 1i64), (23, 59, 58), (23, 59, 0), (0, 59, 59), (12, 0, 0), (23, 0, 0)]),
                _ => (src.below(24) as i64, src.below(60) as i64, src.below(60) as i64),
            };
            c.h = h;
            c.mi = mi;
            c.s = s;
        }
    }
    let ns = if src.chance(1, 3) { src.below(1_000_000_000) as i64 } else { 0 };
    set_clock(c, ns);
    ctx.note(|| format!("system clock {}", c));
    c
}

// ---- dictionary ---------------------------------------------------------------------------------
/// Literals of the sources under test: generator guidance only, never part of an oracle.
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}
pub static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut files = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                v.sort();
                for p in v {
                    if p.is_dir() {
                        walk(&p, out)
                    } else if p.extension().map_or(false, |e| e == "rs") {
                        out.push(p)
                    }
                }
            }
        }
        walk(std::path::Path::new("/repo/src"), &mut files);
        let mut ints = std::collections::BTreeSet::new();
        let mut strs = std::collections::BTreeSet::new();
        for f in files {
            let s = std::fs::read_to_string(f).unwrap_or_default();
            // without the unit tests
            let s = s.split("#[cfg(test)]").next().unwrap_or("").to_string();
            scan(&s, &mut ints, &mut strs);
        }
        // keep literals of the big MID table out: they are covered by their own property
        let ints: Vec<u64> = ints.into_iter().filter(|v| *v > 8).collect();
        Dict { ints, strs: strs.into_iter().collect() }
    })
}
fn scan(s: &str, ints: &mut std::collections::BTreeSet<u64>, strs: &mut std::collections::BTreeSet<String>) {
    for line in s.lines() {
        let t = line.trim();
        if t.starts_with("//") || t.contains("=> Some(\"") {
            continue;
        }
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut prev_ident = false;
        while i < b.len() {
            let c = b[i];
            if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
                break;
            }
            if c == '"' {
                let mut v = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                    }
                    if i < b.len() {
                        v.push(b[i]);
                    }
                    i += 1;
                }
                if !v.is_empty() && v.len() <= 12 && !v.contains('{') {
                    strs.insert(v);
                }
                i += 1;
                prev_ident = false;
                continue;
            }
            if c.is_ascii_digit() && !prev_ident {
                let mut v = String::new();
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_' || (b[i] == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) {
                    v.push(b[i]);
                    i += 1;
                }
                let v = v.replace('_', "");
                let mut n: Option<u64> = None;
                let w = v.trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64").trim_end_matches("i32").trim_end_matches("i64").trim_end_matches("usize");
                if let Some(h) = w.strip_prefix("0x") {
                    n = u64::from_str_radix(h, 16).ok();
                } else if let Some(h) = w.strip_prefix("0b") {
                    n = u64::from_str_radix(h, 2).ok();
                } else if let Ok(f) = w.parse::<f64>() {
                    if f.fract() == 0.0 && f < 1e18 {
                        n = Some(f as u64);
                    } else if f < 1e9 {
                        // scaled literals: tenths, 1/600, 1/600000
                        for k in [10.0, 600.0, 600000.0] {
                            ints.insert((f * k) as u64);
                        }
                    }
                }
                if let Some(n) = n {
                    ints.insert(n);
                    if n <= 360 {
                        for k in [10, 600, 600000] {
                            ints.insert(n * k);
                        }
                    }
                }
                prev_ident = false;
                continue;
            }
            prev_ident = c.is_ascii_alphanumeric() || c == '_';
            i += 1;
        }
    }
}

// ---- checksums ----------------------------------------------------------------------------------
pub fn xor(body: &str) -> u8 {
    body.bytes().skip(1).fold(0, |a, b| a ^ b)
}
pub fn with_sum(body: &str) -> String {
    format!("{}*{:02X}", body, xor(body))
}
/// No checksum, an empty one, or the right one.
pub fn seal(src: &mut Src, body: String) -> String {
    match src.below(4) {
        0 | 1 => with_sum(&body),
        2 => body,
        _ => body + "*",
    }
}

// ---- payload bits -------------------------------------------------------------------------------
pub type Bits = Vec<bool>;
pub fn get(b: &Bits, off: usize, w: usize) -> u64 {
    let mut v = 0;
    for i in off..off + w {
        v = v * 2 + if i < b.len() && b[i] { 1 } else { 0 };
    }
    v
}
pub fn geti(b: &Bits, off: usize, w: usize) -> i64 {
    let v = get(b, off, w) as i64;
    if v >= 1 << (w - 1) {
        v - (1 << w)
    } else {
        v
    }
}
pub fn put(b: &mut Bits, off: usize, w: usize, v: u64) {
    if b.len() < off + w {
        b.resize(off + w, false);
    }
    for i in 0..w {
        b[off + i] = (v >> (w - 1 - i)) & 1 == 1;
    }
}
pub fn sym_char(v: u64) -> char {
    // six-bit value to its armouring character: 0-39 -> '0'..'W', 40-63 -> '`'..'w'
    (if v < 40 { v + 48 } else { v + 56 }) as u8 as char
}
pub fn armour(b: &Bits) -> String {
    let n = (b.len() + 5) / 6;
    (0..n).map(|i| sym_char(get(b, i * 6, 6))).collect()
}
/// Value of six-bit text at an offset: up to the first @ or the field's end, without trailing blanks.
pub fn raw_text(b: &Bits, off: usize, n: usize) -> String {
    const T: &str = "@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_ !\"#$%&'()*+,-./0123456789:;<=>?";
    let t: Vec<char> = T.chars().collect();
    let mut s = String::new();
    for i in 0..n {
        let v = get(b, off + 6 * i, 6) as usize;
        if v == 0 {
            break;
        }
        s.push(t[v]);
    }
    s
}
pub fn text(b: &Bits, off: usize, n: usize) -> String {
    raw_text(b, off, n).trim_end_matches(' ').to_string()
}
pub fn opt_text(b: &Bits, off: usize, n: usize) -> Option<String> {
    let s = text(b, off, n);
    if s.is_empty() {
        None
    } else {
        Some(s)
    }
}

// ---- layouts ------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct F {
    pub name: &'static str,
    pub w: usize,
    pub off: usize,
    pub text: bool,
    pub special: &'static [u64],
}
pub const fn f(name: &'static str, w: usize, off: usize, special: &'static [u64]) -> F {
    F { name, w, off, text: false, special }
}
pub const fn t(name: &'static str, chars: usize, off: usize) -> F {
    F { name, w: chars * 6, off, text: true, special: &[] }
}
pub const LON: &[u64] = &[0x6791AC0, 0x6791ABF, 0x6791AC1, 108000000, 107999999, (1 << 28) - 108000000, (1 << 28) - 0x6791AC0, 54000000, 54600000, 1 << 27, (1 << 27) - 1, (1 << 28) - 1, 1];
pub const LAT: &[u64] = &[0x3412140, 0x341213F, 0x3412141, 54000000, 53999999, (1 << 27) - 54000000, (1 << 27) - 0x3412140, 0x6791AC0 & ((1 << 27) - 1), 1 << 26, (1 << 26) - 1, (1 << 27) - 1, 1];
pub const SOG: &[u64] = &[1023, 1022, 1021, 1, 511, 512];
pub const COG: &[u64] = &[3600, 3599, 3601, 4095, 0, 1, 511];
pub const HDG: &[u64] = &[511, 510, 359, 360, 361, 256];
pub const SEC: &[u64] = &[60, 61, 62, 63, 59, 0];
pub const ALT: &[u64] = &[4095, 4094, 4093, 0, 1];
pub const MMSI: &[u64] = &[0, 1, 201000000, 230000000, 366123456, 970000000, 972999999, 974123456, 980000000, 982300123, 992351000, 111232506, 2655619, 999999999, 1000000000, 1073741823, 227006760];
pub const SHIP: &[u64] = &[0, 9, 10, 19, 20, 29, 30, 39, 40, 49, 50, 59, 60, 70, 79, 80, 89, 90, 99, 100, 199, 200, 255];

pub const T123: &[F] = &[f("mmsi", 30, 8, MMSI), f("status", 4, 38, &[15, 14]), f("rot", 8, 42, &[128, 129, 127, 126, 130, 0, 1, 2, 254, 255]), f("sog", 10, 50, SOG), f("accuracy", 1, 60, &[1]),
    f("lon", 28, 61, LON), f("lat", 27, 89, LAT), f("cog", 12, 116, COG), f("heading", 9, 128, HDG), f("second", 6, 137, SEC), f("manoeuvre", 2, 143, &[0, 1, 2, 3]), f("raim", 1, 148, &[1]), f("radio", 19, 149, &[0, (1 << 19) - 1])];
pub const T4: &[F] = &[f("mmsi", 30, 8, MMSI), f("year", 14, 38, &[0, 1, 4, 100, 400, 1999, 2000, 2004, 2019, 2020, 2024, 2100, 9999, 10000, 16383]), f("month", 4, 52, &[0, 1, 2, 12, 13]), f("day", 5, 56, &[0, 1, 28, 29, 30, 31]),
    f("hour", 5, 61, &[0, 23, 24, 25]), f("minute", 6, 66, &[0, 59, 60, 61]), f("second", 6, 72, &[0, 59, 60, 61]), f("accuracy", 1, 78, &[1]), f("lon", 28, 79, LON), f("lat", 27, 107, LAT),
    f("epfd", 4, 134, &[0, 1, 8, 9, 15]), f("raim", 1, 148, &[1]), f("radio", 19, 149, &[0, (1 << 19) - 1])];
pub const T5: &[F] = &[f("mmsi", 30, 8, MMSI), f("version", 2, 38, &[0, 3]), f("imo", 30, 40, &[0, 1, 9074729, 999999999, (1 << 30) - 1]), t("callsign", 7, 70), t("name", 20, 112), f("shiptype", 8, 232, SHIP),
    f("bow", 9, 240, &[0, 511]), f("stern", 9, 249, &[0, 511]), f("port", 6, 258, &[0, 63]), f("starboard", 6, 264, &[0, 63]), f("epfd", 4, 270, &[0, 1, 8, 9, 15]),
    f("month", 4, 274, &[0, 1, 2, 12, 13]), f("day", 5, 278, &[0, 1, 28, 29, 30, 31]), f("hour", 5, 283, &[0, 23, 24, 25]), f("minute", 6, 288, &[0, 59, 60, 61]), f("draught", 8, 294, &[0, 1, 255]), t("destination", 20, 302)];
pub const T6: &[F] = &[f("mmsi", 30, 8, MMSI), f("sequence", 2, 38, &[0, 3]), f("destination", 30, 40, MMSI), f("retransmit", 1, 70, &[1]), f("dac", 10, 72, &[0, 1, 200, 235, 1023]), f("fid", 6, 82, &[0, 63])];
pub const T9: &[F] = &[f("mmsi", 30, 8, MMSI), f("altitude", 12, 38, ALT), f("sog", 10, 50, SOG), f("accuracy", 1, 60, &[1]), f("lon", 28, 61, LON), f("lat", 27, 89, LAT), f("cog", 12, 116, COG), f("second", 6, 128, SEC),
    f("regional", 8, 134, &[0, 255]), f("dte", 1, 142, &[1]), f("assigned", 1, 146, &[1]), f("raim", 1, 147, &[1]), f("radio", 20, 148, &[0, (1 << 20) - 1])];
pub const T10: &[F] = &[f("mmsi", 30, 8, MMSI), f("destination", 30, 40, MMSI)];
pub const T18: &[F] = &[f("mmsi", 30, 8, MMSI), f("sog", 10, 46, SOG), f("accuracy", 1, 56, &[1]), f("lon", 28, 57, LON), f("lat", 27, 85, LAT), f("cog", 12, 112, COG), f("heading", 9, 124, HDG), f("second", 6, 133, SEC),
    f("cs", 1, 141, &[1]), f("display", 1, 142, &[1]), f("dsc", 1, 143, &[1]), f("band", 1, 144, &[1]), f("msg22", 1, 145, &[1]), f("assigned", 1, 146, &[1]), f("raim", 1, 147, &[1]), f("selector", 1, 148, &[1]), f("radio", 19, 149, &[0, (1 << 19) - 1])];
pub const T21: &[F] = &[f("mmsi", 30, 8, MMSI), f("aidtype", 5, 38, &[0, 31]), t("name", 20, 43), f("accuracy", 1, 163, &[1]), f("lon", 28, 164, LON), f("lat", 27, 192, LAT), f("bow", 9, 219, &[0, 511]), f("stern", 9, 228, &[0, 511]),
    f("port", 6, 237, &[0, 63]), f("starboard", 6, 243, &[0, 63]), f("epfd", 4, 249, &[0, 1, 8, 9, 15]), f("second", 6, 253, SEC), f("offpos", 1, 259, &[1]), f("regional", 8, 260, &[0, 255]), f("raim", 1, 268, &[1]), f("virtual", 1, 269, &[1]), f("assigned", 1, 270, &[1])];
pub const T24A: &[F] = &[f("mmsi", 30, 8, MMSI), t("name", 20, 40)];
pub const T24B: &[F] = &[f("mmsi", 30, 8, MMSI), f("shiptype", 8, 40, SHIP), t("vendor", 3, 48), f("model", 4, 66, &[0, 15]), f("serial", 20, 70, &[0, 1, (1 << 20) - 1]), t("callsign", 7, 90), f("bow", 9, 132, &[0, 511]), f("stern", 9, 141, &[0, 511]),
    f("port", 6, 150, &[0, 63]), f("starboard", 6, 156, &[0, 63])];
pub const T27: &[F] = &[f("mmsi", 30, 8, MMSI), f("accuracy", 1, 38, &[1]), f("raim", 1, 39, &[1]), f("status", 4, 40, &[15, 14]),
    f("lon", 18, 44, &[108600, 108599, 108601, 108000, (1 << 18) - 108000, 181000, 1 << 17, (1 << 18) - 1, 1]), f("lat", 17, 62, &[54600, 54599, 54601, 54000, (1 << 17) - 54000, 91000, 1 << 16, (1 << 17) - 1, 1]),
    f("sog", 6, 79, &[63, 62, 0]), f("cog", 9, 85, &[511, 510, 360, 359, 0]), f("gnss", 1, 94, &[1])];

pub fn layout(ty: u64) -> (&'static [F], usize) {
    match ty {
        1 | 2 | 3 => (T123, 168),
        4 => (T4, 168),
        5 => (T5, 424),
        6 => (T6, 88),
        9 => (T9, 168),
        10 => (T10, 72),
        18 => (T18, 168),
        21 => (T21, 272),
        24 => (T24A, 160),
        124 => (T24B, 168),
        27 => (T27, 96),
        _ => (&[], 168),
    }
}
/// All message kinds with a decoder; 24 is part A and 124 part B of type 24.
pub const KINDS: &[u64] = &[1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27, 24, 124];

pub fn gen_num(src: &mut Src, w: usize, special: &[u64]) -> u64 {
    let max = if w >= 64 { 0 } else { 1u64 << w };
    match src.below(8) {
        0 | 1 | 2 => src.below(max),
        3 | 4 if !special.is_empty() => special[src.usize(special.len())],
        5 => {
            let d = &dict().ints;
            if d.is_empty() {
                return src.below(max);
            }
            let v = d[src.usize(d.len())].wrapping_add(src.below(3)).wrapping_sub(1);
            let v = if src.chance(1, 4) { v.wrapping_neg() } else { v };
            if max == 0 {
                v
            } else {
                v % max
            }
        }
        6 => {
            // powers of two and their neighbours
            let k = src.below(w as u64 + 1);
            let v = (1u128 << k) as u64;
            let v = v.wrapping_add(src.below(3)).wrapping_sub(1);
            if max == 0 {
                v
            } else {
                v % max
            }
        }
        _ => {
            let v = src.below(64);
            if max == 0 || v < max {
                v
            } else {
                v % max
            }
        }
    }
}
/// Six-bit text symbols of a field.
/// Words as six-bit symbols: what stands in for an unknown name in practice, and literals of the sources.
pub fn words() -> &'static [&'static [u64]] {
    static WORDS: OnceLock<Vec<&'static [u64]>> = OnceLock::new();
    WORDS.get_or_init(|| {
        let mut v: Vec<String> = ["UNKNOWN", "NONE", "NO NAME", "NONAME", "N/A", "NA", "NIL", "NULL", "TEST", "?", "-", "--", ".", "0", "000", "0000000", "1111111", "NOT AVAILABLE", "UNDEFINED", "NO CALL", "TBA", "TBC", ">", "=", "_", "CLASS B", "SART ACTIVE", "SART TEST", "MOB", "AIS", "HOME", "SAME"].iter().map(|s| s.to_string()).collect();
        for s in &dict().strs {
            let s = s.to_ascii_uppercase();
            if s.chars().all(|c| (' '..='_').contains(&c)) && !v.contains(&s) {
                v.push(s);
            }
        }
        v.into_iter().map(|s| &*s.bytes().map(|c| if c >= 64 { c as u64 - 64 } else { c as u64 }).collect::<Vec<u64>>().leak()).collect()
    })
}
pub fn gen_text(src: &mut Src, n: usize) -> Vec<u64> {
    let mut v = vec![0; n];
    if n == 0 {
        return v;
    }
    match src.below(8) {
        0 => {}
        1 => v.iter_mut().for_each(|x| *x = src.below(64)),
        7 => {
            // a word that somebody might treat specially, alone or with something before or after it
            let w = words();
            let w = w[src.usize(w.len())];
            let at = if src.chance(1, 4) { src.usize(n) } else { 0 };
            let fill = src.pick(&[0u64, 0, 32, 64]);
            for (i, x) in v.iter_mut().enumerate() {
                *x = match i.checked_sub(at).and_then(|k| w.get(k)) {
                    Some(c) => *c,
                    None if fill == 64 => src.below(64),
                    None if i < at => 32,
                    None => fill,
                };
            }
        }
        2 | 3 => {
            // a word, then the end marker or blanks, then possibly rubbish
            let len = src.usize(n + 1);
            for x in v.iter_mut().take(len) {
                *x = match src.below(8) {
                    0..=3 => 1 + src.below(26),
                    4 => 48 + src.below(10),
                    5 => 32,
                    6 => 1 + src.below(63),
                    _ => src.pick(&[31u64, 32, 33, 63, 1, 26, 27, 47]),
                };
            }
            let fill = src.below(3);
            for x in v.iter_mut().skip(len) {
                *x = match fill {
                    0 => 0,
                    1 => 32,
                    _ => src.below(64),
                };
            }
            if fill == 2 && len < n {
                v[len] = 0;
            }
        }
        4 => {
            // full length, no end marker
            v.iter_mut().for_each(|x| *x = 1 + src.below(63));
        }
        5 => {
            // blanks around
            let a = src.usize(n + 1);
            let b = src.usize(n + 1);
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < a || i >= b { 32 } else { 1 + src.below(63) };
            }
            if src.bool() {
                let p = src.usize(n);
                v[p] = 0;
            }
        }
        _ => {
            let sy = src.below(64);
            v.iter_mut().for_each(|x| *x = sy);
            let p = src.usize(n);
            v[p] = src.below(64);
        }
    }
    v
}
/// The first choices select at most one numeric field and its value, so that a sweep can force them.
pub fn gen_msg(src: &mut Src, ty: u64) -> Bits {
    let (lay, total) = layout(ty);
    let sel = src.usize(lay.len() + 1);
    let forced = if sel > 0 { src.below(1 << lay[sel - 1].w.min(30)) } else { 0 };
    let mut b: Bits = vec![false; total];
    // background: spare bits and repeat indicator
    match src.below(3) {
        0 => {}
        1 => b.iter_mut().for_each(|x| *x = true),
        _ => {
            for i in 0..total / 6 {
                put(&mut b, i * 6, 6, src.below(64));
            }
        }
    }
    // other fields: zero / special / random / untouched background
    let style = src.below(4);
    for (i, fl) in lay.iter().enumerate() {
        if fl.text {
            if style != 3 {
                let n = fl.w / 6;
                for (k, v) in gen_text(src, n).into_iter().enumerate() {
                    put(&mut b, fl.off + 6 * k, 6, v);
                }
            }
            continue;
        }
        let v = if i + 1 == sel {
            forced
        } else {
            match style {
                0 => {
                    if src.chance(1, 8) {
                        gen_num(src, fl.w, fl.special)
                    } else {
                        0
                    }
                }
                1 => {
                    if src.chance(1, 4) {
                        gen_num(src, fl.w, fl.special)
                    } else {
                        fl.special.get(0).copied().unwrap_or(0)
                    }
                }
                2 => gen_num(src, fl.w, fl.special),
                _ => continue,
            }
        };
        put(&mut b, fl.off, fl.w, v);
    }
    fix_type(&mut b, ty);
    b
}
pub fn fix_type(b: &mut Bits, ty: u64) {
    let t = if ty == 124 { 24 } else { ty };
    put(b, 0, 6, t);
    if ty == 24 {
        put(b, 38, 2, 0);
    } else if ty == 124 {
        put(b, 38, 2, 1);
    }
}
/// Sweep prefixes [field + 1, value] over every numeric field of a layout.
pub fn layout_sweeps(ty: u64, thorough: bool) -> Vec<Vec<u64>> {
    let (lay, _) = layout(ty);
    let mut out = vec![];
    for (i, fl) in lay.iter().enumerate() {
        if fl.text {
            continue;
        }
        for v in sweep_values(fl.w, fl.special, thorough) {
            out.push(vec![i as u64 + 1, v]);
        }
    }
    out
}
pub fn sweep_values(w: usize, special: &[u64], thorough: bool) -> Vec<u64> {
    let max = 1u64 << w;
    let full = if thorough { 14 } else { 12 };
    if w <= full {
        return (0..max).collect();
    }
    let mut s = std::collections::BTreeSet::new();
    for k in 0..=w {
        for d in 0..5u64 {
            s.insert(((1u64 << k) + d).wrapping_sub(2) % max);
        }
    }
    for v in special.iter().chain(dict().ints.iter()) {
        for d in 0..3u64 {
            s.insert((v + d).wrapping_sub(1) % max);
            s.insert(v.wrapping_neg().wrapping_add(d).wrapping_sub(1) % max);
        }
    }
    let n = if thorough { 60_000 } else { 1500 };
    let step = (max / n).max(1) | 1;
    let mut v = 0;
    while v < max {
        s.insert(v);
        v += step;
    }
    s.into_iter().collect()
}

// ---- delivery of an AIS payload -------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Head {
    pub talker: String,
    pub own: bool,
    pub id: String,
    pub chan: &'static str,
    pub fill: String,
    pub split: Option<usize>,
    pub swap: bool,
    pub seal: u64,
}
impl Head {
    pub fn plain() -> Head {
        Head { talker: "AI".into(), own: false, id: "".into(), chan: "A", fill: "0".into(), split: None, swap: false, seal: 0 }
    }
    pub fn kind(&self) -> &'static str {
        if self.own {
            "VDO"
        } else {
            "VDM"
        }
    }
    pub fn sentences(&self, payload: &str) -> Vec<String> {
        let fin = |b: String| match self.seal {
            0 => with_sum(&b),
            1 => b,
            _ => b + "*",
        };
        match self.split {
            None => vec![fin(format!("!{}{},1,1,{},{},{},{}", self.talker, self.kind(), self.id, self.chan, payload, self.fill))],
            Some(k) => {
                let k = k.min(payload.len());
                let a = fin(format!("!{}{},2,1,{},{},{},0", self.talker, self.kind(), self.id, self.chan, &payload[..k]));
                let b = fin(format!("!{}{},2,2,{},{},{},{}", self.talker, self.kind(), self.id, self.chan, &payload[k..], self.fill));
                if self.swap {
                    vec![b, a]
                } else {
                    vec![a, b]
                }
            }
        }
    }
    pub fn station(&self) -> ais::Station {
        station_of(&self.talker)
    }
}
pub fn station_of(t: &str) -> ais::Station {
    use ais::Station::*;
    match t {
        "AB" => BaseStation,
        "AD" => DependentAisBaseStation,
        "AI" => MobileStation,
        "AN" => AidToNavigationStation,
        "AR" => AisReceivingStation,
        "AS" => LimitedBaseStation,
        "AT" => AisTransmittingStation,
        "AX" => RepeaterStation,
        _ => Other,
    }
}
pub fn nav_of(t: &str) -> gnss::NavigationSystem {
    use gnss::NavigationSystem::*;
    match t {
        "GN" => Combination,
        "GP" => Gps,
        "GL" => Glonass,
        "GA" => Galileo,
        "BD" => Beidou,
        "GI" => Navic,
        "QZ" => Qzss,
        _ => Other,
    }
}
pub const AIS_TALKERS: &[&str] = &["AI", "AB", "AD", "AN", "AR", "AS", "AT", "AX", "BS", "SA", "AC", "XX"];
pub const NAV_TALKERS: &[&str] = &["GP", "GN", "GL", "GA", "BD", "GI", "QZ", "GB", "GQ", "II"];
pub const CHANS: &[&str] = &["A", "B", "1", "2", ""];
/// Channels that resemble each other.
pub const ODD_CHANS: &[&str] = &["A", "a", "A1", "AB", "A2", "B", "b", "C", "D", "3", "AA"];
pub fn gen_id(src: &mut Src) -> u64 {
    match src.below(4) {
        0 | 1 => src.below(10),
        2 => src.below(100_000),
        _ => src.pick(&[9u64, 10, 99, 100, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]),
    }
}
pub fn gen_head(src: &mut Src, len: usize) -> Head {
    let mut h = Head::plain();
    if src.below(5) < 3 {
        return h;
    }
    h.talker = src.pick(AIS_TALKERS).to_string();
    h.own = src.bool();
    h.chan = src.pick(CHANS);
    h.fill = src.below(6).to_string();
    h.seal = src.below(3);
    if src.chance(1, 3) {
        h.split = Some(match src.below(3) {
            0 => src.usize(len + 1),
            1 => len.min(60),
            _ => len.min(1 + src.usize(len.max(1))),
        });
        h.swap = src.bool();
        h.id = gen_id(src).to_string();
    } else if src.chance(1, 3) {
        h.id = gen_id(src).to_string();
    }
    h
}
/// Sends all sentences of the head; every one but the last must be answered with Incomplete.
pub fn deliver(p: &mut P, ctx: &mut Ctx, h: &Head, payload: &str) -> Result<Res, String> {
    let s = h.sentences(payload);
    let n = s.len();
    for (i, x) in s.iter().enumerate() {
        let r = p.parse(ctx, x);
        if i + 1 == n {
            return Ok(r);
        }
        ensure!(is_incomplete(&r), "first part of a two-part message answered with {:?}", r);
    }
    unreachable!()
}

// ---- comparison helpers ---------------------------------------------------------------------------
pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs().max(1.0)
}
pub fn oclose(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => close(x, y),
        _ => false,
    }
}
#[derive(Default)]
pub struct Diffs(pub Vec<String>);
impl Diffs {
    pub fn f(&mut self, name: &str, got: Option<f64>, want: Option<f64>) {
        if !oclose(got, want) {
            self.0.push(format!("{}: got {:?}, transmitted {:?}", name, got, want));
        }
    }
    pub fn e<T: PartialEq + std::fmt::Debug>(&mut self, name: &str, got: &T, want: &T) {
        if got != want {
            self.0.push(format!("{}: got {:?}, transmitted {:?}", name, got, want));
        }
    }
    pub fn done(self, what: &str) -> R {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{}: {}", what, self.0.join("; ")))
        }
    }
}

// ---- GNSS sentences ---------------------------------------------------------------------------------
pub fn gnss(talker: &str, ty: &str, fields: &[String]) -> String {
    let mut s = format!("${}{}", talker, ty);
    for x in fields {
        s.push(',');
        s.push_str(x);
    }
    s
}
/// A plain decimal number and its value; at most `frac` decimals.
pub fn gen_decimal(src: &mut Src, neg: bool) -> (String, f64) {
    let mut n: u128 = 0;
    let mut s = String::new();
    let int_digits = match src.below(4) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => 1 + src.usize(6),
    };
    let frac = match src.below(4) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => src.usize(9),
    };
    let minus = neg && src.chance(1, 3);
    let small = src.chance(1, 8);
    for _ in 0..int_digits {
        let d = if small { 0 } else { src.below(10) };
        n = n * 10 + d as u128;
        s.push((b'0' + d as u8) as char);
    }
    if frac > 0 {
        s.push('.');
        for _ in 0..frac {
            let d = src.below(10);
            n = n * 10 + d as u128;
            s.push((b'0' + d as u8) as char);
        }
    }
    let mut v = n as f64 / 10f64.powi(frac as i32);
    if minus {
        s.insert(0, '-');
        v = -v;
    }
    (s, v)
}
/// Empty or a decimal number.
pub fn gen_opt_decimal(src: &mut Src, neg: bool) -> (String, Option<f64>) {
    if src.chance(1, 5) {
        (String::new(), None)
    } else {
        let (s, v) = gen_decimal(src, neg);
        (s, Some(v))
    }
}
/// A coordinate with `dd` degree digits: (text, degrees as a value)
pub fn gen_coord(src: &mut Src, lat: bool) -> (String, f64) {
    let max = if lat { 90 } else { 180 };
    if src.chance(1, 12) {
        // a round one: the equator, the meridian, a pole
        let d = src.pick(&[0, 0, 0, 1, max / 2, max]);
        let s = format!("{:0w$}00.{}", d, src.pick(&["0", "00", "000", "0000"]), w = if lat { 2 } else { 3 });
        return (s.clone(), coord_value(&s, if lat { 2 } else { 3 }));
    }
    let deg = match src.below(4) {
        0 => src.pick(&[0u64, 1, 9, 10, 59, 60, 89, 99, 100, 179]) % max,
        1 => max,
        _ => src.below(max),
    };
    let min = if deg == max { 0 } else { src.below(60) };
    let nfrac = match src.below(6) {
        0 => 1,
        1 => 2,
        2 => 3 + src.usize(3),
        3 => 1 + src.usize(12),
        4 => 12 + src.usize(14),
        _ => 1 + src.usize(60),
    };
    let style = src.below(3);
    let mut frac = String::new();
    for _ in 0..nfrac {
        let d = if deg == max {
            0
        } else {
            match style {
                0 => src.below(10),
                1 => 9,
                _ => 0,
            }
        };
        frac.push((b'0' + d as u8) as char);
    }
    if deg != max && src.bool() {
        frac.pop();
        frac.push((b'0' + src.below(10) as u8) as char);
    }
    let s = if lat { format!("{:02}{:02}.{}", deg, min, frac) } else { format!("{:03}{:02}.{}", deg, min, frac) };
    (s.clone(), coord_value(&s, if lat { 2 } else { 3 }))
}
/// Reference conversion in integers: degrees + minutes/60.
pub fn coord_value(s: &str, dd: usize) -> f64 {
    let deg: u64 = s[..dd].parse().unwrap();
    let (m, fr) = s[dd..].split_once('.').unwrap();
    // 18 decimals are far below the tolerance
    let mut fr: String = fr.chars().take(18).collect();
    while fr.len() < 18 {
        fr.push('0');
    }
    let units: u128 = m.parse::<u128>().unwrap() * 1_000_000_000_000_000_000 + fr.parse::<u128>().unwrap();
    // degrees in units of 1/(60 * 10^18)
    let total: u128 = deg as u128 * 60 * 1_000_000_000_000_000_000 + units;
    let den: u128 = 60 * 1_000_000_000_000_000_000;
    (total / den) as f64 + ((total % den) as f64) / den as f64
}

// ---- any valid stream, for the properties about histories -----------------------------------------
pub fn gen_gnss_body(src: &mut Src, ty: usize, talker: &str) -> String {
    let lat = |src: &mut Src| if src.chance(1, 6) { (String::new(), String::new()) } else { (gen_coord(src, true).0, src.pick(&["N", "S"]).to_string()) };
    let lon = |src: &mut Src| if src.chance(1, 6) { (String::new(), String::new()) } else { (gen_coord(src, false).0, src.pick(&["E", "W"]).to_string()) };
    let time = |src: &mut Src| format!("{:02}{:02}{:02}{}", src.below(24), src.below(60), src.below(60), src.pick(&["", ".00", ".123"]));
    let mut v: Vec<String> = vec![];
    match ty {
        0 => {
            v.push(time(src));
            let a = lat(src);
            let o = lon(src);
            v.extend([a.0, a.1, o.0, o.1]);
            v.push(src.below(9).to_string());
            v.push(format!("{:02}", src.below(30)));
            v.push(gen_opt_decimal(src, false).0);
            v.push(gen_opt_decimal(src, true).0);
            v.push("M".into());
            v.push(gen_opt_decimal(src, true).0);
            v.push("M".into());
            v.push(gen_opt_decimal(src, false).0);
            v.push(format!("{:04}", src.below(4096)));
            gnss(talker, "GGA", &v)
        }
        1 => {
            v.push(time(src));
            v.push(src.pick(&["A", "V", ""]).to_string());
            let a = lat(src);
            let o = lon(src);
            v.extend([a.0, a.1, o.0, o.1]);
            v.push(gen_opt_decimal(src, false).0);
            v.push(gen_opt_decimal(src, false).0);
            v.push(format!("{:02}{:02}{:02}", 1 + src.below(28), 1 + src.below(12), src.below(100)));
            if src.bool() {
                v.push(gen_decimal(src, false).0);
                v.push(src.pick(&["E", "W"]).to_string());
            } else {
                v.push("".into());
                v.push("".into());
            }
            gnss(talker, "RMC", &v)
        }
        2 => {
            v.push(src.pick(&["A", "M", ""]).to_string());
            v.push(src.pick(&["1", "2", "3", ""]).to_string());
            for _ in 0..12 {
                v.push(if src.bool() { format!("{:02}", 1 + src.below(99)) } else { "".into() });
            }
            for _ in 0..3 {
                v.push(gen_opt_decimal(src, false).0);
            }
            gnss(talker, "GSA", &v)
        }
        3 => {
            for u in ["T", "M", "N", "K"] {
                v.push(gen_opt_decimal(src, false).0);
                v.push(u.into());
            }
            v.push(src.pick(&["A", "D", "E", "N", "S", ""]).to_string());
            gnss(talker, "VTG", &v)
        }
        _ => {
            let a = lat(src);
            let o = lon(src);
            v.extend([a.0, a.1, o.0, o.1]);
            v.push(time(src));
            v.push(src.pick(&["A", "V"]).to_string());
            v.push(src.pick(&["A", "D", "E", "N", "S", ""]).to_string());
            gnss(talker, "GLL", &v)
        }
    }
}
pub fn gen_gsv_entry(src: &mut Src) -> (String, Option<(u8, Option<u8>, Option<u16>, Option<u8>)>) {
    if src.chance(1, 10) {
        return (",,,".into(), None);
    }
    let prn = match src.below(4) {
        0 | 1 => 1 + src.below(32),
        2 => 1 + src.below(99),
        _ => 1 + src.below(255),
    } as u8;
    let pad = src.bool();
    let el = if src.chance(1, 6) { None } else { Some(src.below(91) as u8) };
    let az = if src.chance(1, 6) { None } else { Some(src.below(360) as u16) };
    let sn = if src.chance(1, 4) { None } else { Some(src.below(100) as u8) };
    let n = |v: Option<u64>, w: usize| match v {
        None => String::new(),
        Some(v) => {
            if pad {
                format!("{:0w$}", v, w = w)
            } else {
                v.to_string()
            }
        }
    };
    (
        format!("{},{},{},{}", n(Some(prn as u64), 2), n(el.map(|x| x as u64), 2), n(az.map(|x| x as u64), 3), n(sn.map(|x| x as u64), 2)),
        Some((prn, el, az, sn)),
    )
}
