//! C01-C05 and C21: guarantees about every sentence.
use crate::ais::{own_of, strip_head};
use crate::engine::*;
use crate::gnss::{fields_of, gen_char, seal_any, NASTY};
use crate::mid::MIDS;
use crate::msg::*;
use crate::rt;
use nmea_parser::*;

pub fn all() -> Vec<Box<dyn Property>> {
    vec![Box::new(NoCrash), Box::new(Bounded), Box::new(Checksum), Box::new(Talkers), Box::new(Rejects), Box::new(Country), Box::new(Names), Box::new(Ranges), Box::new(Values)]
}

const AIS_TYPES: &[u64] = &[1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 24, 124, 27];

/// A valid sentence body (no checksum) of any supported kind; two-part messages give either part.
pub fn gen_body(src: &mut Src) -> String {
    match src.below(3) {
        0 => {
            let t = src.pick(NAV_TALKERS);
            let ty = src.usize(5);
            gen_gnss_body(src, ty, t)
        }
        1 => {
            let n = 1 + src.below(4);
            let mut s = format!("${}GSV,{},{},{:02}", src.pick(NAV_TALKERS), n, 1 + src.below(n), src.below(17));
            for _ in 0..4 {
                s.push(',');
                s.push_str(&gen_gsv_entry(src).0);
            }
            s
        }
        _ => {
            let ty = src.pick(AIS_TYPES);
            let b = gen_msg(src, ty);
            let p = armour(&b);
            let mut h = gen_head(src, p.len());
            h.seal = 1;
            let mut v = h.sentences(&p);
            let i = src.usize(v.len());
            v.swap_remove(i)
        }
    }
}

// ---- C01 ------------------------------------------------------------------------------------------
pub struct NoCrash;
const TEMPLATES: &[&str] = &[
    "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,*47",
    "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E*67",
    "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3*34",
    "$GPGSV,3,1,11,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00*74",
    "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A*25",
    "$GNGLL,4916.45,N,12311.12,W,225444,A,D*1D",
    "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*4A",
    "!AIVDM,2,1,1,A,55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8,0*1C",
    "!AIVDM,2,2,1,A,88888888880,2*25",
    "!AIVDO,1,1,,,H42O55i18tMET00000000000000,2*6D",
    "$GPZDA,201530.00,04,07,2002,00,00*60",
    "$GPHDT,274.07,T*03",
];
/// Sentences that are not complete messages of a supported kind
const ODD_TEMPLATES: &[&str] = &[
    "!AIVDM,2,3,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,2,0,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,2,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,2,2,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,3,1,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,9,2,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,0,1,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,x,1,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,1,1,,A,C5RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,1,1,,A,85RTgt0PAso;90TKcjM8h6g208CQ,0",
    "!AIVDM,1,1,,A,H5RTgt<PAso;90TKcjM8h6g208CQ,0",
    "$GPGSV,3,7,11,03,03,111,00,04,15,270,00",
    "$GPGSV,0,0,11,03,03,111,00,04,15,270,00",
    "$GPRMC,225446,X,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,Q",
    "$GPGSA,X,9,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3",
    "$GPXXX,1,2,3",
    "GPGGA,123519,4807.038,N,01131.000,E",
    "$PGRME,15.0,M,45.0,M,25.0,M",
];
/// Repeated to long texts
const LONG: &[&str] = &[",", "*", "$", "!", "0", "w", " ", "A", "\u{e9}", "$GPGLL,", "!AIVDM,1,1,,A,", "\n", "9", "-", "."];
const WIDE: &[&str] = &["\u{e9}", "\u{661}", "\u{20ac}", "\u{1f600}"];
const NASTY_MORE: &[&str] = &[
    "", "0", "00", "000000", "1", "-1", "256", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "250000", "246060", "235960",
    "240000", "12345", "1234567", "310221", "320199", "001300", "999999", "3\u{20ac}", "\u{20ac}\u{20ac}", "12\u{e9}456", "\u{1f600}", "\u{0}", "-", "+", ".", "9999.9", "99999.9", "9e999", "-9e999", "1e-999",
    "0.0000000000000000000000000000000000000000000000001", "12345678901234567890123456789012345678901234567890", "*", "$", "!", "*47", "AIVDM", "9007199254740993", "-0", "1.", ".1", "2147483648", "32768",
];
fn mutate_text(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = 1 + src.below(4);
    for _ in 0..n {
        if c.is_empty() {
            c.push(gen_char(src));
            continue;
        }
        let i = src.usize(c.len());
        match src.below(9) {
            0 => c[i] = gen_char(src),
            1 => c.insert(i, gen_char(src)),
            2 => {
                c.remove(i);
            }
            3 => c.truncate(i),
            4 => {
                c.drain(..i);
            }
            5 => {
                let e = (i + 1 + src.usize(20)).min(c.len());
                let d: Vec<char> = c[i..e].to_vec();
                for (k, x) in d.into_iter().enumerate() {
                    c.insert(i + k, x);
                }
            }
            6 => {
                let e = (i + 1 + src.usize(20)).min(c.len());
                c.drain(i..e);
            }
            _ => {
                // replace a whole field
                let t: String = c.iter().collect();
                let mut f = fields_of(&t);
                let k = src.usize(f.len());
                f[k] = nasty(src);
                c = f.join(",").chars().collect();
            }
        }
    }
    c.into_iter().collect()
}
fn nasty(src: &mut Src) -> String {
    match src.below(5) {
        0 => src.pick(NASTY).to_string(),
        1 => src.pick(NASTY_MORE).to_string(),
        2 => {
            let d = dict();
            if src.bool() && !d.strs.is_empty() {
                d.strs[src.usize(d.strs.len())].clone()
            } else if !d.ints.is_empty() {
                d.ints[src.usize(d.ints.len())].to_string()
            } else {
                "7".into()
            }
        }
        3 => {
            let w = src.below(64);
            (src.below(0) >> w).to_string()
        }
        _ => {
            let n = src.usize(12);
            (0..n).map(|_| gen_char(src)).collect()
        }
    }
}
pub fn gen_unicode(src: &mut Src) -> String {
    let n = match src.below(5) {
        0 => src.usize(8),
        1 | 2 | 3 => src.usize(60),
        _ => src.usize(400),
    };
    let style = src.below(4);
    let mut s: String = (0..n)
        .map(|_| match style {
            0 => gen_char(src),
            1 => char::from_u32(src.below(0x110000) as u32).unwrap_or('\u{fffd}'),
            2 => src.pick(&[',', '*', '$', '!', 'G', 'P', '0', '1', '2', '.', 'A', 'V', 'D', 'M', '\u{e9}', '\u{20ac}']),
            _ => (src.below(128) as u8) as char,
        })
        .collect();
    if src.chance(1, 3) {
        s.insert_str(0, src.pick(&["$", "!", "$GP", "!AI", "$GPGGA,", "!AIVDM,", "!AIVDM,1,1,,A,", "$GPRMC,", "$GPGSV,", "!AIVDO,2,"]));
    }
    s
}
fn gen_line(src: &mut Src, ctx: &mut Ctx, kept: &mut Vec<String>) -> String {
    let s = match src.below(8) {
        0 => {
            ctx.class("arbitrary text");
            gen_unicode(src)
        }
        1 | 2 => {
            ctx.class("mutated sentence");
            let b = if src.bool() { gen_body(src) } else { src.pick(TEMPLATES).to_string() };
            mutate_text(src, &b)
        }
        3 => {
            // raw payload of any type, length and content
            ctx.class("raw AIS payload");
            let ty = src.below(64);
            let n = match src.below(3) {
                0 => src.usize(12),
                1 => src.usize(90),
                _ => src.usize(600),
            };
            let mut p = String::new();
            p.push(sym_char(ty));
            let style = src.below(3);
            for _ in 0..n {
                p.push(sym_char(match style {
                    0 => src.below(64),
                    1 => 0,
                    _ => 63,
                }));
            }
            let (c, k) = if src.chance(1, 3) { (2, 1 + src.below(2)) } else { (1, 1) };
            format!("!{}{},{},{},{},{},{},0", src.pick(AIS_TALKERS), src.pick(&["VDM", "VDO"]), c, k, src.below(3), src.pick(CHANS), p)
        }
        4 if !kept.is_empty() => {
            ctx.class("earlier line changed");
            let i = src.usize(kept.len());
            let s = kept[i].clone();
            mutate_text(src, &s)
        }
        5 => {
            ctx.class("claimed counts");
            let n = nasty(src);
            let m = nasty(src);
            match src.below(3) {
                0 => format!("$GPGSV,{},{},08,01,40,083,46", n, m),
                1 => format!("!AIVDM,{},{},{},A,15RTgt0PAso;90TKcjM8h6g208CQ,0", n, m, nasty(src)),
                _ => format!("$GPGSV,{},{},{},{},{},{},{}", n, m, nasty(src), nasty(src), nasty(src), nasty(src), nasty(src)),
            }
        }
        _ => {
            ctx.class("valid sentence");
            gen_body(src)
        }
    };
    kept.push(s.clone());
    seal_any(src, s)
}
impl Property for NoCrash {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of 1 to 12 texts given to one parser at a generated system date: arbitrary Unicode, valid sentences of every kind, mutated sentences (characters, chunks, truncation, fields replaced by nasty strings), AIS payloads of every type number, length and content, huge or odd claimed counts, with no, empty or right checksum. Oracle: the call returns (no panic with overflow checks and debug assertions on, no abort, no runaway). Sweeps: every field of 12 template sentences x every nasty string, every truncation of every template, 15 units repeated to 120 000 bytes before, after and inside every template (on a stack of 2 MiB), every AIS type 0-63 x payload length 0-100 x 3 contents, every pair of ASCII characters after a header, a character of 2 to 4 bytes in or instead of every character of 30 sentences. Non-trivial: at least one text of the case contains a comma and starts with $ or ! (it gets past the framing)."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 4_000_000, guided: 6_000_000, sweep_reps: 4 }
        } else {
            Plan { random: 130_000, guided: 260_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for (t, s) in TEMPLATES.iter().enumerate() {
            for f in 0..fields_of(s).len() as u64 {
                for n in 0..(NASTY.len() + NASTY_MORE.len()) as u64 {
                    v.push(vec![1, t as u64, f, n]);
                }
            }
            for k in 0..=s.len() as u64 {
                v.push(vec![2, t as u64, k]);
            }
        }
        for ty in 0..64 {
            for n in 0..=100 {
                for c in 0..3 {
                    v.push(vec![3, ty, n, c]);
                }
            }
        }
        for (t, s) in TEMPLATES.iter().chain(ODD_TEMPLATES).enumerate() {
            for k in 0..s.len() as u64 {
                for w in 0..WIDE.len() as u64 {
                    for how in 0..2 {
                        v.push(vec![5, t as u64, k, w, how]);
                    }
                }
            }
        }
        for a in 0..128 {
            for b in 0..128 {
                v.push(vec![4, a, b]);
            }
        }
        for t in 0..=TEMPLATES.len() as u64 {
            for u in 0..LONG.len() as u64 {
                for how in 0..3 {
                    v.push(vec![6, t, u, how, 1]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        let mut p = P::new();
        for s in [
            "$", "!", "$,", "!,", "$G,", "$GP,", "!AI,", "$GPGG,", "$\u{20ac}\u{20ac}GGA,", "$\u{e9}GGA,1", "!\u{e9}\u{e9}VDM,1,1,,A,x,0", "", "*", "**", "$*", ",", "*,", "$GPGGA,", "$GPRMC,", "$GPGLL,",
            "$GPGGA,1,,,,,,,,,,,,,", "$GPRMC,1,A,,,,,,,1,,", "$GPRMC,999999,A,,,,,,,999999,,", "$GPGLL,,,,,1,", "$GPGSV,4294967295,4294967295,08", "$GPGSV,4294967295,1,08", "$GPGSV,0,0,", "!AIVDM,1,1,,A,,0",
            "!AIVDM,1,1,,A,\u{20ac},0", "!AIVDM,1,1,,A,~~~~~~~~,0", "!AIVDM,1,1,,A,4wwwwwwwwwwwwwwwwwwwwwwwwwww,0", "!AIVDM,1,1,,A,4000000000000000000000000000,0",
            "!AIVDM,1,1,,A,5wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww,0",
        ] {
            let _ = p.parse(ctx, s);
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.below(7);
        let mut p = P::new();
        let fix = match mode {
            1 => {
                let t = src.usize(TEMPLATES.len());
                let mut f = fields_of(TEMPLATES[t].split('*').next().unwrap());
                let k = src.usize(f.len());
                let n = src.usize(NASTY.len() + NASTY_MORE.len());
                f[k] = if n < NASTY.len() { NASTY[n] } else { NASTY_MORE[n - NASTY.len()] }.to_string();
                Some(f.join(","))
            }
            6 => {
                let t = src.usize(TEMPLATES.len() + 1);
                let u = LONG[src.usize(LONG.len())];
                let how = src.below(3);
                // the longest ones are rare
                let n = if src.below(4000) == 1 { 120_000 } else { 1 + src.usize(300) };
                let t = TEMPLATES.get(t).copied().unwrap_or("");
                let u = u.repeat(n / u.len().min(n));
                ctx.class("long repetition");
                Some(match how {
                    0 => format!("{}{}", t, u),
                    1 => format!("{}{}", u, t),
                    _ => {
                        let mut f = fields_of(t);
                        let k = src.usize(f.len());
                        f[k] = u;
                        f.join(",")
                    }
                })
            }
            2 => {
                let t = TEMPLATES[src.usize(TEMPLATES.len())];
                let k = src.usize(t.len() + 1);
                Some(t[..k].to_string())
            }
            3 => {
                let ty = src.below(64);
                let n = src.usize(101);
                let c = src.below(3);
                let mut s = String::new();
                if n > 0 {
                    s.push(sym_char(ty));
                }
                for _ in 1..n {
                    s.push(sym_char(match c {
                        0 => 0,
                        1 => 63,
                        _ => src.below(64),
                    }));
                }
                Some(format!("!AIVDM,1,1,,A,{},0", s))
            }
            4 => {
                let a = src.below(128) as u8 as char;
                let b = src.below(128) as u8 as char;
                Some(format!("{}{}{}", src.pick(&["", "$", "!", "$GP", "$GPGGA", "!AIVD", "!AIVDM,1,1,,A,"]), a, b))
            }
            5 => {
                // a character of two to four bytes anywhere in a sentence
                let t = src.usize(TEMPLATES.len() + ODD_TEMPLATES.len());
                let t = if t < TEMPLATES.len() { TEMPLATES[t] } else { ODD_TEMPLATES[t - TEMPLATES.len()] };
                let k = src.usize(t.len());
                let w = src.pick(WIDE);
                let keep = if src.bool() { k } else { k + 1 };
                let s = format!("{}{}{}", &t[..k], w, &t[keep..]);
                Some(s.split('*').next().unwrap().to_string())
            }
            _ => None,
        };
        gen_clock(src, ctx);
        let mut kept = vec![];
        let n = if fix.is_some() { 1 + src.usize(2) } else { 1 + src.usize(12) };
        for i in 0..n {
            let s = match &fix {
                Some(s) if i == 0 => {
                    ctx.class("sweep");
                    s.clone()
                }
                Some(s) => {
                    // the same with the right checksum
                    if s.is_ascii() {
                        with_sum(s.split('*').next().unwrap())
                    } else {
                        s.clone()
                    }
                }
                None => gen_line(src, ctx, &mut kept),
            };
            if s.contains(',') && (s.starts_with('$') || s.starts_with('!')) {
                ctx.nontrivial();
            }
            if src.chance(1, 8) {
                gen_clock(src, ctx);
            }
            let r = p.parse(ctx, &s);
            match &r {
                Ok(_) => ctx.class("answer: parsed or incomplete"),
                Err(e) => {
                    ctx.class("answer: error");
                    let m = api(|| e.to_string());
                    ensure!(!m.is_empty(), "empty error text for {:?}", s);
                }
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the crate is built with overflow checks and debug assertions; texts up to a few thousand characters; system dates 1970 to 9998"]
    }
}

// ---- C02 ------------------------------------------------------------------------------------------
pub struct Bounded;
/// Executed branches of one call: fixed part, per character, per byte the parser holds
const EDGE_FIX: u64 = 300_000;
const EDGE_CHAR: u64 = 3_000;
const EDGE_HELD: u64 = 500;
/// Bytes in use during one call beyond what was held before
const PEAK_FIX: i64 = 2_000_000;
const PEAK_CHAR: i64 = 4_000;
/// Bytes the parser may hold more after a call, beyond a table growth (doubling)
const HOLD_FIX: i64 = 4_096;
const HOLD_CHAR: i64 = 64;
struct Meter {
    base: i64,
    p: P,
}
impl Meter {
    fn new() -> Meter {
        let base = rt::live();
        Meter { base, p: P::new() }
    }
    fn held(&self) -> i64 {
        rt::live() - self.base
    }
    /// One call within the budgets; everything the harness allocates meanwhile is subtracted.
    fn call(&mut self, ctx: &mut Ctx, s: &str) -> Result<Res, String> {
        let held = self.held().max(0) as u64;
        let before = rt::live();
        let (r, grown) = {
            self.p.set_logging(s);
            in_parser(true);
            let (r, w) = rt::guarded(s.len(), || self.p.inner.parse_sentence(s));
            in_parser(false);
            ctx.last = w;
            (r, rt::live() - before)
        };
        let after = rt::live();
        ctx.parses += 1;
        ctx.hash_bytes(&s.as_bytes()[..s.len().min(4000)]);
        let (e, peak) = (ctx.last.edges, ctx.last.peak);
        // part of what is still alive is the result itself
        let d = {
            let b = rt::live();
            let c = r.clone();
            let d = rt::live() - b;
            drop(c);
            d
        };
        let keep = grown - d;
        ctx.note(|| {
            let mut q = s.to_string();
            if q.len() > 300 {
                let mut n = 300;
                while !q.is_char_boundary(n) {
                    n -= 1;
                }
                q.truncate(n);
                q.push_str(&format!("... ({} bytes)", s.len()));
            }
            format!("parse_sentence({:?}) -> {} ({} branches, {} bytes used, {} bytes more held, held before {})", q, kind(&r), e, peak, keep, held)
        });
        // the transcript and the bookkeeping are not the parser's
        self.base += rt::live() - after;
        let eb = EDGE_FIX + EDGE_CHAR * s.len() as u64 + EDGE_HELD * held;
        ensure!(e <= eb, "{} branches executed for a sentence of {} bytes with {} bytes held (budget {})", e, s.len(), held, eb);
        let pb = PEAK_FIX + PEAK_CHAR * s.len() as i64 + 4 * held as i64;
        ensure!(peak <= pb, "{} bytes allocated for a sentence of {} bytes with {} bytes held (budget {})", peak, s.len(), held, pb);
        let hb = HOLD_FIX + HOLD_CHAR * s.len() as i64 + 2 * held as i64;
        ensure!(keep <= hb, "the parser holds {} bytes more after a sentence of {} bytes (budget {})", keep, s.len(), hb);
        Ok(r)
    }
}
fn self_check(out: &mut R, r: R) {
    if out.is_ok() {
        *out = r;
    }
}
/// A complete multi-sentence message with its own identity `k`.
fn whole_message(src: &mut Src, k: u64) -> Vec<String> {
    let kind = src.below(3);
    whole_message_of(src, k, kind)
}
/// Kinds: 0 two-part AIS, 1 GSV group, 2 type 24 pair, 3 single sentence, 4 rejected sentence
fn whole_message_of(src: &mut Src, k: u64, kind: u64) -> Vec<String> {
    let mut v = match kind {
        3 => {
            if src.bool() {
                let ty = src.usize(5);
                vec![with_sum(&gen_gnss_body(src, ty, NAV_TALKERS[(k % 10) as usize]))]
            } else {
                let ty = src.pick(&[1u64, 4, 5, 9, 10, 18, 21, 27]);
                let mut h = Head::plain();
                h.own = k % 2 == 1;
                let mut b = gen_msg(src, ty);
                if src.bool() {
                    put(&mut b, 8, 30, 200_000_000 + k);
                }
                h.sentences(&armour(&b))
            }
        }
        4 => {
            let s = gen_body(src);
            match src.below(4) {
                // a wrong checksum
                0 | 1 => {
                    let x = xor(&s) ^ (1 + src.below(255) as u8);
                    vec![format!("{}*{:02X}", s, x)]
                }
                // a type without decoder
                2 => vec![with_sum(&format!("$GPZDA,{}", s))],
                _ => vec![with_sum(&format!("!AIVDM,1,1,,A,{}z{},0", k, k))],
            }
        }
        0 => {
            let ty = src.pick(&[5u64, 1, 21]);
            let mut b = gen_msg(src, ty);
            if src.bool() {
                put(&mut b, 8, 30, 200_000_000 + k);
            }
            let p = armour(&b);
            let mut h = Head::plain();
            h.own = k % 2 == 1;
            h.chan = CHANS[(k / 2 % 5) as usize];
            h.id = (k / 10).to_string();
            h.split = Some(src.usize(p.len() + 1));
            h.sentences(&p)
        }
        1 => {
            let n = 1 + src.below(4);
            let t = NAV_TALKERS[(k % 10) as usize];
            (1..=n).map(|i| with_sum(&format!("${}GSV,{},{},11,{},{},{}", t, n, i, gen_gsv_entry(src).0, gen_gsv_entry(src).0, gen_gsv_entry(src).0))).collect()
        }
        _ => {
            let mut v = vec![];
            for ty in [24, 124] {
                let mut b = gen_msg(src, ty);
                put(&mut b, 8, 30, 100_000_000 + k);
                let mut h = Head::plain();
                h.own = k % 2 == 1;
                v.extend(h.sentences(&armour(&b)));
            }
            v
        }
    };
    let n = v.len();
    if src.bool() {
        // out of order, with a repeated part before completion
        for i in (1..n).rev() {
            let j = src.usize(i + 1);
            v.swap(i, j);
        }
        if n > 1 && src.bool() {
            let d = v[0].clone();
            v.insert(1, d);
        }
    }
    v
}
const WARM_UP: &[&str] = &[
    "!AIVDM,2,1,8,A,55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8,0",
    "!AIVDM,2,2,8,A,88888888880,2",
    "$GPGSV,2,1,08,01,40,083,46,02,17,308,41",
    "$GPGSV,2,2,08,12,07,344,39,14,22,228,45",
    "!AIVDM,1,1,,A,H42O55i18tMET00000000000000,2",
    "!AIVDM,1,1,,A,H42O55lt0000000D3nink000?0500,0",
    "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,*47",
    "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E*67",
    "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3*34",
    "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A*25",
    "$GNGLL,4916.45,N,12311.12,W,225444,A,D*1D",
    "$GPGLL,4916.4,N,x,W,225444,A,D",
    "$GPZDA,201530.00,04,07,2002,00,00*60",
    "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*4A",
    "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*4B",
    "!AIVDM,1,1,,A,z5RTgt,0",
    "!AIVDM,x,1,,A,z5RTgt,0",
    "GPGLL",
];
impl Property for Bounded {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Measured on the instrumented crate: executed branches (sanitizer coverage) and heap bytes (counting allocator) of every call must stay under a fixed part plus linear parts in the sentence length and in the bytes the parser holds. Cases: histories of lines from the crash generator; sentences claiming counts and numbers of 1 to 40 digits; pairs of incomplete sentences differing only in the digits of a claimed count or number, whose work may differ by at most 2000 branches (plus the held part) and 4096 bytes; very long lines (to 60 000 characters); streams of 20-200 complete multi-sentence messages with distinct identities (two-part AIS, GSV groups, type 24 pairs; parts out of order and repeated before completion), after which the parser holds at most 8 KiB and a third more messages add at most 1 KiB; a repeated unfinished part. Non-trivial: the case contains a claimed count above 9, a line over 500 characters or at least 20 complete messages."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 1_500_000, guided: 400_000, sweep_reps: 6 }
        } else {
            Plan { random: 40_000, guided: 8_000, sweep_reps: 1 }
        }
    }
    fn once_per_process(&self) -> u32 {
        8
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for kind in 0..5 {
            for d in 0..24 {
                for f in 0..10 {
                    v.push(vec![1, kind, d, f]);
                }
            }
        }
        for k in 0..60 {
            v.push(vec![2, k]);
        }
        for k in 0..40 {
            v.push(vec![3, k]);
        }
        // endless streams: [5, 7, kind, seed]
        for kind in 0..8 {
            for seed in 0..if th { 8 } else { 1 } {
                v.push(vec![5, 7, kind, seed]);
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        let mut m = Meter::new();
        for s in ["$GPGSV,4294967295,1,08,01,40,083,46", "$GPGSV,4294967295,4294967295,08,01,40,083,46", "$GPGSV,2147483648,2,08", "$GPGSV,99999999,99999999,08"] {
            for _ in 0..3 {
                let _ = m.call(ctx, s)?;
            }
        }
        ensure!(unsafe { rt::NGUARDS } > 100 && unsafe { rt::EDGES } > 0, "the crate under test is not instrumented");
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        match src.below(6) {
            5 if src.below(4000) == 7 => self.endless(src, ctx),
            1 => self.counts(src, ctx),
            2 => self.stream(src, ctx),
            3 => self.long(src, ctx),
            4 => self.repeated(src, ctx),
            _ => {
                let mut m = Meter::new();
                let mut kept = vec![];
                let n = 1 + src.usize(20);
                for _ in 0..n {
                    let b = rt::live();
                    let s = gen_line(src, ctx, &mut kept);
                    if s.split(',').any(|f| f.len() >= 2 && f.len() < 30 && f.bytes().all(|b| b.is_ascii_digit())) {
                        ctx.nontrivial();
                    }
                    // the generator's own memory is not the parser's
                    m.base += rt::live() - b;
                    let b = rt::live();
                    let held = m.held();
                    let r = m.call(ctx, &s)?;
                    drop(r);
                    let _ = (b, held);
                }
                Ok(())
            }
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "work is counted in branches executed inside the crate (generic std code it instantiates included, precompiled std and regex code excluded); regex allocations count as memory",
            "budgets: branches 300000 + 3000/char + 500/held byte; memory 2 MB + 4 kB/char + 4x held; retained after a call 4 KiB + 64/char + 2x held (table growth)",
        ]
    }
}
impl Bounded {
    fn counts(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        // kinds: GSV count, GSV number, AIS part count, AIS part number, AIS message id
        let k = src.below(5);
        let digits = 1 + src.usize(24);
        let f = src.below(10);
        let gen = |src: &mut Src| -> String {
            let mut s = String::new();
            for i in 0..digits {
                let d = match f {
                    0 => 9,
                    1 => (i == 0) as u64,
                    _ => src.below(10),
                };
                s.push((b'0' + d as u8) as char);
            }
            // neither a leading zero nor the counts one and zero, which may complete a message
            if s.starts_with('0') || s == "1" {
                s.replace_range(0..1, if digits == 1 { "9" } else { "1" });
            }
            s
        };
        let (a, b) = (gen(src), gen(src));
        let part = src.pick(&["1", "2", "9"]);
        let mk = |x: &str| match k {
            0 => format!("$GPGSV,{},{},08,01,40,083,46,02,17,308,41", x, part),
            1 => format!("$GPGSV,{},{},08,01,40,083,46,02,17,308,41", if digits < 2 { "9999" } else { "99999" }, x),
            2 => format!("!AIVDM,{},1,3,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", x),
            3 => format!("!AIVDM,9,{},3,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", x),
            _ => format!("!AIVDM,2,1,{},A,15RTgt0PAso;90TKcjM8h6g208CQ,0", x),
        };
        ctx.class(["GSV count", "GSV number", "AIS part count", "AIS part number", "AIS message id"][k as usize]);
        if digits > 1 {
            ctx.nontrivial();
        }
        // some unfinished data first
        let pre: Vec<String> = if src.bool() {
            let n = src.usize(30);
            let mut v: Vec<String> = (0..n).map(|i| format!("$GPGSV,{},{},08,01,40,083,46", 9 + i / 8, 2 + i % 8)).collect();
            if src.bool() {
                // the beginning of a long group
                for i in 1..=src.below(40) {
                    v.push(format!("$GPGSV,{},{},08,01,40,083,46", a, i));
                    v.push(format!("$GPGSV,{},{},08,01,40,083,46", b, i));
                }
            }
            v
        } else {
            vec![]
        };
        let mut w = vec![];
        for x in [&a, &b] {
            let mut m = Meter::new();
            for s in &pre {
                let _ = m.call(ctx, s)?;
            }
            let s = mk(x);
            let r = m.call(ctx, &s)?;
            let e = (ctx.last.edges, ctx.last.peak);
            if is_incomplete(&r) {
                w.push((s, e));
            }
        }
        if w.len() == 2 && a.len() == b.len() {
            let (p, q) = (&w[0], &w[1]);
            let de = (p.1 .0 as i64 - q.1 .0 as i64).abs();
            let dm = (p.1 .1 - q.1 .1).abs();
            let slack = 2000 + 3000 * pre.len() as i64;
            ensure!(de <= slack, "work depends on a claimed number: {} takes {} branches, {} takes {}", p.0, p.1 .0, q.0, q.1 .0);
            ensure!(dm <= 4096 + 4096 * pre.len() as i64, "memory depends on a claimed number: {} takes {} bytes, {} takes {}", p.0, p.1 .1, q.0, q.1 .1);
        }
        Ok(())
    }
    fn stream(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let n = 20 + src.below(60);
        let mixed = src.below(6);
        ctx.class("stream of complete messages");
        ctx.nontrivial();
        // everything is generated first: the parser is the only user of memory afterwards
        let mut msgs = vec![];
        let total = 4 * n;
        for k in 0..total {
            let kind = if mixed < 5 { mixed } else { src.below(5) };
            msgs.push((kind, whole_message_of(src, k, kind)));
        }
        if src.bool() {
            // no two numbers with decimals are the same in the whole run
            ctx.class("stream of distinct numbers");
            for (kind, v) in msgs.iter_mut() {
                if *kind == 3 && v[0].starts_with('$') {
                    let body = v[0].split('*').next().unwrap();
                    let f: Vec<String> = body.split(',').map(|f| if f.contains('.') && f.bytes().all(|b| b.is_ascii_digit() || b == b'.') { format!("{}{:014}", f, src.below(100_000_000_000_000)) } else { f.to_string() }).collect();
                    v[0] = with_sum(&f.join(","));
                }
            }
        }
        if src.chance(1, 8) {
            // long sentences: whatever is kept of them shows
            ctx.class("stream of long messages");
            let pad = src.pick(&[300usize, 300, 300, 2000, 2000, 9000]);
            msgs.truncate(24000 / pad + 8);
            for (kind, v) in msgs.iter_mut() {
                for s in v.iter_mut() {
                    if *kind == 4 {
                        s.insert_str(s.find(',').unwrap_or(0), &"9".repeat(pad));
                        continue;
                    }
                    let body = s.split('*').next().unwrap().to_string();
                    let body = match body.strip_suffix(",0") {
                        Some(b) if b.starts_with('!') => format!("{}{},0", b, "0".repeat(if b.contains(",2,1,") { 0 } else { pad })),
                        _ if body.starts_with('$') => format!("{}{}", body, ",".repeat(20) + &"9".repeat(pad)),
                        _ => body,
                    };
                    *s = with_sum(&body);
                }
            }
        }
        let mut m = Meter::new();
        let fresh = m.held();
        // containers may keep their first allocation: use each kind of store once before measuring
        for s in WARM_UP {
            let _ = m.call(ctx, s)?;
        }
        let mut at_n = 0;
        let half = if msgs.len() < total as usize { msgs.len() / 2 } else { n as usize };
        for (i, (kd, v)) in msgs.iter().enumerate() {
            let last = v.len() - 1;
            for (j, s) in v.iter().enumerate() {
                let r = m.call(ctx, s)?;
                // type 24 parts answer with what they carry
                if j < last && !matches!(r, Ok(ParsedSentence::VesselStaticData(_))) {
                    ensure!(is_incomplete(&r), "part {} of {:?} answered with {:?}", j, v, kind(&r));
                }
                if *kd == 4 {
                    ensure!(r.is_err(), "rejected sentence {:?} answered with {}", s, kind(&r));
                } else if j == last {
                    ensure!(kind(&r) == "data", "message {:?} answered with {}", v, kind(&r));
                }
            }
            let h = m.held() - fresh;
            ensure!(h <= 8192, "after {} complete messages the parser holds {} bytes", i + 1, h);
            if i + 1 == half {
                at_n = h;
            }
        }
        let h = m.held() - fresh;
        ensure!(h - at_n <= 1024, "{} complete messages leave {} bytes in the parser, {} leave {}", half, at_n, msgs.len(), h);
        // nothing of a finished message can take part in another one
        for (_, v) in msgs.iter().rev().take(6) {
            if v.len() < 2 || v[0].contains("GSV,1,") {
                continue;
            }
            let s = &v[src.usize(v.len())];
            let mut q = P::new();
            let r = m.call(ctx, s)?;
            let f = q.parse_quiet(ctx, s);
            ensure!(same(&r, &f), "after its message was delivered, {} is answered with {:?}, by a new parser with {:?}", s, r, f);
            // finish it again
            for s in v {
                let _ = m.call(ctx, s)?;
            }
        }
        Ok(())
    }
    /// Thousands of complete messages, each of another vessel, id, talker: a few bytes kept of each would show.
    fn endless(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let mixed = src.below(8);
        let seed = src.below(0);
        let n = if mixed == 2 || mixed == 1 { 5000u64 } else { 8000 };
        ctx.class("endless stream");
        ctx.nontrivial();
        let mut m = Meter::new();
        for s in WARM_UP {
            let _ = m.call(ctx, s)?;
        }
        let verbose = ctx.verbose;
        let (mut start, mut at, mut end) = (0, 0, 0);
        // no two runs in one process have the same vessels and ids: what is kept across parsers shows, too
        static RUNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let from = RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 * 10_000;
        for k in 0..n {
            ctx.verbose = verbose && k + 8 > n;
            if k == 64 {
                start = rt::live();
            }
            let mut out = Ok(());
            {
                let kind = if mixed < 5 { mixed } else { (k + k / 7) % 5 };
                let v = with_private(seed.wrapping_add(from + k), |s| {
                    let mut v = whole_message_of(s, from + k, kind);
                    if mixed == 6 && kind == 1 {
                        // groups without satellites, of different sizes
                        let (t, c) = (NAV_TALKERS[(k % 10) as usize], 2 + k / 50 % 7);
                        v = (1..=c).map(|i| with_sum(&format!("${}GSV,{},{},00", t, c, i))).collect();
                    }
                    v
                });
                for s in &v {
                    self_check(&mut out, m.call(ctx, s).map(|_| ()));
                }
            }
            ctx.verbose = verbose;
            out?;
            if k == n / 4 {
                at = rt::live();
            }
            if k + 9 == n {
                end = rt::live();
            }
        }
        let (early, late) = (at - start, end - at);
        ctx.note(|| format!("of {} complete messages the first quarter leaves {} bytes, the rest {} more", n, early, late));
        ensure!(early <= 4096 && late <= 2048, "of {} complete messages the first quarter leaves {} bytes, the rest {} more", n, early, late);
        Ok(())
    }
    fn long(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let most = if src.chance(1, 6) { 60_000 } else { 4_000 };
        let n = 500 + src.usize(most);
        ctx.class("long line");
        ctx.nontrivial();
        let fill = |src: &mut Src, n: usize| -> String {
            let unit = src.pick(&["0", "9", "w", ",", "1,", "*", "$", "01,40,083,46,", "55?MbV02;H;s<HtKR20EHE:0@T4@Dn22", "\u{20ac}", "4807.038,N,", "-", "99", ".", "!AIVDM,"]);
            let k = n / unit.len() + 1;
            unit.repeat(k)
        };
        let body = match src.below(9) {
            0 => format!("$GPGSV,2,1,08,{}", fill(src, n)),
            1 => format!("!AIVDM,1,1,,A,{},0", fill(src, n)),
            2 => format!("!AIVDM,2,{},1,A,{},0", 1 + src.below(2), fill(src, n)),
            3 => format!("$GPGGA,{},4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", fill(src, n)),
            4 => format!("$GPGGA,123519,4807.{},N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", fill(src, n)),
            5 => format!("$GPRMC,225446,A,4916.45,N,12311.12,W,{},054.7,191120,020.3,E", fill(src, n)),
            6 => fill(src, n),
            7 => format!("$GPGSA,A,3,{}", fill(src, n)),
            _ => format!("{}{}", src.pick(&["$", "!"]), fill(src, n)),
        };
        let mut m = Meter::new();
        for _ in 0..2 {
            let _ = m.call(ctx, &body)?;
        }
        Ok(())
    }
    fn repeated(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let v = loop {
            let v = whole_message(src, 7);
            if v.len() > 1 {
                break v;
            }
        };
        ctx.class("repeated unfinished part");
        ctx.nontrivial();
        let mut m = Meter::new();
        for _ in 0..3 {
            let _ = m.call(ctx, &v[0])?;
        }
        let h = m.held();
        let n = 20 + src.below(200);
        for _ in 0..n {
            let _ = m.call(ctx, &v[0])?;
        }
        let g = m.held() - h;
        ensure!(g <= 512, "{} repetitions of {} make the parser grow by {} bytes", n, v[0], g);
        Ok(())
    }
}

// ---- C03 ------------------------------------------------------------------------------------------
pub struct Checksum;
fn gen_ascii_body(src: &mut Src) -> (String, &'static str) {
    match src.below(9) {
        0 | 1 | 2 => (gen_body(src), "valid content"),
        3 => {
            let b = gen_body(src);
            let m = mutate_text(src, &b);
            let m: String = m.chars().filter(|c| c.is_ascii()).collect();
            (m, "garbled content")
        }
        4 => (format!("${}{},1,2,3.4", src.pick(NAV_TALKERS), src.pick(&["ZDA", "HDT", "TXT", "XTE", "ALM", "GRS"])), "unsupported content"),
        5 => {
            let n = src.usize(30);
            let s: String = (0..n).map(|_| (32 + src.below(95) as u8) as char).collect();
            (s, "arbitrary content")
        }
        6 => {
            let n = src.usize(30);
            let s: String = (0..n).map(|_| (src.below(128) as u8) as char).collect();
            (s, "control characters")
        }
        7 => {
            // far beyond the 82 characters of the standard
            let mut s = gen_body(src);
            let n = src.pick(&[40usize, 80, 130, 260, 520, 1030, 2050]) + src.usize(60);
            let c = src.pick(&['0', ',', 'A', 'w']);
            s.push_str(&c.to_string().repeat(n));
            (s, "long content")
        }
        _ => {
            let b = gen_body(src);
            let i = src.usize(b.len());
            let mut s = b;
            s.insert(i.max(1), '*');
            (s, "inner asterisk")
        }
    }
}
fn with_delim(src: &mut Src, mut s: String) -> String {
    if !s.starts_with('$') && !s.starts_with('!') {
        s.insert(0, src.pick(&['$', '!']));
    }
    s
}
/// Appends characters that make the sum `r`.
fn tune(body: &mut String, r: u8) {
    let need = xor(body) ^ r;
    let (a, b) = if need > 32 && need < 127 && need != b'*' && need != b',' { (need, None) } else { (b'0' | 0x40, Some(need ^ (b'0' | 0x40))) };
    body.push(a as char);
    if let Some(b) = b {
        if b == b'*' {
            // keep the last asterisk the separator: three characters instead
            body.push('A');
            body.push('B');
            body.push((b ^ b'A' ^ b'B') as char);
        } else {
            body.push(b as char);
        }
    }
}
impl Property for Checksum {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "A case is an ASCII body (valid, garbled, unsupported, arbitrary text, control characters, asterisks inside) and a text after the last asterisk. Right checksum (the harness's own exclusive-or): the answer must equal that for the same body with nothing after the asterisk. Any other text (wrong value, one or three digits, blanks before, other characters): corrupted. Any single character changed between delimiter and asterisk under the old checksum: corrupted. A corrupted part completes no pending message. Sweeps: all 128 reachable right sums x all 256 values, every position x every replacement of six sentences, 0-3 character checksum texts, also such that stand for the right sum without being its two digits (+5, 5). Some bodies contain characters beyond ASCII: a sum right neither over their low bytes nor over the UTF-8 bytes is corrupted. Non-trivial: the case contains a wrong checksum or a changed character."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 8_000_000, guided: 2_000_000, sweep_reps: 3 }
        } else {
            Plan { random: 250_000, guided: 60_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for r in 0..128 {
            for w in 0..256 {
                v.push(vec![1, r, w]);
            }
        }
        for (t, s) in TEMPLATES.iter().enumerate().take(if th { 12 } else { 10 }) {
            let n = s.find('*').unwrap() as u64;
            for i in 1..n {
                for c in 0..128 {
                    v.push(vec![2, t as u64, i, c]);
                }
            }
        }
        for a in 0..96 {
            for b in 0..96 {
                for k in 0..3 {
                    v.push(vec![3, a, b, k]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        for s in TEMPLATES {
            let body = s.split('*').next().unwrap();
            let a = once(ctx, body);
            let b = once(ctx, s);
            let c = once(ctx, &format!("{}*", body));
            if *s == with_sum(body) {
                ensure!(same(&a, &b), "{} and {} differ: {:?} {:?}", body, s, a, b);
            }
            ensure!(same(&a, &c), "{} and {}* differ: {:?} {:?}", body, body, a, c);
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.below(4);
        match mode {
            1 => {
                // right sum r, given value w
                let r = src.below(128) as u8;
                let w = src.below(256) as u8;
                let mut body = src.pick(&["$GPGLL,4916.45,N,12311.12,W,225444,A,", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0,", "$GPZDA,", "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A,"]).to_string();
                // one or two characters that make the sum r
                tune(&mut body, r);
                if body.contains('*') {
                    return Ok(());
                }
                ensure!(xor(&body) == r, "harness: sum");
                self.gate(ctx, &body, &format!("{:02X}", w))
            }
            2 => {
                let t = TEMPLATES[src.usize(TEMPLATES.len())];
                let body: Vec<u8> = t.split('*').next().unwrap().bytes().collect();
                let i = src.usize(body.len()).max(1);
                let c = src.below(128) as u8;
                if body[i] == c {
                    return Ok(());
                }
                let sum = xor(std::str::from_utf8(&body).unwrap());
                let mut n = body.clone();
                n[i] = c;
                let s = format!("{}*{:02X}", String::from_utf8(n).unwrap(), sum);
                ctx.nontrivial();
                ctx.class("changed character");
                let r = once(ctx, &s);
                ensure!(kind(&r) == "corrupted", "changed character {} of {} not detected: {:?} answered with {:?}", i, t, s, r);
                Ok(())
            }
            3 => {
                let (a, b) = (src.below(96), src.below(96));
                let mut t = String::new();
                for x in [a, b] {
                    if x < 95 {
                        t.push((32 + x as u8) as char);
                    }
                }
                // the text may stand for the right sum without being its two digits
                let digit = |x: u64| if x < 95 { ((32 + x as u8) as char).to_digit(16) } else { None };
                let r = match src.below(3) {
                    0 => None,
                    1 => digit(b).or(digit(a)),
                    _ => digit(a).map(|d| d << 4),
                };
                let mut body = src.pick(&["$GPGLL,4916.45,N,12311.12,W,225444,A,A", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "$GPZDA,201530.00,04", "$GPGLL,4916.45,N,12311.12,W,225444,A,k", "$no comma"]).to_string();
                if let Some(r) = r.filter(|r| *r < 128) {
                    body.push(',');
                    tune(&mut body, r as u8);
                    ctx.class("sum of one digit");
                }
                let body = body.as_str();
                if t.contains('*') || body.contains('*') {
                    return Ok(());
                }
                self.gate(ctx, body, &t)
            }
            _ => {
                let (b, what) = gen_ascii_body(src);
                let body = with_delim(src, b);
                ctx.class(what);
                if src.chance(1, 4) {
                    return self.pending(src, ctx);
                }
                if src.chance(1, 8) {
                    return self.wide(src, ctx, &body);
                }
                if src.chance(1, 3) && body.len() > 1 {
                    // one changed character under the old sum
                    let sum = xor(&body);
                    let mut n = body.clone().into_bytes();
                    let i = 1 + src.usize(n.len() - 1);
                    let c = src.below(128) as u8;
                    if n[i] == c {
                        return Ok(());
                    }
                    n[i] = c;
                    let s = format!("{}*{:02X}", String::from_utf8(n).unwrap(), sum);
                    ctx.nontrivial();
                    ctx.class("changed character");
                    let r = once(ctx, &s);
                    ensure!(kind(&r) == "corrupted", "changed character {} not detected: {:?} answered with {:?}", i, s, r);
                    return Ok(());
                }
                let right = format!("{:02X}", xor(&body));
                let t = match src.below(10) {
                    9 => {
                        // long texts, also such that begin or end with the right sum
                        let n = src.pick(&[1usize, 2, 6, 7, 14, 30, 60, 61, 78, 80, 82, 100, 128, 250, 256, 1000, 4096]) + src.usize(2);
                        let c = src.pick(&["0", "F", " ", ",", "A", "x", "\t", ",0"]);
                        let fill = c.repeat(n);
                        match src.below(4) {
                            0 => right + &fill,
                            1 => fill + &right,
                            2 => fill,
                            _ => format!("{}{}{}", right, fill, right),
                        }
                    }
                    0 | 1 => right,
                    2 => format!("{:02X}", xor(&body) ^ (1 << src.below(8)) as u8),
                    3 => format!("{:02X}", src.below(256)),
                    4 => right[..1].to_string(),
                    5 if src.chance(1, 3) => format!("{}{}", right, src.pick(&[" ", "\r", "\n", "\r\n", "\t", "\0", "  "])),
                    5 => format!("{}{}", right, (33 + src.below(94) as u8) as char),
                    6 => format!("{}{}", (32 + src.below(95) as u8) as char, right),
                    7 => {
                        let n = src.usize(6);
                        (0..n).map(|_| (32 + src.below(95) as u8) as char).collect()
                    }
                    _ => format!("{:02X}", xor(&body).wrapping_add(1 + src.below(255) as u8)),
                };
                if t.contains('*') {
                    return Ok(());
                }
                self.gate(ctx, &body, &t)
            }
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["left open: the right checksum in lower case; whether the characters (low eight bits) or the UTF-8 bytes of text beyond ASCII are summed; not generated: texts without a start delimiter"]
    }
}
impl Checksum {
    fn gate(&self, ctx: &mut Ctx, body: &str, text: &str) -> R {
        let right = format!("{:02X}", xor(body));
        let base = once(ctx, &format!("{}*", body));
        // without any asterisk at all, when there is none inside
        if !body.contains('*') {
            let bare = once(ctx, body);
            ensure!(same(&base, &bare), "{:?} answered with {:?}, with an asterisk with {:?}", body, bare, base);
        }
        ensure!(kind(&base) != "corrupted", "{:?} without a checksum reported as corrupted", body);
        let s = format!("{}*{}", body, text);
        let r = once(ctx, &s);
        if text == right {
            ctx.class("right checksum");
            ensure!(same(&r, &base), "{:?} answered with {:?}, without checksum with {:?}", s, r, base);
        } else if text.is_empty() {
            // no checksum
        } else if text.eq_ignore_ascii_case(&right) {
            // lower case: left open
        } else {
            ctx.nontrivial();
            ctx.class("wrong checksum");
            ensure!(kind(&r) == "corrupted", "{:?} (right checksum {}) answered with {:?}", s, right, r);
        }
        Ok(())
    }
    /// Text beyond ASCII: whether its characters (their low eight bits) or its bytes count is left open, any
    /// other sum is wrong.
    fn wide(&self, src: &mut Src, ctx: &mut Ctx, body: &str) -> R {
        let mut c: Vec<char> = body.chars().collect();
        for _ in 0..1 + src.usize(3) {
            let i = 1 + src.usize(c.len());
            let w = src.pick(&['\u{e4}', '\u{ff}', '\u{80}', '\u{b0}', '\u{c4}', '\u{100}', '\u{12a}', '\u{20ac}', '\u{ff0a}', '\u{1f600}', '\u{fffd}']);
            if src.bool() || i >= c.len() {
                c.insert(i.min(c.len()), w);
            } else {
                c[i] = w;
            }
        }
        let body: String = c.into_iter().collect();
        let chars = body.chars().skip(1).fold(0u8, |a, x| a ^ (x as u32 as u8));
        let bytes = xor(&body);
        let text = match src.below(6) {
            0 => format!("{:02X}", chars),
            1 => format!("{:02X}", bytes),
            2 => format!("{:02X}", chars & 0x7f),
            3 => format!("{:02X}", chars ^ (1 << src.below(8)) as u8),
            4 => format!("{:02X}", bytes & 0x7f),
            _ => format!("{:02X}", src.below(256)),
        };
        let base = once(ctx, &format!("{}*", body));
        ensure!(kind(&base) != "corrupted", "{:?} without a checksum reported as corrupted", body);
        let s = format!("{}*{}", body, text);
        let r = once(ctx, &s);
        ctx.class("text beyond ASCII");
        if text == format!("{:02X}", chars) || text == format!("{:02X}", bytes) {
            ensure!(kind(&r) == "corrupted" || same(&r, &base), "{:?} answered with {:?}, without checksum with {:?}", s, r, base);
        } else {
            ctx.nontrivial();
            ensure!(kind(&r) == "corrupted", "{:?} (sum {:02X} over characters, {:02X} over bytes) answered with {:?}", s, chars, bytes, r);
        }
        Ok(())
    }
    /// A corrupted part completes nothing; the right one then does.
    fn pending(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        let v = loop {
            let k = src_k(src);
            let v = whole_message(src, k);
            if v.len() > 1 {
                break v;
            }
        };
        ctx.class("pending message");
        ctx.nontrivial();
        let mut p = P::new();
        let mut q = P::new();
        for s in &v {
            let (body, sum) = s.rsplit_once('*').unwrap();
            let w = u8::from_str_radix(sum, 16).unwrap() ^ (1 + src.below(255)) as u8;
            let bad = format!("{}*{:02X}", body, w);
            let r = p.parse(ctx, &bad);
            ensure!(kind(&r) == "corrupted", "{:?} answered with {:?}", bad, r);
            let r = p.parse(ctx, s);
            let f = q.parse(ctx, s);
            ensure!(same(&r, &f), "after its corrupted copy {:?} is answered with {:?}, otherwise with {:?}", s, r, f);
        }
        Ok(())
    }
}
fn src_k(src: &mut Src) -> u64 {
    src.below(100)
}

// ---- C04 ------------------------------------------------------------------------------------------
pub struct Talkers;
fn set_source(r: &Res, n: gnss::NavigationSystem) -> Res {
    use ParsedSentence::*;
    let mut r = r.clone();
    if let Ok(x) = r.as_mut() {
        match x {
            Gga(g) => g.source = n,
            Rmc(g) => g.source = n,
            Gsa(g) => g.source = n,
            Vtg(g) => g.source = n,
            Gll(g) => g.source = n,
            Gsv(v) => v.iter_mut().for_each(|g| g.source = n),
            _ => {}
        }
    }
    r
}
fn sources(r: &Res) -> Vec<gnss::NavigationSystem> {
    use ParsedSentence::*;
    match r {
        Ok(Gga(g)) => vec![g.source],
        Ok(Rmc(g)) => vec![g.source],
        Ok(Gsa(g)) => vec![g.source],
        Ok(Vtg(g)) => vec![g.source],
        Ok(Gll(g)) => vec![g.source],
        Ok(Gsv(v)) => v.iter().map(|g| g.source).collect(),
        _ => vec![],
    }
}
pub fn station_in(r: &Res) -> Option<ais::Station> {
    use ParsedSentence::*;
    match r {
        Ok(VesselDynamicData(v)) => Some(v.station),
        Ok(BaseStationReport(v)) => Some(v.station),
        Ok(BinaryAddressedMessage(v)) => Some(v.station),
        Ok(StandardSarAircraftPositionReport(v)) => Some(v.station),
        Ok(UtcDateInquiry(v)) => Some(v.station),
        Ok(AidToNavigationReport(v)) => Some(v.station),
        _ => None,
    }
}
const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyz";
impl Property for Talkers {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A case is one GNSS sentence or GSV group, or one AIS message (one or two sentences, or a type 24 pair) of generated content, sent once under a generated two-character talker (known ones favoured; letters, digits, lower case) and once under GP or AI as VDM. The satellite system, station and own-vessel mark must be those of a reference table, and with them set equal both results must be identical. Sweeps: all 676 letter pairs x all GNSS kinds, all 676 x AIS kinds x VDM/VDO. Non-trivial: the message was decoded to data and the talker differs from the reference sentence's or it is a VDO."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 10_000_000, guided: 2_000_000, sweep_reps: 20 }
        } else {
            Plan { random: 350_000, guided: 60_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for a in 0..26 {
            for b in 0..26 {
                for k in 0..7 {
                    v.push(vec![1, a, b, k]);
                }
                for k in 0..AIS_TYPES.len() as u64 {
                    v.push(vec![2, a, b, k, 0]);
                    v.push(vec![2, a, b, k, 1]);
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.below(3);
        let mut t = String::new();
        if mode > 0 {
            t.push(ALNUM[src.usize(26)] as char);
            t.push(ALNUM[src.usize(26)] as char);
        }
        let gnss = match mode {
            0 => src.bool(),
            m => m == 1,
        };
        let rnd = |src: &mut Src, known: &[&str]| match src.below(4) {
            0 | 1 => src.pick(known).to_string(),
            2 => {
                // one character off a known one
                let mut c = src.pick(known).as_bytes().to_vec();
                let i = src.usize(2);
                c[i] = ALNUM[src.usize(ALNUM.len())];
                String::from_utf8(c).unwrap()
            }
            _ => (0..2).map(|_| ALNUM[src.usize(ALNUM.len())] as char).collect(),
        };
        if gnss {
            let k = src.usize(7);
            if mode == 0 {
                t = rnd(src, NAV_TALKERS);
            }
            let reft = "GP";
            let bodies: Vec<String> = if k < 5 {
                vec![gen_gnss_body(src, k, reft)]
            } else {
                let n = if k == 5 { 1 } else { 2 + src.below(3) };
                let mut v: Vec<String> = (1..=n).map(|i| format!("${}GSV,{},{},11,{},{}", reft, n, i, gen_gsv_entry(src).0, gen_gsv_entry(src).0)).collect();
                if src.bool() {
                    v.reverse();
                }
                v
            };
            ctx.class("GNSS");
            let (mut p, mut q) = (P::new(), P::new());
            for b in &bodies {
                let s = format!("${}{}", t, &b[3..]);
                let s = seal(src, s);
                let f = p.parse(ctx, &with_sum(b));
                let r = q.parse(ctx, &s);
                ensure!(same(&set_source(&f, nav_of(&t)), &r), "{} answered with {:?}, under GP with {:?}", s, r, f);
                for x in sources(&r) {
                    ensure!(x == nav_of(&t), "{} reported for {:?}, talker {} is {:?}", s, x, t, nav_of(&t));
                }
                if !sources(&r).is_empty() && t != reft {
                    ctx.nontrivial();
                }
            }
            return Ok(());
        }
        let ty = AIS_TYPES[src.usize(AIS_TYPES.len())];
        let own = src.bool();
        if mode == 0 {
            t = rnd(src, AIS_TALKERS);
        }
        ctx.class(if own { "AIS VDO" } else { "AIS VDM" });
        let mut msgs = vec![];
        if ty == 24 || ty == 124 {
            let a = gen_msg(src, 24);
            let mut b = gen_msg(src, 124);
            put(&mut b, 8, 30, get(&a, 8, 30));
            if src.bool() {
                msgs.extend([armour(&a), armour(&b)]);
            } else {
                msgs.extend([armour(&b), armour(&a)]);
            }
        } else {
            msgs.push(armour(&gen_msg(src, ty)));
        }
        let (mut p, mut q) = (P::new(), P::new());
        let mut done = false;
        for m in msgs {
            let mut h = gen_head(src, m.len());
            h.talker = "AI".into();
            h.own = false;
            let f = deliver(&mut p, ctx, &h, &m)?;
            h.talker = t.clone();
            h.own = own;
            let r = deliver(&mut q, ctx, &h, &m)?;
            let want = strip_head(&f, own, station_of(&t));
            ensure!(same(&want, &r), "{}{} answered with {:?}, as AIVDM with {:?}", t, h.kind(), r, f);
            if let Some(x) = station_in(&r) {
                ensure!(x == station_of(&t), "talker {} reported as {:?}", t, x);
            }
            if let Some(x) = own_of(&r) {
                ensure!(x == own, "own vessel mark of {}{} is {}", t, h.kind(), x);
                done = true;
            }
        }
        ensure!(done, "type {} gave no data", ty);
        if t != "AI" || own {
            ctx.nontrivial();
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["all parts of one message come under one talker and one of VDM/VDO"]
    }
}

// ---- C05 ------------------------------------------------------------------------------------------
pub struct Rejects;
const NO_DECODER: &[u64] = &[
    0, 7, 8, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 25, 26, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
];
const NOT_NUM: &[&str] = &["", "x", "1x", "x1", " 1", "1 ", "A", "one", "nan", "--", "!", "\u{661}", "\u{ff11}", "1-1", "1/2", "0x1", "\u{bd}", "1_1", "#1", "I", "l", "O", "inf", "1;", "\t", "2x", "x2"];
fn bad_symbol(src: &mut Src) -> char {
    loop {
        let c = match src.below(3) {
            0 => (32 + src.below(95) as u8) as char,
            1 => src.pick(&['X', '_', 'x', '/', '~', ' ', 'Y', '^', 'z', '\u{7f}', '\u{0}', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{130}', '\u{161}', '\u{430}', '\u{1030}', '\n', '\t']),
            _ => char::from_u32(src.below(0x3000) as u32).unwrap_or('~'),
        };
        if !matches!(c, '0'..='W' | '`'..='w' | ',' | '*') {
            return c;
        }
    }
}
impl Rejects {
    fn want(&self, r: &Res, s: &str, what: &str, allowed: &[&str]) -> R {
        ensure!(allowed.contains(&kind(r)), "{}: {:?} answered with {:?}", what, s, r);
        Ok(())
    }
}
impl Property for Rejects {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "A case is one of: a $ or ! sentence with a three-character type without decoder (unsupported; types of other lengths and sentences with something before the delimiter or without it: any error); an AIS message of a number without decoder, any payload, in one or two sentences (unsupported); text without a comma (invalid); an AIS sentence with a part count or number that is not a number (invalid); a supported AIS message with 1-3 characters outside the six-bit alphabet, ASCII or not, in one sentence (invalid) or in a two-part message (at least one part invalid, no part data); a type 24 message with part number 2 or 3 (invalid). Sweeps: all 17576 three-letter types under $ and under !, all 51 numbers x payload lengths, every character below 0x500 as payload symbol at three positions. Sent to a new parser or to one with other unfinished messages. Non-trivial: every case."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 12_000_000, guided: 3_000_000, sweep_reps: 8 }
        } else {
            Plan { random: 400_000, guided: 80_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for k in 0..17576 {
            v.push(vec![1, k, 0]);
            v.push(vec![1, k, 1]);
        }
        for (k, _) in NO_DECODER.iter().enumerate() {
            for n in 0..75 {
                v.push(vec![2, k as u64, n]);
            }
        }
        for c in 0..0x500 {
            for p in 0..3 {
                v.push(vec![3, c, p]);
            }
        }
        for k in 0..NOT_NUM.len() as u64 {
            for f in 0..2 {
                for _ in 0..12 {
                    v.push(vec![4, k, f]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        for s in ["$GPGG", "$", "!", "garbage", "*", "$GPGGA", "!AIVDM", "\u{20ac}\u{20ac}", "$GPGGA*56"] {
            if s == "$GPGGA*56" && xor("$GPGGA") != 0x56 {
                continue;
            }
            let r = once(ctx, s);
            self.want(&r, s, "text without a comma", &["invalid"])?;
        }
        for s in ["$GP,1", "$,1", "!AI,1,1", "$GPGG,1", "$\u{20ac}GGA,1", "!A\u{e9}VDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0"] {
            let r = once(ctx, s);
            self.want(&r, s, "short or non-ASCII type", &["invalid", "unsupported"])?;
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.below(5);
        ctx.nontrivial();
        let mut p = P::new();
        let sel = if mode == 0 { src.below(10) } else { mode - 1 + 100 };
        let busy = |src: &mut Src, ctx: &mut Ctx, p: &mut P| {
            if src.chance(1, 4) {
                for s in ["!AIVDM,2,1,900,A,55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8,0", "$GPGSV,4,1,11,03,03,111,00", "!AIVDM,1,1,,A,H42O55i18tMET00000000000000,2"] {
                    let _ = p.parse(ctx, s);
                }
            }
        };
        match sel {
            0 | 100 => {
                ctx.class("sentence type without decoder");
                let (ty, ais) = if sel == 100 {
                    let k = src.below(17576);
                    let t: String = [k / 676, k / 26 % 26, k % 26].iter().map(|x| (b'A' + *x as u8) as char).collect();
                    (t, src.bool())
                } else {
                    let a = src.bool();
                    let t = match src.below(4) {
                        0 => src.pick(&["ZDA", "HDT", "XTE", "GRS", "GST", "TXT", "ALM", "BOD", "RMA", "RMB", "STN", "TRF", "VBW", "XTC", "GNS", "DBT", "VDM", "VDO", "GGA", "RMC", "ABK", "VSD", "MWV"]).to_string(),
                        1 => {
                            let mut c = src.pick(&["GGA", "RMC", "GSA", "GSV", "VTG", "GLL", "VDM", "VDO"]).as_bytes().to_vec();
                            let i = src.usize(3);
                            c[i] = ALNUM[src.usize(ALNUM.len())];
                            String::from_utf8(c).unwrap()
                        }
                        _ => {
                            (0..3).map(|_| ALNUM[src.usize(ALNUM.len())] as char).collect()
                        }
                    };
                    (t, a)
                };
                let has = if ais { matches!(ty.as_str(), "VDM" | "VDO") } else { matches!(ty.as_str(), "GGA" | "RMC" | "GSA" | "GSV" | "VTG" | "GLL") };
                if has {
                    return Ok(());
                }
                busy(src, ctx, &mut p);
                let body = src.pick(&["1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "", "1", "x,y,z", ",,,,,,,,,,,", "2,1,1,A,55?MbV02;H;s,0", "3,1,11,03,03,111,00"]);
                let s = format!("{}{}{},{}", if ais { '!' } else { '$' }, if ais { src.pick(AIS_TALKERS) } else { src.pick(NAV_TALKERS) }, ty, body);
                let s = seal(src, s);
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "sentence type without decoder", &["unsupported"])
            }
            1 | 101 => {
                ctx.class("AIS number without decoder");
                let ty = NO_DECODER[src.usize(NO_DECODER.len())];
                let n = if sel == 101 { src.usize(75) } else if src.chance(1, 8) { src.usize(1200) } else { src.usize(160) };
                let mut pl = String::new();
                pl.push(sym_char(ty));
                let style = src.below(3);
                for _ in 0..n {
                    pl.push(sym_char(match style {
                        0 => src.below(64),
                        1 => 0,
                        _ => 63,
                    }));
                }
                let h = gen_head(src, pl.len());
                busy(src, ctx, &mut p);
                let r = deliver(&mut p, ctx, &h, &pl)?;
                self.want(&r, &pl, "AIS message number without decoder", &["unsupported"])
            }
            2 | 102 => {
                ctx.class("bad payload symbol");
                let ty = src.pick(&[1u64, 2, 3, 4, 5, 6, 9, 10, 18, 21, 24, 124, 27]);
                let (fixed, at) = if sel == 102 {
                    let c = char::from_u32(src.below(0x500) as u32).unwrap_or('~');
                    if matches!(c, '0'..='W' | '`'..='w' | ',' | '*') {
                        return Ok(());
                    }
                    (Some(c), src.below(3))
                } else {
                    (None, 3)
                };
                let b = gen_msg(src, ty);
                let mut c: Vec<char> = armour(&b).chars().collect();
                if src.chance(1, 4) {
                    // the symbol may be beyond everything that is decoded
                    let n = src.pick(&[10usize, 40, 100, 300, 1000]);
                    for _ in 0..src.usize(n) + 1 {
                        c.push(sym_char(src.below(64)));
                    }
                }
                let k = if fixed.is_some() { 1 } else { 1 + src.usize(3) };
                for _ in 0..k {
                    let x = match fixed {
                        Some(x) => x,
                        None => bad_symbol(src),
                    };
                    // the message number itself stays intact
                    let i = match at {
                        0 => 1,
                        1 => c.len() - 1,
                        _ => 1 + src.usize(c.len() - 1),
                    };
                    if src.bool() {
                        c[i] = x;
                    } else {
                        c.insert(i, x);
                    }
                }
                busy(src, ctx, &mut p);
                let kind_s = src.pick(&["VDM", "VDO"]);
                let fin = |src: &mut Src, s: String| seal_any(src, s);
                if src.chance(1, 3) {
                    let cut = src.usize(c.len() + 1);
                    let (x, y): (String, String) = (c[..cut].iter().collect(), c[cut..].iter().collect());
                    let mut v = vec![format!("!AI{},2,1,3,B,{},0", kind_s, x), format!("!AI{},2,2,3,B,{},0", kind_s, y)];
                    if src.bool() {
                        v.reverse();
                    }
                    let mut invalid = 0;
                    for s in v {
                        let s = fin(src, s);
                        let r = p.parse(ctx, &s);
                        self.want(&r, &s, "two-part message with characters outside the six-bit alphabet", &["invalid", "incomplete"])?;
                        invalid += (kind(&r) == "invalid") as u32;
                    }
                    ensure!(invalid > 0, "two-part message with characters outside the six-bit alphabet was never rejected");
                    return Ok(());
                }
                let ch = src.pick(CHANS);
                let s = fin(src, format!("!AI{},1,1,,{},{},0", kind_s, ch, c.iter().collect::<String>()));
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "payload with characters outside the six-bit alphabet", &["invalid"])
            }
            3 | 103 => {
                ctx.class("part count or number not a number");
                let k = if sel == 103 { src.pick(NOT_NUM).to_string() } else if src.bool() { src.pick(NOT_NUM).to_string() } else {
                    let mut s: String = (0..src.usize(4)).map(|_| gen_char(src)).collect();
                    s.push((b'a' + src.below(26) as u8) as char);
                    s
                };
                if k.contains(',') || k.contains('*') {
                    return Ok(());
                }
                let second = src.bool();
                let ty = src.pick(AIS_TYPES);
                let b = gen_msg(src, ty);
                let pl = armour(&b);
                let other = src.pick(&["1", "2"]);
                let s = if second {
                    format!("!{}{},{},{},{},A,{},0", src.pick(AIS_TALKERS), src.pick(&["VDM", "VDO"]), other, k, src.pick(&["", "1", "900"]), pl)
                } else {
                    format!("!{}{},{},{},{},A,{},0", src.pick(AIS_TALKERS), src.pick(&["VDM", "VDO"]), k, other, src.pick(&["", "1", "900"]), pl)
                };
                busy(src, ctx, &mut p);
                let s = seal_any(src, s);
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "part count or number that is not a number", &["invalid"])
            }
            4 => {
                ctx.class("text without a comma");
                let mut s: String = match src.below(3) {
                    0 => gen_unicode(src),
                    1 => src.pick(TEMPLATES).to_string(),
                    _ => {
                        let b = gen_body(src);
                        let n = src.usize(b.len());
                        b[..n].to_string()
                    }
                };
                s = s.chars().filter(|c| *c != ',' && *c != '*').collect();
                if src.chance(1, 3) {
                    s = s.chars().take(6).collect();
                }
                busy(src, ctx, &mut p);
                let s = if s.is_ascii() && !s.is_empty() { seal(src, s) } else { s };
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "text without a comma", &["invalid"])
            }
            5 => {
                ctx.class("type 24 part 2 or 3");
                let mut b = gen_msg(src, 124);
                put(&mut b, 38, 2, 2 + src.below(2));
                let mut pl = armour(&b);
                if src.bool() {
                    let n = 7 + src.usize(pl.len() - 6);
                    pl.truncate(n);
                }
                let h = gen_head(src, pl.len());
                busy(src, ctx, &mut p);
                if src.bool() {
                    // the other parts of the same vessel are there already
                    let mut a = gen_msg(src, src_part(b.len()));
                    put(&mut a, 8, 30, get(&b, 8, 30));
                    let mut ha = Head::plain();
                    ha.own = h.own;
                    let _ = deliver(&mut p, ctx, &ha, &armour(&a))?;
                }
                let r = deliver(&mut p, ctx, &h, &pl)?;
                self.want(&r, &pl, "type 24 message with part number 2 or 3", &["invalid"])
            }
            8 | 9 => {
                ctx.class("something before the start delimiter");
                let b = gen_body(src);
                let b = b.split('*').next().unwrap();
                let pre = match src.below(4) {
                    0 => {
                        let n = 1 + src.usize(3);
                        (0..n).map(|_| gen_char(src)).filter(|c| *c != ',' && *c != '*' && *c != '$' && *c != '!').collect::<String>()
                    }
                    1 => src.pick(&["\\s:a,c:1*5A\\", "\\g:1-2-3\\", "1-2-3:", "2021-06-15 12:34:56 ", "<13>", "\u{feff}\u{feff}", ">", "\"", "'", "#", "//"]).to_string(),
                    _ => src.pick(&[" ", "\t", "\n", "\r\n", "\0", "\u{feff}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{3000}", "\u{85}", "\u{c}", "\x1b", "\u{b}"]).to_string(),
                };
                let s = if pre.is_empty() || src.chance(1, 10) { b[1..].to_string() } else { format!("{}{}", pre, b) };
                busy(src, ctx, &mut p);
                let s = match src.below(4) {
                    // the sum of the sentence itself
                    0 => format!("{}*{:02X}", s, xor(b)),
                    1 if s.is_ascii() => with_sum(&s),
                    _ => s,
                };
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "text that does not start with the delimiter", &["unsupported", "invalid", "corrupted"])
            }
            _ => {
                ctx.class("odd sentence type");
                let t: String = match src.below(4) {
                    0 => {
                        let n = src.usize(5);
                        "GPGGA"[..n].to_string()
                    }
                    1 => {
                        let n = src.usize(5);
                        "AIVDM"[..n].to_string()
                    }
                    2 => src.pick(&["GPGGAX", "GPGGAA", "AIVDMX", "AIVDMVDM", "GPRMCRMC", "PUBX00", "GGPGGA", "GPGGA ", " GPGGA", "XGPGGA"]).to_string(),
                    _ => {
                        let n = src.usize(9);
                        (0..n).map(|_| gen_char(src)).filter(|c| *c != ',' && *c != '*').collect()
                    }
                };
                if t.chars().count() == 5 || (t.len() == 5) {
                    return Ok(());
                }
                let s = format!("{}{},{}", src.pick(&["$", "!"]), t, src.pick(&["1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,"]));
                busy(src, ctx, &mut p);
                let s = seal_any(src, s);
                let r = p.parse(ctx, &s);
                self.want(&r, &s, "sentence type of another length", &["unsupported", "invalid"])
            }
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["left open and not generated: part counts like 256, -1, 1.0 or +1, part count 0 and three or more parts, part numbers outside the count"]
    }
}
fn src_part(n: usize) -> u64 {
    if n % 2 == 0 {
        24
    } else {
        124
    }
}

// ---- C21 ------------------------------------------------------------------------------------------
pub struct Country;
const FULL: bool = true;
impl Country {
    fn table() -> Vec<Option<&'static str>> {
        let mut t: Vec<Option<&'static str>> = vec![None; 4295];
        for (m, c) in MIDS {
            t[*m as usize] = Some(*c);
        }
        t
    }
    fn ok(m: u32, want: Option<&'static str>, got: Option<&'static str>) -> bool {
        // MID 306 is shared by three codes
        got == want || (m / 1_000_000 == 306 && matches!(got, Some("CW") | Some("SX") | Some("BQ")))
    }
}
impl Property for Country {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Exhaustive: country() of every 32-bit MMSI (each is one evaluation; the non-trivial ones counted are one per leading triple) against an embedded ITU MID table of 292 entries. Generated: type 5 messages and type 24 pairs with generated MMSI and all other fields, and directly filled records, whose country must depend on the MMSI only. Non-trivial: the MMSI starts with an assigned MID, or has an assigned MID as neighbour or as the first digits of fewer or more than nine."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 4_000_000, guided: 200_000, sweep_reps: 1 }
        } else {
            Plan { random: 120_000, guided: 20_000, sweep_reps: 1 }
        }
    }
    fn exhaustive(&self, w: u64, n: u64, ctx: &mut Ctx, beat: &mut dyn FnMut()) -> Result<u64, String> {
        let t = Country::table();
        let mut v = ais::VesselStaticData::default();
        let mut count = 0;
        for b in (w..4295).step_by(n as usize) {
            beat();
            let lo = b * 1_000_000;
            let hi = (lo + 1_000_000).min(1 << 32);
            ctx.hash = b;
            for m in lo..hi {
                v.mmsi = m as u32;
                let got = v.country();
                if got != t[b as usize] && !Country::ok(m as u32, t[b as usize], got) {
                    return Err(format!("country of MMSI {:09} is {:?}, the ITU table says {:?}", m, got, t[b as usize]));
                }
                count += 1;
            }
            // coverage counters saturate; keep the branch log small
            unsafe { rt::EDGES = 0 };
        }
        let _ = FULL;
        Ok(count)
    }
    fn exhaustive_note(&self) -> Option<&'static str> {
        Some("all 2^32 values of the MMSI field of VesselStaticData")
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let t = Country::table();
        let mid = MIDS[src.usize(MIDS.len())].0;
        let m: u32 = match src.below(6) {
            0 | 1 => mid * 1_000_000 + src.below(1_000_000) as u32,
            2 => (mid + 1) * 1_000_000 - src.below(3) as u32,
            3 => mid * src.pick(&[1u32, 10, 100, 1000, 10_000, 100_000]) + src.below(1000) as u32,
            4 => src.below(1 << 30) as u32,
            _ => 970_000_000 + mid * src.pick(&[1000u32, 10_000]) + src.below(100) as u32,
        } & ((1 << 30) - 1);
        let want = t[(m / 1_000_000) as usize];
        ctx.nontrivial();
        ctx.class(if want.is_some() { "assigned" } else { "not assigned" });
        let got = if src.bool() {
            let mut b = gen_msg(src, 5);
            put(&mut b, 8, 30, m as u64);
            let p = armour(&b);
            let h = gen_head(src, p.len());
            let mut q = P::new();
            match deliver(&mut q, ctx, &h, &p)? {
                Ok(ParsedSentence::VesselStaticData(v)) => {
                    ensure!(v.mmsi == m, "MMSI {} decoded as {}", m, v.mmsi);
                    api(|| v.country())
                }
                r => return Err(format!("type 5 answered with {:?}", r)),
            }
        } else {
            let mut a = gen_msg(src, 24);
            let mut b = gen_msg(src, 124);
            put(&mut a, 8, 30, m as u64);
            put(&mut b, 8, 30, m as u64);
            let mut h = Head::plain();
            h.own = src.bool();
            let v = crate::ais::pair24(ctx, &h, &h, &a, &b, src.bool())?;
            ensure!(v.mmsi == m, "MMSI {} decoded as {}", m, v.mmsi);
            api(|| v.country())
        };
        ensure!(Country::ok(m, want, got), "country of MMSI {:09} is {:?}, the ITU table says {:?}", m, got, want);
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["MID 306 is assigned to three territories (BQ, CW, SX); any of the three codes is accepted", "the Adelie Land, Saint Paul, Crozet and Kerguelen MIDs are TF, Reunion is RE"]
    }
}

// ---- C29: printed names -----------------------------------------------------------------------------
pub struct Names;
/// Letters and digits only, lower case.
fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}
/// `want` has alternatives separated by bars.
fn printed<T: std::fmt::Display>(what: &str, v: &T, want: &str) -> R {
    let got = api(|| format!("{}", v));
    ensure!(want.split('|').any(|w| plain(w) == plain(&got)), "{} prints as {:?}, documented is {:?}", what, got, want);
    Ok(())
}
const NAV_NAMES: &[(&str, &str)] = &[("GN", "combination"), ("GP", "GPS"), ("GL", "GLONASS"), ("GA", "Galileo"), ("BD", "BeiDou"), ("GI", "NavIC"), ("QZ", "QZSS")];
const STATION_NAMES: &[(&str, &str)] = &[
    ("AB", "base station"),
    ("AD", "dependent AIS base station"),
    ("AI", "mobile station"),
    ("AN", "aid to navigation station"),
    ("AR", "AIS receiving station"),
    ("AS", "limited base station"),
    ("AT", "AIS transmitting station"),
    ("AX", "repeater station"),
];
const EPFD_NAMES: [&str; 16] = [
    "undefined", "GPS", "GLONASS", "GPS/GLONASS", "Loran-C", "Chayka", "integrated navigation system", "surveyed", "Galileo", "undefined", "undefined", "undefined",
    "undefined", "undefined", "undefined", "undefined",
];
const AID_NAMES: [&str; 32] = [
    "not specified",
    "reference point",
    "RACON",
    "fixed structure",
    "(reserved)",
    "light without sectors",
    "light with sectors",
    "leading light front",
    "leading light rear",
    "cardinal beacon, north",
    "cardinal beacon, east",
    "cardinal beacon, south",
    "cardinal beacon, west",
    "lateral beacon, port side",
    "lateral beacon, starboard side",
    "lateral beacon, preferred channel, port side",
    "lateral beacon, preferred channel, starboard side",
    "isolated danger beacon",
    "safe water|safe water beacon",
    "special mark|special mark beacon",
    "cardinal mark, north",
    "cardinal mark, east",
    "cardinal mark, south",
    "cardinal mark, west",
    "port hand mark",
    "starboard hand mark",
    "preferred channel, port side",
    "preferred channel, starboard side",
    "isolated danger",
    "safe water",
    "special mark",
    "light vessel",
];
const SHIP30: [&str; 10] = ["fishing", "towing", "towing, long", "dredging or underwater ops", "diving ops", "military ops", "sailing", "pleasure craft", "(reserved)", "(reserved)"];
const SHIP50: [&str; 10] =
    ["pilot", "search and rescue", "tug", "port tender", "anti-pollution equipment", "law enforcement", "(local)", "(local)", "medical transport", "noncombatant"];
fn ship_name(v: u64) -> &'static str {
    match v / 10 {
        1 => "(reserved)",
        2 => "wing in ground",
        3 => SHIP30[(v % 10) as usize],
        4 => "high-speed craft",
        5 => SHIP50[(v % 10) as usize],
        6 => "passenger",
        7 => "cargo",
        8 => "tanker",
        9 => "other",
        _ => "(not available)",
    }
}
fn cargo_name(v: u64) -> &'static str {
    match (v / 10, v % 10) {
        (1 | 2 | 4 | 6 | 7 | 8 | 9, 1) => "hazardous category A",
        (1 | 2 | 4 | 6 | 7 | 8 | 9, 2) => "hazardous category B",
        (1 | 2 | 4 | 6 | 7 | 8 | 9, 3) => "hazardous category C",
        (1 | 2 | 4 | 6 | 7 | 8 | 9, 4) => "hazardous category D",
        (1 | 2 | 4 | 6 | 7 | 8 | 9, 5..=9) => "(reserved)",
        _ => "undefined",
    }
}
const QUALITY_NAMES: [&str; 9] = [
    "invalid",
    "GPS fix",
    "DGPS fix",
    "PPS fix",
    "Real-Time Kinematic",
    "Real-Time Kinematic (floating point)",
    "dead reckoning",
    "manual input mode",
    "simulation mode",
];
fn class_of(t: u64) -> Option<&'static str> {
    match t {
        1 | 2 | 3 | 5 | 27 => Some("Class A"),
        18 | 24 | 124 => Some("Class B"),
        _ => None,
    }
}
impl Property for Names {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "A case decodes one generated message of any kind with one code (talker, ship-and-cargo type, position fix type, aid type, UTC second, GGA quality, GSA fix type, FAA mode) forced to a value, and prints every enumeration of the result that has a printed form; each text must be the documented one of the transmitted code (compared without case, blanks and punctuation). Sweeps: every code of every table. Non-trivial: every case that gives a result."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 10_000_000, guided: 1_000_000, sweep_reps: 2000 }
        } else {
            Plan { random: 300_000, guided: 50_000, sweep_reps: 60 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for k in 0..AIS_TYPES.len() as u64 {
            for c in 0..256 {
                // [ais, kind, code]
                v.push(vec![0, k, c]);
            }
        }
        for k in 0..6 {
            for c in 0..16 {
                v.push(vec![1, k, c]);
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        if src.below(2) == 0 {
            let ty = AIS_TYPES[src.usize(AIS_TYPES.len())];
            let code = src.below(256);
            let mut b = gen_msg(src, ty);
            match ty {
                1 | 2 | 3 => put(&mut b, 137, 6, code & 63),
                4 => put(&mut b, 134, 4, code & 15),
                5 => {
                    put(&mut b, 232, 8, code);
                    if src.bool() {
                        put(&mut b, 270, 4, code & 15);
                    }
                }
                21 => {
                    put(&mut b, 38, 5, code & 31);
                    if src.bool() {
                        put(&mut b, 249, 4, code & 15);
                    }
                }
                124 => put(&mut b, 40, 8, code),
                _ => {}
            }
            let mut h = gen_head(src, armour(&b).len());
            if src.bool() {
                h.talker = format!("{}{}", ALNUM[src.usize(26)] as char, ALNUM[src.usize(26)] as char);
            }
            let mut p = P::new();
            if ty == 24 || ty == 124 {
                // the other part first
                let mut o = gen_msg(src, 148 - ty);
                put(&mut o, 8, 30, get(&b, 8, 30));
                deliver(&mut p, ctx, &h, &armour(&o))?;
                if ty == 24 {
                    b = o.clone();
                    let mut a = gen_msg(src, 24);
                    put(&mut a, 8, 30, get(&b, 8, 30));
                    h.split = None;
                    let r = deliver(&mut p, ctx, &h, &armour(&a))?;
                    return self.statics(ctx, &r, 24, &b);
                }
                h.split = None;
            }
            let r = deliver(&mut p, ctx, &h, &armour(&b))?;
            ctx.class("AIS");
            if let Some(st) = station_in(&r) {
                let w = STATION_NAMES.iter().find(|x| x.0 == h.talker).map_or("other", |x| x.1);
                printed(&format!("the station of talker {}", h.talker), &st, w)?;
                ctx.nontrivial();
            }
            match &r {
                Ok(ParsedSentence::VesselDynamicData(v)) => {
                    printed("the class", &v.ais_type, class_of(ty).unwrap_or(""))?;
                    let sec = get(&b, 137, 6);
                    if (1..=3).contains(&ty) && sec != 60 {
                        let w = match sec {
                            61 => "manual input mode",
                            62 => "dead reckoning mode",
                            63 => "inoperative",
                            _ => "operative",
                        };
                        match &v.positioning_system_meta {
                            Some(m) => printed(&format!("the positioning mode of second {}", sec), m, w)?,
                            None => return Err(format!("no positioning mode for second {}", sec)),
                        }
                    }
                }
                Ok(ParsedSentence::BaseStationReport(v)) => {
                    let c = get(&b, 134, 4);
                    if let Some(x) = &v.position_fix_type {
                        printed(&format!("position fix type {} of type 4", c), x, EPFD_NAMES[c as usize])?;
                    }
                }
                Ok(ParsedSentence::AidToNavigationReport(v)) => {
                    let c = get(&b, 38, 5);
                    printed(&format!("aid type {}", c), &v.aid_type, AID_NAMES[c as usize])?;
                    let c = get(&b, 249, 4);
                    if let Some(x) = &v.position_fix_type {
                        printed(&format!("position fix type {} of type 21", c), x, EPFD_NAMES[c as usize])?;
                    }
                }
                Ok(ParsedSentence::VesselStaticData(_)) => return self.statics(ctx, &r, ty, &b),
                Ok(ParsedSentence::Incomplete) | Err(_) => return Err(format!("type {} answered with {:?}", ty, r)),
                _ => {}
            }
            return Ok(());
        }
        let k = src.usize(6);
        let c = src.below(16);
        let t = if src.bool() { src.pick(NAV_TALKERS).to_string() } else { format!("{}{}", ALNUM[src.usize(26)] as char, ALNUM[src.usize(26)] as char) };
        ctx.class("GNSS");
        let mut f: Vec<String> = if k == 5 { vec![format!("${}GSV", t), "1".into(), "1".into(), "02".into(), "03,10,100,40".into(), "04,,,".into()] } else { gen_gnss_body(src, k, &t).split(',').map(|s| s.into()).collect() };
        let faa = ["A", "D", "E", "N", "S"][(c % 5) as usize];
        match k {
            0 => f[6] = (c % 9).to_string(),
            2 => f[2] = (1 + c % 3).to_string(),
            3 | 4 => {
                let i = if k == 3 { 9 } else { 7 };
                while f.len() <= i {
                    f.push(String::new());
                }
                f[i] = faa.into();
            }
            _ => {}
        }
        let s = seal(src, f.join(","));
        let mut p = P::new();
        let r = p.parse(ctx, &s);
        let w = NAV_NAMES.iter().find(|x| x.0 == t).map_or("other", |x| x.1);
        ensure!(!sources(&r).is_empty(), "{:?} answered with {:?}", s, r);
        ctx.nontrivial();
        for x in sources(&r) {
            printed(&format!("the satellite system of talker {}", t), &x, w)?;
        }
        match &r {
            Ok(ParsedSentence::Gga(g)) => printed(&format!("GGA quality {}", c % 9), &g.quality, QUALITY_NAMES[(c % 9) as usize])?,
            Ok(ParsedSentence::Gsa(g)) => match &g.mode2_3d {
                Some(m) => printed(&format!("GSA fix type {}", 1 + c % 3), m, ["not available|no available|no fix", "2D fix", "3D fix"][(c % 3) as usize])?,
                None => return Err(format!("no GSA fix type in {:?}", r)),
            },
            Ok(ParsedSentence::Vtg(g)) => match &g.faa_mode {
                Some(m) => printed(&format!("FAA mode {}", faa), m, faa)?,
                None => return Err(format!("no FAA mode in {:?}", r)),
            },
            Ok(ParsedSentence::Gll(g)) => match &g.faa_mode {
                Some(m) => printed(&format!("FAA mode {}", faa), m, faa)?,
                None => return Err(format!("no FAA mode in {:?}", r)),
            },
            _ => {}
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts are compared without case, blanks and punctuation; aid types 18 and 19 may or may not print the word beacon; GSA fix type 1 may print as not available, no available or no fix"]
    }
}
impl Names {
    fn statics(&self, ctx: &mut Ctx, r: &Res, ty: u64, b: &Bits) -> R {
        match r {
            Ok(ParsedSentence::VesselStaticData(v)) => {
                ctx.nontrivial();
                printed("the class", &v.ais_type, class_of(ty).unwrap_or(""))?;
                let c = if ty == 5 { get(b, 232, 8) } else { get(b, 40, 8) };
                printed(&format!("ship type {}", c), &v.ship_type, ship_name(c))?;
                printed(&format!("cargo type {}", c), &v.cargo_type, cargo_name(c))?;
                if ty == 5 {
                    let c = get(b, 270, 4);
                    if let Some(x) = &v.position_fix_type {
                        printed(&format!("position fix type {} of type 5", c), x, EPFD_NAMES[c as usize])?;
                    }
                }
                Ok(())
            }
            _ => Err(format!("type {} answered with {:?}", ty, r)),
        }
    }
}

// ---- C31 ------------------------------------------------------------------------------------------
pub struct Ranges;
const POW30: u64 = 1 << 30;
fn within(what: &str, v: u64, below: u64) -> R {
    ensure!(v < below, "{} is {}, the field carries values below {}", what, v, below);
    Ok(())
}
fn real(what: &str, v: Option<f64>, lo: f64, hi: f64) -> R {
    if let Some(v) = v {
        ensure!(v.is_finite() && v >= lo && v <= hi, "{} is {}, the field carries {} to {}", what, v, lo, hi);
    }
    Ok(())
}
fn place(lat: Option<f64>, lon: Option<f64>) -> R {
    // 27 and 28 bits of 1/10000 minute
    real("latitude", lat, -111.9, 111.9)?;
    real("longitude", lon, -223.7, 223.7)
}
fn text(what: &str, v: &Option<String>, max: usize) -> R {
    if let Some(v) = v {
        ensure!(v.chars().count() <= max, "{} is {:?}, longer than the {} characters of the field", what, v, max);
        ensure!(v.chars().all(|c| (' '..='_').contains(&c) && c != '@'), "{} is {:?}, with characters the field cannot carry", what, v);
        ensure!(!v.ends_with(' '), "{} is {:?}, with its padding", what, v);
    }
    Ok(())
}
fn sizes(b: Option<u16>, s: Option<u16>, p: Option<u16>, t: Option<u16>) -> R {
    within("dimension to bow", b.unwrap_or(0) as u64, 512)?;
    within("dimension to stern", s.unwrap_or(0) as u64, 512)?;
    within("dimension to port", p.unwrap_or(0) as u64, 64)?;
    within("dimension to starboard", t.unwrap_or(0) as u64, 64)
}
const BIG: f64 = f64::MAX;
/// Whether every value of the result is one its field can carry.
pub fn carried(m: &ParsedSentence) -> Result<&'static str, String> {
    Ok(match m {
        ParsedSentence::Incomplete => "incomplete",
        ParsedSentence::VesselDynamicData(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            real("rate of turn", d.rot, -728.0, 728.0)?;
            ensure!(matches!(d.rot_direction, None | Some(-1) | Some(0) | Some(1)), "rotation direction is {:?}", d.rot_direction);
            real("speed", d.sog_knots, 0.0, 102.3)?;
            if d.current_gnss_position.is_some() {
                // type 27, whose position and course are read from the wrong bits: known finding of C18
                real("latitude", d.latitude, -1000.0, 1000.0)?;
                real("longitude", d.longitude, -1000.0, 1000.0)?;
                real("course", d.cog, 0.0, 1e6)?;
            } else {
                place(d.latitude, d.longitude)?;
                real("course", d.cog, 0.0, 409.5)?;
            }
            real("heading", d.heading_true, 0.0, 511.0)?;
            within("UTC second", d.timestamp_seconds as u64, 64)?;
            within("radio status", d.radio_status.unwrap_or(0) as u64, 1 << 20)?;
            "AIS dynamic"
        }
        ParsedSentence::VesselStaticData(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            within("version", d.ais_version_indicator as u64, 4)?;
            within("IMO number", d.imo_number.unwrap_or(0) as u64, POW30)?;
            text("call sign", &d.call_sign, 7)?;
            text("name", &d.name, 20)?;
            text("vendor", &d.equipment_vendor_id, 3)?;
            within("model", d.equipment_model.unwrap_or(0) as u64, 16)?;
            within("serial number", d.equipment_serial_number.unwrap_or(0) as u64, 1 << 20)?;
            sizes(d.dimension_to_bow, d.dimension_to_stern, d.dimension_to_port, d.dimension_to_starboard)?;
            text("destination", &d.destination, 20)?;
            within("mothership MMSI", d.mothership_mmsi.unwrap_or(0) as u64, POW30)?;
            "AIS static"
        }
        ParsedSentence::BaseStationReport(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            place(d.latitude, d.longitude)?;
            within("radio status", d.radio_status as u64, 1 << 20)?;
            if let Some(t) = d.timestamp {
                // 14 bits of year
                let s = t.timestamp();
                ensure!((-62_167_219_200..454_861_872_000).contains(&s), "time stamp is {:?}", t);
            }
            "AIS base station"
        }
        ParsedSentence::BinaryAddressedMessage(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            within("sequence number", d.sequence_number as u64, 4)?;
            within("destination MMSI", d.destination_mmsi as u64, POW30)?;
            within("area code", d.dac as u64, 1024)?;
            within("functional id", d.fid as u64, 64)?;
            "AIS binary"
        }
        ParsedSentence::StandardSarAircraftPositionReport(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            within("altitude", d.altitude.unwrap_or(0) as u64, 4096)?;
            within("speed", d.sog_knots.unwrap_or(0) as u64, 1024)?;
            place(d.latitude, d.longitude)?;
            real("course", d.cog, 0.0, 409.5)?;
            within("UTC second", d.timestamp_seconds as u64, 64)?;
            within("radio status", d.radio_status as u64, 1 << 20)?;
            "AIS SAR aircraft"
        }
        ParsedSentence::UtcDateInquiry(d) => {
            within("source MMSI", d.source_mmsi as u64, POW30)?;
            within("destination MMSI", d.destination_mmsi as u64, POW30)?;
            "AIS date inquiry"
        }
        ParsedSentence::AidToNavigationReport(d) => {
            within("MMSI", d.mmsi as u64, POW30)?;
            text("name", &Some(d.name.clone()), 34)?;
            place(d.latitude, d.longitude)?;
            sizes(d.dimension_to_bow, d.dimension_to_stern, d.dimension_to_port, d.dimension_to_starboard)?;
            within("UTC second", d.timestamp_seconds as u64, 64)?;
            "AIS aid to navigation"
        }
        ParsedSentence::Gga(d) => {
            real("latitude", d.latitude, -101.0, 101.0)?;
            real("longitude", d.longitude, -1001.0, 1001.0)?;
            real("HDOP", d.hdop, -BIG, BIG)?;
            real("altitude", d.altitude, -BIG, BIG)?;
            real("geoid separation", d.geoid_separation, -BIG, BIG)?;
            real("age of DGPS", d.age_of_dgps, -BIG, BIG)?;
            "GGA"
        }
        ParsedSentence::Rmc(d) => {
            real("latitude", d.latitude, -101.0, 101.0)?;
            real("longitude", d.longitude, -1001.0, 1001.0)?;
            real("speed", d.sog_knots, -BIG, BIG)?;
            real("bearing", d.bearing, -BIG, BIG)?;
            real("variation", d.variation, -BIG, BIG)?;
            "RMC"
        }
        ParsedSentence::Gll(d) => {
            real("latitude", d.latitude, -101.0, 101.0)?;
            real("longitude", d.longitude, -1001.0, 1001.0)?;
            "GLL"
        }
        ParsedSentence::Gsa(d) => {
            ensure!(d.prn_numbers.len() <= 12, "{} satellites in a GSA sentence", d.prn_numbers.len());
            real("PDOP", d.pdop, -BIG, BIG)?;
            real("HDOP", d.hdop, -BIG, BIG)?;
            real("VDOP", d.vdop, -BIG, BIG)?;
            "GSA"
        }
        ParsedSentence::Vtg(d) => {
            real("true course", d.cog_true, -BIG, BIG)?;
            real("magnetic course", d.cog_magnetic, -BIG, BIG)?;
            real("speed in knots", d.sog_knots, -BIG, BIG)?;
            real("speed in km/h", d.sog_kph, -BIG, BIG)?;
            "VTG"
        }
        ParsedSentence::Gsv(_) => "GSV",
    })
}
/// The sentence formatter that a result of this kind comes from
fn formatter(m: &ParsedSentence) -> &'static [&'static str] {
    match m {
        ParsedSentence::Incomplete => &["VDM", "VDO", "GSV"],
        ParsedSentence::Gga(_) => &["GGA"],
        ParsedSentence::Rmc(_) => &["RMC"],
        ParsedSentence::Gll(_) => &["GLL"],
        ParsedSentence::Gsa(_) => &["GSA"],
        ParsedSentence::Vtg(_) => &["VTG"],
        ParsedSentence::Gsv(_) => &["GSV"],
        _ => &["VDM", "VDO"],
    }
}
impl Property for Ranges {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of 1 to 24 texts given to one parser at a generated system date: complete multi-sentence messages, valid sentences of every kind, mutated sentences (number fields replaced by anything up to 500 digits), AIS payloads of every type number, length and content, arbitrary Unicode. Oracle: every value of every decoded result lies within the width, length and alphabet of its field, every number is finite, a GSV group has at most four satellites per received part, and the kind of the result is that of the sentence formatter. Sweeps: every AIS type 0-63 x payload length 0-100 x 3 contents; every number field of every GNSS sentence x 1 to 420 digits; every GNSS sentence with all fields present and 0 to 40 more. Non-trivial: at least one text of the case gave a decoded message."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 4_000_000, guided: 6_000_000, sweep_reps: 6 }
        } else {
            Plan { random: 120_000, guided: 200_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for ty in 0..64 {
            for n in 0..=100 {
                for c in 0..3 {
                    v.push(vec![1, ty, n, c]);
                }
            }
        }
        for ty in 0..6 {
            for f in 0..18 {
                for n in (1..40).chain(300..320).chain([309; 40]).chain([40, 60, 100, 200, 400, 420]) {
                    v.push(vec![2, ty, f, n]);
                }
            }
        }
        for ty in 0..6 {
            for n in 0..=40 {
                for _ in 0..8 {
                    v.push(vec![3, ty, n]);
                }
            }
        }
        v
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        let mut p = P::new();
        let nines = "9".repeat(310);
        for s in [
            format!("$GPGGA,123519,4807.038,N,01131.000,E,1,08,{},545.4,M,46.9,M,,", nines),
            format!("$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,-{}.5,M,46.9,M,,", nines),
            format!("$GPRMC,225446,A,4916.45,N,12311.12,W,{},054.7,191120,020.3,E", nines),
            format!("$GPVTG,{},T,034.4,M,005.5,N,010.2,K,A", nines),
            format!("$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,{},1.0,1.3", nines),
            "$GPGGA,123519,9999.999999999,N,99999.9999999,E,1,08,0.9,545.4,M,46.9,M,,".to_string(),
            "!AIVDM,1,1,,A,1wwwwwwwwwwwwwwwwwwwwwwwwwww,0".to_string(),
            "!AIVDM,1,1,,A,Iwwwwwwwwwwwwwwwwwwwwwwwwwww,0".to_string(),
        ] {
            let r = p.parse(ctx, &s);
            if let Ok(m) = &r {
                if let Err(e) = carried(m) {
                    return Err(format!("{}: {}", s, e));
                }
            }
        }
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mut p = P::new();
        let mode = src.below(4);
        let mut first = None;
        match mode {
            1 => {
                let ty = src.below(64);
                let n = src.usize(101);
                let c = src.below(3);
                let mut s = String::new();
                if n > 0 {
                    s.push(sym_char(ty));
                }
                for _ in 1..n {
                    s.push(sym_char(match c {
                        0 => 0,
                        1 => 63,
                        _ => src.below(64),
                    }));
                }
                first = Some(format!("!AIVD{},1,1,,A,{},0", src.pick(&["M", "O"]), s));
            }
            2 => {
                let ty = src.usize(6);
                let f = src.usize(18);
                let n = src.usize(421);
                let mut d: String = if src.chance(1, 3) { "9".repeat(n) } else { (0..n).map(|_| (b'0' + src.below(10) as u8) as char).collect() };
                if n > 2 && src.chance(1, 2) {
                    // close to the largest number, if it has 309 digits
                    d.replace_range(0..2, src.pick(&["10", "16", "17"]));
                }
                let mut d = match src.below(4) {
                    0 => format!("-{}", d),
                    _ => d,
                };
                if src.chance(1, 3) {
                    d.push_str(&format!(".{}", src.below(1000)));
                }
                let t = src.pick(NAV_TALKERS);
                let b = if ty < 5 { gen_gnss_body(src, ty, t) } else { format!("${}GSV,1,1,04,{},{},{},{}", t, gen_gsv_entry(src).0, gen_gsv_entry(src).0, gen_gsv_entry(src).0, gen_gsv_entry(src).0) };
                let mut v = fields_of(&b);
                let f = 1 + f % (v.len() - 1);
                if src.bool() {
                    // the same in other fields
                    for _ in 0..1 + src.below(3) {
                        let g = 1 + src.usize(v.len() - 1);
                        v[g] = d.clone();
                    }
                }
                v[f] = d;
                first = Some(seal_any(src, v.join(",")));
            }
            3 => {
                // every field present, and more of them
                let ty = src.usize(6);
                let extra = src.usize(41);
                let t = src.pick(NAV_TALKERS);
                let b = if ty < 5 { gen_gnss_body(src, ty, t) } else { format!("${}GSV,1,1,04,{},{},{},{}", t, gen_gsv_entry(src).0, gen_gsv_entry(src).0, gen_gsv_entry(src).0, gen_gsv_entry(src).0) };
                let mut v = fields_of(&b);
                if src.bool() {
                    for f in v.iter_mut().skip(1) {
                        if f.is_empty() {
                            *f = (1 + src.below(32)).to_string();
                        }
                    }
                }
                for _ in 0..extra {
                    v.push(if src.chance(1, 4) { String::new() } else { (1 + src.below(200)).to_string() });
                }
                ctx.class("additional fields");
                first = Some(seal_any(src, v.join(",")));
            }
            _ => {}
        }
        gen_clock(src, ctx);
        let mut kept = vec![];
        let mut texts: Vec<String> = vec![];
        if let Some(s) = first {
            texts.push(s);
        } else {
            let n = 1 + src.usize(8);
            for i in 0..n {
                if src.chance(1, 3) {
                    let kind = src.below(5);
                    texts.extend(whole_message_of(src, i as u64, kind));
                } else {
                    texts.push(gen_line(src, ctx, &mut kept));
                }
            }
        }
        // parts received so far
        let mut parts = 0;
        for s in &mut texts {
            if src.chance(1, 8) && s.len() > 6 && s.is_ascii() {
                // another formatter
                let t = match src.below(3) {
                    0 => (0..3).map(|_| (b'A' + src.below(26) as u8) as char).collect(),
                    _ => src.pick(&["GNS", "RMB", "RMA", "GSN", "GBS", "GST", "GRS", "VHW", "GLC", "GGK", "GMP", "VTA", "VDL", "ABM", "BBM", "VSD", "VDM", "VDO", "GGA", "RMC", "GLL", "GSA", "GSV", "VTG", "ZDA"]).to_string(),
                };
                s.replace_range(3..6, &t);
                if let Some(i) = s.rfind('*') {
                    s.truncate(i);
                    *s = with_sum(s);
                }
                ctx.class("formatter replaced");
            }
            let h: Vec<char> = s.chars().take_while(|c| *c != ',').collect();
            let tag: String = h.iter().skip(3).collect();
            if tag == "GSV" {
                parts += 1;
            }
            let r = p.parse(ctx, s);
            let m = match &r {
                Ok(m) => m,
                Err(_) => continue,
            };
            match carried(m) {
                Ok(k) => {
                    ctx.class(k);
                    if k != "incomplete" {
                        ctx.nontrivial();
                    }
                }
                Err(e) => return Err(format!("{:?}: {} in {:?}", s, e, m)),
            }
            if let ParsedSentence::Gsv(v) = m {
                ensure!(v.len() <= 4 * parts, "{:?}: {} satellites from {} GSV sentences", s, v.len(), parts);
            }
            // only of headers of the usual form
            if h.len() == 6 && s.is_ascii() {
                ensure!(formatter(m).contains(&tag.as_str()), "{:?} answered with {:?}", s, m);
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts up to a few thousand characters; system dates 1970 to 9998; GNSS coordinates are bounded by their digits (99 degrees 99.9 minutes, 999 degrees 99.9 minutes), AIS ones by their bits; position and course of type 27 loosely (known finding C18-type27-bits)"]
    }
}

// ---- C32 ------------------------------------------------------------------------------------------
pub struct Values;
/// The debug text; a negative zero equals zero.
fn shown(r: &Res) -> String {
    let s = format!("{:?}", r);
    if !s.contains("-0.0") {
        return s;
    }
    let mut o = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find("-0.0") {
        let end = rest[i + 4..].chars().next().map_or(true, |c| !c.is_ascii_digit() && c != 'e');
        let start = i == 0 || !rest[..i].ends_with(|c: char| c.is_ascii_alphanumeric() || c == '.');
        o.push_str(&rest[..i]);
        o.push_str(if end && start { "0.0" } else { "-0.0" });
        rest = &rest[i + 4..];
    }
    o.push_str(rest);
    o
}
fn error_text(e: &ParseError) -> &str {
    match e {
        ParseError::UnsupportedSentenceType(s) | ParseError::CorruptedSentence(s) | ParseError::InvalidSentence(s) => s,
    }
}
/// A copy of a result, which outlives it, and errors' texts.
fn check_value(r: &Res, s: &str) -> R {
    let t = format!("{:?}", r);
    #[allow(clippy::eq_op)]
    let same = (r == r, r != r);
    ensure!(same == (true, false), "{:?}: a result differs from itself: {}", s, t);
    let c = r.clone();
    ensure!(c == *r && *r == c && !(c != *r), "{:?}: a result differs from its copy: {} / {:?}", s, t, c);
    let d = Box::new(c.clone());
    drop(c);
    let u = format!("{:?}", d);
    ensure!(t == u, "{:?}: a copy has other values: {} / {}", s, t, u);
    ensure!(!format!("{:#?}", d).is_empty(), "{:?}: nothing printed", s);
    if let Err(e) = r {
        let w = error_text(e).to_string();
        ensure!(!w.trim().is_empty(), "{:?}: an error without a text: {}", s, t);
        let p = e.to_string();
        ensure!(p == w, "{:?}: the error {} prints as {:?}", s, t, p);
        check_error_text(&w)?;
    }
    Ok(())
}
fn check_error_text(w: &str) -> R {
    let kinds = [ParseError::UnsupportedSentenceType(w.to_string()), ParseError::CorruptedSentence(w.to_string()), ParseError::InvalidSentence(w.to_string())];
    for (i, a) in kinds.iter().enumerate() {
        let p = a.to_string();
        ensure!(p == w, "{:?} prints as {:?}", a, p);
        for (j, b) in kinds.iter().enumerate() {
            ensure!((a == b) == (i == j) && (a != b) == (i != j), "{:?} and {:?} compare wrongly", a, b);
        }
    }
    let f = ParseError::from(w.to_string());
    ensure!(f == kinds[2], "the text {:?} became {:?}", w, f);
    let other = format!("{}.", w);
    ensure!(f != ParseError::InvalidSentence(other), "errors with different texts are equal: {:?}", w);
    Ok(())
}
impl Property for Values {
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "A case is a message of any kind and a variant of it: AIS payloads with up to three bits flipped, cut, or under another header; GNSS sentences with a field replaced, emptied, exchanged with another or with a digit changed; satellite groups likewise; or two arbitrary, damaged or unsupported texts; or an error made from a generated text. Both are parsed by parsers of their own. Oracle: a result equals itself and its copy, and the copy shows the same values after the original is gone; the two results are equal exactly when they show the same values (debug texts, negative zero as zero), both ways round; an error prints its own text, which is not empty, errors are equal exactly when kind and text are, and a text becomes an invalid-sentence error. Sweeps: every bit 0-423 of every AIS type flipped; every field of every GNSS sentence replaced. Non-trivial: the two results differ, or an error was printed."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 8_000_000, guided: 2_000_000, sweep_reps: 100 }
        } else {
            Plan { random: 250_000, guided: 60_000, sweep_reps: 3 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for k in 0..AIS_TYPES.len() as u64 {
            for bit in 0..424 {
                v.push(vec![0, k, 1, bit]);
            }
        }
        for ty in 0..6 {
            for f in 0..20 {
                for how in 0..6 {
                    v.push(vec![1, ty, f, how]);
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let (a, b) = match src.below(4) {
            0 => {
                let ty = AIS_TYPES[src.usize(AIS_TYPES.len())];
                let flips = src.below(4);
                let bits: Vec<usize> = (0..flips).map(|_| src.usize(424)).collect();
                let mut m = gen_msg(src, ty);
                if src.chance(1, 4) {
                    m.truncate(1 + src.usize(m.len()));
                }
                let mut w = m.clone();
                if flips == 0 && src.chance(1, 2) {
                    // the same values in another order
                    let n = src.pick(&[6, 9, 20, 27, 28, 30, 120]);
                    if w.len() > 38 + 2 * n {
                        let i = 38 + src.usize(w.len() - 38 - 2 * n);
                        for k in 0..n {
                            w.swap(i + k, i + n + k);
                        }
                    }
                }
                for i in bits {
                    if i < w.len() {
                        w[i] = !w[i];
                    }
                }
                let mut h = gen_head(src, armour(&m).len());
                h.seal = 1;
                let mut a = vec![];
                if (ty == 24 || ty == 124) && src.bool() {
                    let mut o = gen_msg(src, 148 - ty);
                    let id = get(&m, 8, 30);
                    put(&mut o, 8, 30, id);
                    a = h.sentences(&armour(&o));
                }
                let mut b = a.clone();
                a.extend(h.sentences(&armour(&m)));
                if src.chance(1, 6) {
                    h = gen_head(src, armour(&w).len());
                }
                b.extend(h.sentences(&armour(&w)));
                (a, b)
            }
            1 => {
                let ty = src.usize(6);
                let f = src.usize(20);
                let how = src.below(6);
                let t = src.pick(NAV_TALKERS);
                let a = if ty < 5 {
                    gen_gnss_body(src, ty, t)
                } else {
                    let n = 1 + src.usize(4);
                    let e: Vec<String> = (0..n).map(|_| gen_gsv_entry(src).0).collect();
                    format!("${}GSV,1,1,{:02},{}", t, n, e.join(","))
                };
                let mut v = fields_of(&a);
                let f = f % v.len();
                match how {
                    0 => v[f] = String::new(),
                    1 => {
                        // a field of the same kind
                        let o = if ty < 5 { fields_of(&gen_gnss_body(src, ty, t)) } else { fields_of(&format!("$,,,,{}", gen_gsv_entry(src).0)) };
                        let g = if ty < 5 || f < 4 { f } else { 4 + (f - 4) % 4 };
                        v[f] = o.get(g).cloned().unwrap_or_default();
                    }
                    2 => {
                        let d: Vec<usize> = v[f].char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
                        if !d.is_empty() {
                            let i = d[src.usize(d.len())];
                            v[f].replace_range(i..i + 1, src.pick(&["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"]));
                        }
                    }
                    3 => v[f].push_str(src.pick(&["0", "1", ".0", ".5", "x", " "])),
                    4 => {
                        // the same values in another order
                        let step = if ty < 5 || f < 4 { 1 } else { 4 };
                        let g = f + step * (1 + src.usize(3));
                        if f > 0 && g < v.len() {
                            v.swap(f, g);
                            if step == 4 && src.bool() {
                                for i in 1..4 {
                                    let (x, y) = (f / 4 * 4 + (f + i) % 4, g / 4 * 4 + (g + i) % 4);
                                    if y < v.len() {
                                        v.swap(x, y);
                                    }
                                }
                            }
                        }
                    }
                    _ => v[f] = src.pick(&["A", "D", "E", "N", "S", "W", "M", "P", "R", "0", "1", "2", "3", "-0", "-0.0", "0.0", "-1"]).to_string(),
                }
                if f == 0 {
                    v[0] = format!("${}{}", src.pick(NAV_TALKERS), fields_of(&a)[0].chars().skip(3).collect::<String>());
                }
                (vec![with_sum(&a)], vec![with_sum(&v.join(","))])
            }
            2 => {
                let mut kept = vec![];
                let a = gen_line(src, ctx, &mut kept);
                let b = if src.chance(1, 4) { a.clone() } else { gen_line(src, ctx, &mut kept) };
                (vec![a], vec![b])
            }
            _ => {
                let n = src.usize(30);
                let s: String = (0..n).map(|_| if src.chance(1, 5) { src.pick(&['\u{e9}', '\u{661}', '\u{20ac}', '\u{1f600}']) } else { (32 + src.below(95) as u8) as char }).collect();
                ctx.note(|| format!("error text {:?}", s));
                ctx.class("made errors");
                ctx.hash_bytes(s.as_bytes());
                ctx.nontrivial();
                return check_error_text(&s);
            }
        };
        gen_clock(src, ctx);
        let mut p = P::new();
        let mut q = P::new();
        let mut r = None;
        for s in &a {
            let x = p.parse(ctx, s);
            check_value(&x, s)?;
            r = Some((s, x));
        }
        let (s, r) = r.unwrap();
        for t in &b {
            let x = q.parse(ctx, t);
            check_value(&x, t)?;
            let (eq, same) = (r == x, shown(&r) == shown(&x));
            ensure!(eq == same, "{:?} and {:?}: the results are {}, but show {} values: {:?} / {:?}", s, t, if eq { "equal" } else { "unequal" }, if same { "the same" } else { "different" }, r, x);
            ensure!((x == r) == eq && (r != x) != eq && (x != r) != eq, "{:?} and {:?}: the comparison depends on the side: {:?} / {:?}", s, t, r, x);
            if !same {
                ctx.nontrivial();
            }
            ctx.class(match (&x, same) {
                (Ok(_), true) => "message, the same",
                (Ok(_), false) => "message, another",
                (Err(_), _) => "error",
            });
            if x.is_err() {
                ctx.nontrivial();
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the debug text of a result shows all its values (it is derived)"]
    }
}
