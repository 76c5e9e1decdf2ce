"""The planted bugs: edits against /repo's HEAD, and a demonstration of each."""
BUGS = []
def bug(id, prop, edits, demo, needs, what, count=None):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what, count=count or {}))

L, U = "src/lib.rs", "src/util.rs"
A = "src/ais/"
G = "src/gnss/"

bug("c01-vtg-faa-slice", "C01",
    [(G + "vtg.rs", 'FaaMode::new(split.get(9).unwrap_or(&"")).ok()',
      'FaaMode::new(split.get(9).map(|s| if s.len() > 1 { &s[..1] } else { *s }).unwrap_or("")).ok()')],
    r'''
fn main() {
    let r = once("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,\u{e9}");
    assert!(matches!(r, Ok(ParsedSentence::Vtg(_)) | Err(_)));
}''', "a VTG sentence whose FAA mode field starts with a multi-byte character", "the parser panics on a non-ASCII FAA mode (slice inside a character)")

bug("c01-checksum-slice", "C01",
    [(L, "(sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len()].to_string())",
      "(sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len().min(pos+3)].to_string())")],
    r'''
fn main() {
    let r = once("$GPGLL,4916.45,N,12311.12,W,225444,A*4\u{e9}");
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a non-ASCII character right after the first character of the checksum text", "the parser panics instead of reporting a corrupted sentence, and text after the two digits is ignored")

bug("c02-fill-bit-padding", "C02",
    [(L, "                        6 => {\n                            // fill bits\n                        },",
         "                        6 => {\n                            fill_bits = s.parse::<u32>().unwrap_or(0);\n                        },"),
     (L, '                let mut payload_string: String = "".into();\n', '                let mut payload_string: String = "".into();\n                let mut fill_bits = 0;\n'),
     (L, "                    bv = Some(parse_payload(&payload_string)?);\n                } else if fragment_count == 2 {",
         "                    let mut bits = parse_payload(&payload_string)?;\n                    for _ in 0..fill_bits {\n                        bits.push(false);\n                    }\n                    bv = Some(bits);\n                } else if fragment_count == 2 {")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BYTES.fetch_add(n, Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: Count = Count;
fn cost(fill: &str) -> usize {
    let mut p = NmeaParser::new();
    let s = format!("!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,{}", fill);
    let a = BYTES.load(Ordering::SeqCst);
    let _ = p.parse_sentence(&s);
    BYTES.load(Ordering::SeqCst) - a
}
fn main() {
    let (a, b) = (cost("00000000"), cost("20000000"));
    assert!(b < a + 100_000, "{} bytes allocated for fill 0, {} for fill 20000000", a, b);
}''', "a fill-bit field with a large number", "the memory and work of one call grow with the number claimed in the fill-bit field")

bug("c02-payload-statistics", "C02",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    repeats: HashMap<u64, u32>,\n}"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            repeats:         HashMap::new(),\n"),
     (L, "                    let message_type = pick_u64(&bv, 0, 6);\n",
         "                    let message_type = pick_u64(&bv, 0, 6);\n                    // count repetitions for the log\n                    let count = self.repeats.entry(pick_u64(&bv, 0, 64)).or_insert(0);\n                    *count += 1;\n                    debug!(\"Message type {} seen {} times\", message_type, count);\n")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Count;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence("!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0");
    let a = HELD.load(Ordering::SeqCst);
    for i in 0..20_000 {
        let s = aivdm(&pay(168, &[(0, 6, 1), (8, 30, 200_000_000 + i)]));
        assert!(p.parse_sentence(&s).is_ok());
    }
    let b = HELD.load(Ordering::SeqCst);
    assert!(b - a < 10_000, "{} bytes kept after 20000 complete messages", b - a);
}''', "a stream of many different complete messages", "the parser grows with every complete message it has seen")

bug("c03-one-digit-sum", "C03",
    [(L, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {',
         'if !checksum_hex_calculated.ends_with(checksum_hex_given.as_str()) {')],
    r'''
fn main() {
    let s = seal("$GPGLL,4916.45,N,12311.12,W,225444,A");
    let (head, sum) = s.split_at(s.len() - 2);
    let r = once(&format!("{}{}", head, &sum[1..]));
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a checksum text of which only the second digit is left", "a sentence with a cut checksum is accepted")

bug("c03-delimiters-skipped", "C03",
    [(L, "for c in sentence.as_str().chars().skip(1) {", "for c in sentence.as_str().chars().filter(|c| *c != '$' && *c != '!') {")],
    r'''
fn main() {
    let good = seal("$GPGLL,4916.45,N,12311.12,W,225444,A");
    assert!(once(&good).is_ok());
    let (body, sum) = good.split_at(good.len() - 3);
    let r = once(&format!("{},!{}", body, sum));
    let r2 = once(&seal("$GPGLL,4916.45,N,12311.12,W,225444,A,!"));
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))) && r2.is_ok(), "{:?} {:?}", r, r2);
}''', "a start delimiter character inside the sentence", "characters ! and $ inside the sentence do not enter the checksum")

bug("c04-own-vessel-other-talker", "C04",
    [(L, 'let own_vessel = sentence_type.as_str() == "!VDO";', 'let own_vessel = sentence_type.as_str() == "!VDO" && station != Some(ais::Station::Other);')],
    r'''
fn main() {
    let p = pay(168, &[(0, 6, 1), (8, 30, 230000000)]);
    assert!(dyn_(&seal(&format!("!AIVDO,1,1,,A,{},0", p))).own_vessel);
    assert!(dyn_(&seal(&format!("!BSVDO,1,1,,A,{},0", p))).own_vessel);
    assert!(!dyn_(&seal(&format!("!BSVDM,1,1,,A,{},0", p))).own_vessel);
}''', "a VDO sentence of a talker outside the station table", "own-vessel reports of other talkers are not marked as own vessel")

bug("c04-gsv-source", "C04",
    [(G + "gsv.rs", "                            source: nav_system,", '                            source: if prn > 64 && nav_system == NavigationSystem::Combination { NavigationSystem::Glonass } else { nav_system },')],
    r'''
fn main() {
    let v = gsv(once(&seal("$GNGSV,1,1,02,03,03,111,00,70,15,270,00")));
    assert!(v.iter().all(|s| s.source == NavigationSystem::Combination), "{:?}", v);
}''', "a GN talker and a satellite number above 64", "the satellite system is taken from the PRN instead of the talker")

bug("c05-empty-part-number", "C05",
    [(L, "                        2 => {\n                            match s.parse::<u8>() {", "                        2 => {\n                            match (if s.is_empty() { \"1\" } else { s }).parse::<u8>() {")],
    r'''
fn main() {
    let p = pay(168, &[(0, 6, 1)]);
    let r = once(&seal(&format!("!AIVDM,1,,,A,{},0", p)));
    assert!(matches!(r, Err(ParseError::InvalidSentence(_))), "{:?}", r);
}''', "an AIS sentence with an empty part number", "an empty part number is taken for 1")

bug("c05-type-alias", "C05",
    [(L, "let message_type = pick_u64(&bv, 0, 6);", "let message_type = pick_u64(&bv, 1, 5);")],
    r'''
fn main() {
    for t in 28..64 {
        let r = once(&aivdm(&pay(168, &[(0, 6, t)])));
        assert!(matches!(r, Err(ParseError::UnsupportedSentenceType(_))), "{}: {:?}", t, r);
    }
}''', "a message type above 32", "types 33-59 are decoded as types 1-27")

bug("c06-key-without-separator", "C06",
    [(U, 'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)',
         'format!("{},{},{},{}{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)')],
    r'''
fn main() {
    let p = pay(424, &[(0, 6, 5), (8, 30, 230000000)]);
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,11,,{},0", &p[..40]))));
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,2,1,1,{},0", &p[40..]))));
}''', "message ids 1 and 11 and channels 1 and none", "parts of different message id and channel are joined")

bug("c06-small-ids-only", "C06",
    [(L, "message_id = s.parse::<u64>().ok();", "message_id = s.parse::<u8>().ok().map(|i| i as u64);")],
    r'''
fn main() {
    let p = pay(424, &[(0, 6, 5), (8, 30, 230000000)]);
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,300,A,{},0", &p[..40]))));
    assert_eq!(stat(q.parse_sentence(&seal(&format!("!AIVDM,2,2,300,A,{},0", &p[40..])))).mmsi, 230000000);
}''', "a message id above 255", "two-part messages with large ids are never completed")

bug("c06-first-copy-stays", "C06",
    [(L, "        self.saved_fragments.insert(key, value);", "        self.saved_fragments.entry(key).or_insert(value);")],
    r'''
fn main() {
    let a = pay(424, &[(0, 6, 5), (8, 30, 230000000)]);
    let b = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &a[..40]))));
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &b[..40]))));
    assert_eq!(stat(q.parse_sentence(&seal(&format!("!AIVDM,2,2,3,A,{},0", &b[40..])))).mmsi, 230000001);
}''', "a first part repeated with another payload before the second part", "the older copy of a repeated part is used")

bug("c07-elevation-90", "C07",
    [(G + "gsv.rs", "elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),",
      "elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None).filter(|e| *e < 90),")],
    r'''
fn main() {
    let v = gsv(once(&seal("$GPGSV,1,1,01,03,90,111,40")));
    assert_eq!(v[0].elevation, Some(90));
}''', "a satellite in the zenith", "an elevation of 90 degrees is dropped")

bug("c07-number-modulo", "C07",
    [(G + "gsv.rs", 'format!("{},{},{}", sentence_type, msg_count, msg_num)', 'format!("{},{},{}", sentence_type, msg_count, msg_num % 10)')],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    let mut got = vec![];
    for k in 1..=11 {
        let r = q.parse_sentence(&seal(&format!("$GPGSV,11,{},44,{:02},45,100,40", k, k)));
        if k < 11 { inc(r) } else { got = gsv(r) }
    }
    assert_eq!(got.iter().map(|s| s.prn_number).collect::<Vec<_>>(), (1..=11).collect::<Vec<u8>>());
}''', "a group of more than ten sentences", "sentences 1 and 11 of a group overwrite each other")

bug("c07-talkers-mixed", "C07",
    [(G + "gsv.rs", '    let msg_type = split.get(0).unwrap_or(&"");', '    let msg_type = &format!("{}", nav_system)[..];')],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal("$IIGSV,2,1,02,03,03,111,00")));
    inc(q.parse_sentence(&seal("$SNGSV,2,2,02,70,15,270,00")));
    let v = gsv(q.parse_sentence(&seal("$IIGSV,2,2,02,04,15,270,00")));
    assert_eq!(v.iter().map(|s| s.prn_number).collect::<Vec<_>>(), [3, 4]);
}''', "groups of two talkers outside the satellite system table", "groups of different unknown talkers are mixed")

bug("c08-pending-cap", "C08",
    [(L, "        self.saved_vsds.insert(mmsi, vsd);", "        // keep the memory use at bay\n        if self.saved_vsds.len() >= 500 {\n            self.saved_vsds.clear();\n        }\n        self.saved_vsds.insert(mmsi, vsd);")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    let a = |m: i64| aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, m)], txt(40, "NAME"))));
    let b = |m: i64| aivdm(&pay(168, &[(0, 6, 24), (8, 30, m), (38, 2, 1), (40, 8, 37)]));
    for i in 0..600 {
        inc(q.parse_sentence(&a(230000000 + i)));
    }
    for i in 0..600 {
        let v = stat(q.parse_sentence(&b(230000000 + i)));
        assert_eq!(v.name, Some("NAME".into()));
    }
}''', "more than 500 vessels of which only one part has arrived", "waiting parts are thrown away when many vessels are pending")

bug("c08-mmsi-bits", "C08",
    [(L, "        self.saved_vsds.insert(mmsi, vsd);", "        self.saved_vsds.insert(mmsi & 0x1fff_ffff, vsd);"),
     (L, "        self.saved_vsds.remove(&mmsi)", "        self.saved_vsds.remove(&(mmsi & 0x1fff_ffff))")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    let a = |m: i64| aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, m)], txt(40, "NAME"))));
    let b = |m: i64| aivdm(&pay(168, &[(0, 6, 24), (8, 30, m), (38, 2, 1), (40, 8, 37)]));
    let (m1, m2) = (230000000, 230000000 + (1 << 29));
    inc(q.parse_sentence(&a(m1)));
    inc(q.parse_sentence(&b(m2)));
    assert_eq!(stat(q.parse_sentence(&b(m1))).mmsi, m1 as u32);
    assert_eq!(stat(q.parse_sentence(&a(m2))).mmsi, m2 as u32);
}''', "two vessels whose MMSIs differ only in the highest bit", "the pending parts of two vessels share a slot")

bug("c08-merge-cargo", "C08",
    [(A + "vdm_t24.rs", "                    if self.cargo_type != CargoType::Undefined {", "                    if self.name.is_none() && self.call_sign.is_some() {")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    let a = aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, 230000000)], txt(40, "NAME"))));
    let b = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000000), (38, 2, 1), (40, 8, 71)]));
    inc(q.parse_sentence(&a));
    assert_eq!(stat(q.parse_sentence(&b)).cargo_type, CargoType::HazardousCategoryA);
}''', "part B arriving second with an empty call sign and a hazardous cargo", "the cargo type of part B is lost when its call sign is empty and it comes second")

bug("c09-corrupted-clears", "C09",
    [(L, "            return Err(ParseError::CorruptedSentence(\n", "            self.saved_fragments.retain(|k, _| !k.starts_with('!'));\n            return Err(ParseError::CorruptedSentence(\n"),
     (L, "if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != \"\" {", "if checksum_hex_given != \"\" && checksum_hex_calculated != checksum_hex_given {")],
    r'''
fn main() {
    let p = pay(424, &[(0, 6, 5), (8, 30, 230000000)]);
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &p[..40]))));
    assert!(q.parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A*00").is_err());
    assert_eq!(stat(q.parse_sentence(&seal(&format!("!AIVDM,2,2,3,A,{},0", &p[40..])))).mmsi, 230000000);
}''', "a corrupted sentence between the two parts of a message", "any corrupted sentence discards the pending AIS parts")

bug("c09-unsupported-drops-pair", "C09",
    [(L, "                        8 => {\n                            // TODO: implementation\n", "                        8 => {\n                            self.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, 230000000)], txt(40, "NAME"))))));
    assert!(q.parse_sentence(&aivdm(&pay(168, &[(0, 6, 8), (8, 30, 230000000)]))).is_err());
    let v = stat(q.parse_sentence(&aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000000), (38, 2, 1), (40, 8, 37)]))));
    assert_eq!(v.name, Some("NAME".into()));
}''', "an unsupported type 8 message of the same vessel between part A and part B", "an unsupported message discards the vessel's pending static data")

bug("c09-shared-store", "C09",
    [(L, "                        } else {\n                            warn!(\"Unexpected NMEA fragment number: {}/{}\", fragment_number, fragment_count);",
         "                        } else {\n                            self.saved_fragments.remove(&key1);\n                            warn!(\"Unexpected fragment number: {}/{}\", fragment_number, fragment_count);"),
     (L, "                    warn!(\"NMEA sentence fragment count greater ({}) than supported 2\", fragment_count);",
         "                    let id = message_id.unwrap_or(0);\n                    let channel = radio_channel_code.unwrap_or(\"\");\n                    self.saved_fragments.remove(&make_fragment_key(&sentence_type, id, 2, fragment_number, channel));\n                    warn!(\"NMEA sentence fragment count greater ({}) than supported 2\", fragment_count);")],
    r'''
fn main() {
    let p = pay(424, &[(0, 6, 5), (8, 30, 230000000)]);
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &p[..40]))));
    let _ = q.parse_sentence(&seal(&format!("!AIVDM,3,1,3,A,{},0", &p[..40])));
    assert_eq!(stat(q.parse_sentence(&seal(&format!("!AIVDM,2,2,3,A,{},0", &p[40..])))).mmsi, 230000000);
}''', "a part of an unsupported three-part message with the same id and channel between the two parts", "unsupported multi-part messages remove pending parts of two-part ones")

bug("c10-direction-minus-2", "C10",
    [(A + "vdm_t1t2t3.rs", "} else if raw <= -2 {", "} else if raw < -2 {")],
    r"""
fn main() {
    for (raw, want) in [(-3, -1), (-2, -1), (-1, 0), (0, 0), (1, 0), (2, 1)] {
        let v = dyn_(&aivdm(&pay(168, &[(0, 6, 1), (42, 8, raw)])));
        assert_eq!(v.rot_direction, Some(want), "{}", raw);
    }
}""", "rate of turn code -2", "a slow turn to port is reported as no turn")

bug("c10-cog-above-3600", "C10",
    [(A + "vdm_t1t2t3.rs", "if cog_raw != 0xE10 {", "if cog_raw < 0xE10 {")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(168, &[(0, 6, 3), (116, 12, 3700)])));
    assert!(v.cog.map_or(false, |c| (c - 370.0).abs() < 1e-6), "{:?}", v.cog);
}''', "a course code above 3600", "codes other than 3600 are treated as not available")

bug("c10-lat-needs-lon", "C10",
    [(A + "vdm_t1t2t3.rs", "if lat_raw != 0x3412140 {", "if lat_raw != 0x3412140 && pick_i64(&bv, 61, 28) != 0x6791AC0 {")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(168, &[(0, 6, 2), (61, 28, 0x6791AC0), (89, 27, 600000)])));
    assert_eq!((v.latitude, v.longitude), (Some(1.0), None));
}''', "a message with a latitude and without a longitude", "the latitude is dropped when the longitude is not available")

bug("c11-heading-range", "C11",
    [(A + "vdm_t18.rs", "if th_raw != 511 {", "if th_raw < 360 {")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(168, &[(0, 6, 18), (124, 9, 400)])));
    assert_eq!(v.heading_true, Some(400.0));
}''', "a heading code of 360-510", "codes other than 511 are treated as not available")

bug("c11-radio-status", "C11",
    [(A + "vdm_t18.rs", "Some(pick_u64(&bv, 149, 19) as u32)", "Some(pick_u64(&bv, 148, 20) as u32)")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(168, &[(0, 6, 18), (148, 1, 1), (149, 19, 5)])));
    assert_eq!(v.radio_status, Some(5));
}''', "a type 18 message with the communication state selector set", "the selector bit becomes part of the radio status")

bug("c12-minus-91", "C12",
    [(A + "vdm_t4.rs", "if lat_raw != 0x3412140 {", "if lat_raw.abs() != 0x3412140 {")],
    r'''
fn main() {
    let s = aivdm(&pay(168, &[(0, 6, 4), (107, 27, -0x3412140)]));
    match once(&s) { Ok(ParsedSentence::BaseStationReport(b)) => assert_eq!(b.latitude, Some(-91.0)), r => panic!("{:?}", r) }
}''', "a latitude code of -91 degrees", "a code other than the not-available one becomes none")

bug("c12-mmsi-29-bits", "C12",
    [(A + "vdm_t4.rs", "            pick_u64(&bv, 8, 30) as u32\n", "            pick_u64(&bv, 9, 29) as u32\n")],
    r"""
fn main() {
    let s = aivdm(&pay(168, &[(0, 6, 4), (8, 30, 636012345)]));
    match once(&s) { Ok(ParsedSentence::BaseStationReport(b)) => assert_eq!(b.mmsi, 636012345), r => panic!("{:?}", r) }
}""", "an MMSI of 2^29 or more", "the highest bit of the MMSI is lost")

bug("c13-destination-19", "C13",
    [(A + "vdm_t5.rs", "pick_string(&bv, 302, 20)", "pick_string(&bv, 302, 19)")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &cat(&[(0, 6, 5)], txt(302, "ABCDEFGHIJKLMNOPQRST"))))));
    assert_eq!(v.destination, Some("ABCDEFGHIJKLMNOPQRST".into()));
}''', "a destination of 20 characters", "the last character of a full destination is lost")

bug("c13-eta-hour-25", "C13",
    [(U, "if hour == 24  { hour = 23; minute = 59; second = 59; }", "if hour >= 24  { hour = 23; minute = 59; second = 59; }")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (274, 4, 7), (278, 5, 14), (283, 5, 27), (288, 6, 30)]))));
    assert_eq!(v.eta, None);
}''', "an ETA hour of 25-31", "an impossible ETA becomes 23:59:59 of that day")

bug("c13-imo-checksum", "C13",
    [(A + "vdm_t5.rs", "match raw { 0 => { None }, _ => { Some(raw) } }\n        },\n        call_sign", "match raw { 0 => { None }, 10000000 ..= u32::MAX => { None }, _ => { Some(raw) } }\n        },\n        call_sign")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (40, 30, 10000001)]))));
    assert_eq!(v.imo_number, Some(10000001));
}''', "an IMO field above 9999999 (official flag state number)", "flag state numbers in the IMO field become none")

bug("c14-fid-5-bits", "C14",
    [(A + "vdm_t6.rs", "pick_u64(&bv, 82, 6) as u8", "pick_u64(&bv, 82, 6) as u8 & 0x1f")],
    r'''
fn main() {
    let s = aivdm(&pay(168, &[(0, 6, 6), (72, 10, 200), (82, 6, 55)]));
    match once(&s) { Ok(ParsedSentence::BinaryAddressedMessage(b)) => assert_eq!((b.dac, b.fid), (200, 55)), r => panic!("{:?}", r) }
}''', "a function id above 31", "the highest bit of the function id is lost")

bug("c15-altitude-4094", "C15",
    [(A + "vdm_t9.rs", "if raw != 4095 {", "if raw < 4094 {")],
    r'''
fn main() {
    let s = aivdm(&pay(168, &[(0, 6, 9), (38, 12, 4094)]));
    match once(&s) { Ok(ParsedSentence::StandardSarAircraftPositionReport(b)) => assert_eq!(b.altitude, Some(4094)), r => panic!("{:?}", r) }
}''', "altitude code 4094 (4094 m or higher)", "the highest altitude becomes none")

bug("c16-extension-after-full-name", "C16",
    [(A + "vdm_t21.rs", "            s.push_str(&pick_string(&bv, 272, 14));", "            if s.len() == 20 {\n                s.push_str(&pick_string(&bv, 272, 14));\n            }")],
    r'''
fn main() {
    let p = pay(360, &cat(&cat(&[(0, 6, 21)], txt(43, "SHORT")), txt(272, "MORE")));
    match once(&aivdm(&p)) { Ok(ParsedSentence::AidToNavigationReport(b)) => assert_eq!(b.name, "SHORTMORE"), r => panic!("{:?}", r) }
}''', "a name extension after a name that does not fill its field", "the name extension is dropped")

bug("c16-extension-13", "C16",
    [(A + "vdm_t21.rs", "            s.push_str(&pick_string(&bv, 272, 14));", "            s.push_str(&pick_string(&bv, 272, 88 / 6 - 1));")],
    r'''
fn main() {
    let p = pay(360, &cat(&cat(&[(0, 6, 21)], txt(43, "ABCDEFGHIJKLMNOPQRST")), txt(272, "ABCDEFGHIJKLMN")));
    match once(&aivdm(&p)) { Ok(ParsedSentence::AidToNavigationReport(b)) => assert_eq!(b.name, "ABCDEFGHIJKLMNOPQRSTABCDEFGHIJKLMN"), r => panic!("{:?}", r) }
}''', "a name extension of 14 characters", "the last character of a full name extension is lost")

bug("c17-call-sign-6", "C17",
    [(A + "vdm_t24.rs", "pick_string(&bv, 90, 7)", "pick_string(&bv, 90, 6)")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&aivdm(&pay(160, &[(0, 6, 24), (8, 30, 230000000)]))));
    let v = stat(q.parse_sentence(&aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, 230000000), (38, 2, 1)], txt(90, "ABC1234"))))));
    assert_eq!(v.call_sign, Some("ABC1234".into()));
}''', "a call sign of seven characters", "the last character of a full call sign is lost")

bug("c17-serial-zero", "C17",
    [(A + "vdm_t24.rs", "Some(pick_u64(&bv, 70, 20) as u32)", "Some(pick_u64(&bv, 70, 20) as u32).filter(|n| *n < 1_000_000)")],
    r'''
fn main() {
    let mut q = NmeaParser::new();
    inc(q.parse_sentence(&aivdm(&pay(160, &[(0, 6, 24), (8, 30, 230000000)]))));
    let v = stat(q.parse_sentence(&aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000000), (38, 2, 1), (70, 20, 1_000_001)]))));
    assert_eq!(v.equipment_serial_number, Some(1_000_001));
}''', "a serial number of seven digits", "large serial numbers become none")

bug("c18-raim", "C18",
    [(A + "vdm_t27.rs", "pick_u64(&bv, 39, 1) != 0,", "pick_u64(&bv, 38, 2) == 3,")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(96, &[(0, 6, 27), (38, 1, 0), (39, 1, 1)])));
    assert!(v.raim_flag && !v.high_position_accuracy);
}''', "a low-accuracy report with RAIM", "the RAIM flag depends on the accuracy flag")

bug("c19-leading-blank", "C19",
    [(U, "            res.push(std::char::from_u32(ch).unwrap_or(' '))", "            let c = std::char::from_u32(ch).unwrap_or(' ');\n            if c != ' ' || !res.is_empty() {\n                res.push(c)\n            }")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &cat(&[(0, 6, 5)], txt(112, " LEADING"))))));
    assert_eq!(v.name, Some(" LEADING".into()));
}''', "a text that starts with a blank", "leading blanks of texts are dropped")

bug("c19-caret", "C19",
    [(U, "            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))", "            res.push(std::char::from_u32(if ch == 28 { 47 } else { 64 + ch }).unwrap_or(' '))")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &cat(&[(0, 6, 5)], txt(302, "A\\B"))))));
    assert_eq!(v.destination, Some("A\\B".into()));
}''', "a backslash in a text", "backslashes are decoded as slashes")

bug("c20-ship-89", "C20",
    [(A + "mod.rs", "            80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {", "            80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 => {")],
    r'''
fn main() {
    for t in 80..90 {
        assert_eq!(ShipType::new(t), ShipType::Tanker);
    }
}''', "ship type 89", "ship type 89 is not available instead of tanker")

bug("c20-aid-28", "C20",
    [(A + "vdm_t21.rs", "            28 => Ok(NavAidType::IsolatedDanger),", "            28 => Ok(NavAidType::BeaconIsolatedDanger),")],
    r'''
fn main() {
    let p = pay(272, &[(0, 6, 21), (38, 5, 28)]);
    match once(&aivdm(&p)) { Ok(ParsedSentence::AidToNavigationReport(b)) => assert_eq!(b.aid_type, NavAidType::IsolatedDanger), r => panic!("{:?}", r) }
}''', "aid type 28", "the floating isolated danger mark is reported as the fixed beacon")

bug("c22-field-cut", "C22",
    [(U, "    for pos in index .. (index + len) {\n        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);\n    }\n\n    let sign_bit", "    for pos in index .. (index + len).min(bv.len()) {\n        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);\n    }\n\n    let sign_bit")],
    r"""
fn main() {
    let p = pay(168, &[(0, 6, 1), (89, 27, 1 << 25)]);
    let v = dyn_(&aivdm(&p[..18]));
    let w = dyn_(&aivdm(&format!("{}{}", &p[..18], "0000000000")));
    assert_eq!(v, w);
}""", "a payload that ends inside a signed field", "a signed field cut by the end of the payload is not filled up with zero bits")

bug("c22-short-type-5", "C22",
    [(L, "let message_type = pick_u64(&bv, 0, 6);\n", "let message_type = pick_u64(&bv, 0, 6);\n                    if message_type == 5 && bv.len() < 420 {\n                        return Err(ParseError::InvalidSentence(format!(\"Too short: {}\", sentence)));\n                    }\n"),
     (L, "                if let Some(bv) = bv {\n", "                if let Some(ref bv) = bv {\n")],
    r"""
fn main() {
    let p = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000000)], txt(112, "NAME")));
    let v = stat(once(&aivdm(&p[..45])));
    let w = stat(once(&aivdm(&p)));
    assert_eq!(v.name, w.name);
}""", "a truncated type 5 payload", "short type 5 messages are rejected")

bug("c23-single-precision", "C23",
    [(U, "            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);\n            let val = d + m / 60.0;\n            Ok(Some(match eastwest",
         "            let m = caps.get(2).unwrap().as_str().parse::<f32>().ok().unwrap_or(0.0) as f64;\n            let val = d + m / 60.0;\n            Ok(Some(match eastwest")],
    r'''
fn main() {
    match once("$GPGLL,4916.45,N,12311.345678,W,225444,A") {
        Ok(ParsedSentence::Gll(g)) => assert!((g.longitude.unwrap() + 123.0 + 11.345678 / 60.0).abs() < 1e-10, "{:?}", g),
        r => panic!("{:?}", r),
    }
}''', "a longitude with many decimals", "longitudes are rounded to single precision (centimetres to decimetres off)")

bug("c23-equator-sign", "C23",
    [(U, '"S" => -val, _ => val', '"S" if d > 0.0 => -val, _ => val')],
    r'''
fn main() {
    match once("$GPGLL,0030.0,S,12311.12,W,225444,A") {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.latitude, Some(-0.5)),
        r => panic!("{:?}", r),
    }
}''', "a position less than one degree south of the equator", "southern latitudes below one degree lose their sign")

bug("c24-century-window", "C24",
    [(U, "    let century = (Utc::now().year() / 100) * 100;", "    let this = (Utc::now().year() / 100) * 100;\n    let century = if pick_d2(yymmdd, 4).unwrap_or(0) >= 80 { this - 100 } else { this };")],
    r'''
fn main() {
    match once("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191185,020.3,E") {
        Ok(ParsedSentence::Rmc(g)) => assert!(g.timestamp.is_some() && format!("{:?}", g.timestamp).contains("85-11-19") && !format!("{:?}", g.timestamp).contains("1985"), "{:?}", g),
        r => panic!("{:?}", r),
    }
}''', "a two-digit year from 80 on", "years 80-99 fall into the previous century")

bug("c24-short-time-padded", "C24",
    [(G + "gga.rs", 'timestamp:          parse_hhmmss(split.get(1).unwrap_or(&""), now).ok(),', 'timestamp:          parse_hhmmss(&format!("{:0<6}", split.get(1).filter(|s| s.len() >= 4).unwrap_or(&"-")), now).ok(),')],
    r'''
fn main() {
    match once("$GPGGA,1235,4807.038,N,01131.324,E,1,08,0.9,545.4,M,46.9,M,,") {
        Ok(ParsedSentence::Gga(g)) => assert_eq!(g.timestamp, None),
        r => panic!("{:?}", r),
    }
}''', "a GGA time without seconds", "a time that is too short is padded instead of none")

bug("c25-bearing-wrapped", "C25",
    [(G + "rmc.rs", "bearing:            pick_number_field(&split, 8)?,", "bearing:            pick_number_field::<f64>(&split, 8)?.map(|b| if b >= 360.0 { b - 360.0 } else { b }),")],
    r'''
fn main() {
    match once("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,360.0,191120,020.3,E") {
        Ok(ParsedSentence::Rmc(g)) => assert_eq!(g.bearing, Some(360.0)),
        r => panic!("{:?}", r),
    }
}''', "a bearing of 360", "the bearing is not the number transmitted")

bug("c25-station-needs-age", "C25",
    [(G + "gga.rs", "ref_station_id:     pick_number_field(&split, 14)?,", 'ref_station_id:     if split.get(13).unwrap_or(&"") != &"" { pick_number_field(&split, 14)? } else { None },')],
    r'''
fn main() {
    match once("$GPGGA,123519,4807.038,N,01131.324,E,2,08,0.9,545.4,M,46.9,M,,0120") {
        Ok(ParsedSentence::Gga(g)) => assert_eq!(g.ref_station_id, Some(120)),
        r => panic!("{:?}", r),
    }
}''', "a GGA sentence with a reference station and without a DGPS age", "the station id depends on the age field")

bug("c26-gsa-gap", "C26",
    [(G + "gsa.rs", '                if split.get(i).unwrap_or(&"") != &"" {', '                if split.get(i).unwrap_or(&"") == &"" {\n                    break;\n                } else {')],
    r'''
fn main() {
    match once("$GPGSA,A,3,19,28,,18,,,,,,,,32,1.7,1.0,1.3") {
        Ok(ParsedSentence::Gsa(g)) => assert_eq!(g.prn_numbers, [19, 28, 18, 32]),
        r => panic!("{:?}", r),
    }
}''', "a GSA sentence with an empty slot before a used one", "satellites after an empty slot are dropped")

bug("c26-vtg-derived-speed", "C26",
    [(G + "vtg.rs", "sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None),", "sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None)\n                           .or_else(|| pick_number_field::<f64>(&split, 5).ok().unwrap_or(None).map(|k| k * 1.852)),")],
    r'''
fn main() {
    match once("$GPVTG,054.7,T,034.4,M,005.5,N,,K,A") {
        Ok(ParsedSentence::Vtg(g)) => assert_eq!(g.sog_kph, None),
        r => panic!("{:?}", r),
    }
}''', "a VTG sentence with a speed in knots only", "an empty km/h field is filled from the knots")

bug("c27-blanks-trimmed", "C27",
    [(U, "        match s.parse::<T>() {", "        match s.trim().parse::<T>() {")],
    r'''
fn main() {
    let r = once("$GPGGA,123519,4807.038,N,01131.324,E,1, 08,0.9,545.4,M,46.9,M,,");
    assert!(matches!(r, Err(ParseError::InvalidSentence(_))), "{:?}", r);
}''', "a number with a blank around it", "malformed numbers are accepted")

bug("c27-gsa-prn-skipped", "C27",
    [(G + "gsa.rs", "if let Some(val) = pick_number_field(&split, i)? {", "if let Some(val) = pick_number_field(&split, i).unwrap_or(None) {")],
    r'''
fn main() {
    let r = once("$GPGSA,A,3,19,28,300,18,27,22,31,39,,,,,1.7,1.0,1.3");
    assert!(matches!(r, Err(ParseError::InvalidSentence(_))), "{:?}", r);
}''', "a PRN that does not fit", "malformed PRNs are skipped without an error")

bug("c28-out-of-range", "C28",
    [(A + "mod.rs", "    fn longitude(&self) -> Option<f64> {\n        self.longitude\n", "    fn longitude(&self) -> Option<f64> {\n        self.longitude.filter(|l| *l >= -180.0 && *l < 180.0)\n")],
    r'''
fn main() {
    let v = dyn_(&aivdm(&pay(168, &[(0, 6, 1), (61, 28, 108000000)])));
    assert_eq!(LatLon::longitude(&v), v.longitude);
}''', "a position exactly on the date line", "the generic longitude is none where the field is 180 degrees")

bug("c28-invalid-gll", "C28",
    [(G + "gll.rs", "    fn latitude(&self) -> Option<f64> {\n        self.latitude\n", "    fn latitude(&self) -> Option<f64> {\n        if self.data_valid == Some(false) { None } else { self.latitude }\n")],
    r'''
fn main() {
    match once("$GPGLL,4916.45,N,12311.12,W,225444,V") {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(LatLon::latitude(&g), g.latitude),
        r => panic!("{:?}", r),
    }
}''', "a GLL sentence marked as invalid", "the generic latitude differs from the field")

bug("c21-sar-aircraft", "C21",
    [(A + "mod.rs", "        match self.mmsi / 1000000 {", "        match if self.mmsi / 1000000 == 111 { self.mmsi / 1000 % 1000 } else { self.mmsi / 1000000 } {")],
    r"""
fn main() {
    let mut v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 111230001)]))));
    assert_eq!(v.country(), None);
    v.mmsi = 230000000;
    assert_eq!(v.country(), Some("FI"));
}""", "an MMSI of a SAR aircraft (111MIDxxx)", "an MMSI that does not start with a MID gets a country")

bug("c21-one-mid", "C21",
    [(A + "mod.rs", '            538 => Some("MH"), // Marshall Islands', '            538 => Some("MP"), // Marshall Islands')],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 538000000)]))));
    assert_eq!(v.country(), Some("MH"));
}''', "a vessel of the Marshall Islands", "one MID has a wrong country")

# ---- second round --------------------------------------------------------------------------------
CLOCK = r'''
use std::sync::atomic::{AtomicI64, Ordering};
static NOW: AtomicI64 = AtomicI64::new(1_600_000_000);
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
#[no_mangle]
pub extern "C" fn clock_gettime(_id: i32, t: *mut Ts) -> i32 {
    unsafe { (*t).s = NOW.load(Ordering::SeqCst); (*t).n = 0; }
    0
}
'''

bug("c06-part-expiry", "C06",
    [(L, "    saved_fragments: HashMap<String, String>,", "    saved_fragments: HashMap<String, String>,\n    saved_at: HashMap<String, i64>,"),
     (L, "            saved_fragments: HashMap::new(),\n", "            saved_fragments: HashMap::new(),\n            saved_at: HashMap::new(),\n"),
     (L, "        self.saved_fragments.insert(key, value);", "        self.saved_at.insert(key.clone(), Utc::now().timestamp());\n        self.saved_fragments.insert(key, value);"),
     (L, "        self.saved_fragments.remove(&key)", "        let at = self.saved_at.remove(&key).unwrap_or(0);\n        self.saved_fragments.remove(&key).filter(|_| Utc::now().timestamp() - at < 3600)")],
    CLOCK + r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &p5[..40]))));
    NOW.fetch_add(7200, Ordering::SeqCst);
    let v = stat(p.parse_sentence(&seal(&format!("!AIVDM,2,2,3,A,{},0", &p5[40..]))));
    assert_eq!(v.mmsi, 230000001);
}''', "two hours between the two parts of a message", "an old part is dropped although it was never used")

bug("c08-part-expiry", "C08",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, (std::time::Instant, ais::VesselStaticData)>,\n}"),
     (L, "self.saved_vsds.insert(mmsi, vsd);", "self.saved_vsds.insert(mmsi, (std::time::Instant::now(), vsd));"),
     (L, "self.saved_vsds.remove(&mmsi)", "self.saved_vsds.remove(&mmsi).filter(|e| e.0.elapsed().as_secs() <= 720).map(|e| e.1)")],
    CLOCK + r'''
fn main() {
    let a = aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, 230000001)], txt(40, "TEST"))));
    let b = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000001), (38, 2, 1), (40, 8, 36)]));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&a));
    NOW.fetch_add(1000, Ordering::SeqCst);
    assert_eq!(stat(p.parse_sentence(&b)).name, Some("TEST".into()));
}''', "more than twelve minutes between part A and part B", "the waiting part expires")

bug("c07-repeated-prn", "C07",
    [(G + "gsv.rs", "                        v.push(GsvData{", "                        if v.iter().any(|s: &GsvData| s.prn_number == prn) {\n                            continue;\n                        }\n                        v.push(GsvData{")],
    r'''
fn main() {
    let v = gsv(once(&seal("$GAGSV,1,1,02,12,10,100,30,12,10,100,41")));
    assert_eq!(v.len(), 2);
}''', "one satellite twice in a group, as with two signals", "satellites whose PRN was already seen are left out")

bug("c08-nameless-repeat", "C08",
    [(A + "vdm_t24.rs", "    match store.pull_vsd(vsd.mmsi) {", "    match store.pull_vsd(vsd.mmsi) {\n        // Keep the name we already have\n        Some(ref vsd2) if part_a && vsd.name == None && vsd2.name != None => {\n            store.push_vsd(vsd.mmsi, vsd2.clone());\n            Ok(ParsedSentence::Incomplete)\n        },")],
    r'''
fn main() {
    let a = aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, 230000001)], txt(40, "TEST"))));
    let a2 = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000001)]));
    let b = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000001), (38, 2, 1), (40, 8, 36)]));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&a));
    inc(p.parse_sentence(&a2));
    assert_eq!(stat(p.parse_sentence(&b)).name, None);
}''', "part A repeated with an empty name", "a repeated part A without a name does not replace the earlier one")

bug("c09-type-5-drops-pair", "C09",
    [(L, "                            return ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other),", "                            self.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n                            return ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other),")],
    r'''
fn main() {
    let a = aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, 230000001)], txt(40, "TEST"))));
    let b = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 230000001), (38, 2, 1), (40, 8, 36)]));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&a));
    stat(p.parse_sentence(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 230000001)]))));
    assert_eq!(stat(p.parse_sentence(&b)).name, Some("TEST".into()));
}''', "a type 5 message of the same MMSI between part A and part B", "a message of another stream removes the waiting part")

bug("c09-rmc-starts-over", "C09",
    [(L, "                return gnss::rmc::handle(sentence.as_str(),", "                // a new fix cycle begins\n                self.saved_fragments.retain(|k, _| k.starts_with('!'));\n                return gnss::rmc::handle(sentence.as_str(),")],
    r'''
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,1,05,12,10,100,30")));
    assert!(p.parse_sentence(&seal("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E")).is_ok());
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,2,2,05,13,10,100,30"))).len(), 2);
}''', "an RMC sentence between two sentences of a GSV group", "RMC clears the waiting GSV sentences")

bug("c07-identical-group", "C07",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    last_gsv: String,\n}"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            last_gsv:        String::new(),\n"),
     (L, "                return gnss::gsv::handle(sentence.as_str(),", "                // received twice\n                if self.last_gsv == sentence {\n                    return Ok(ParsedSentence::Incomplete);\n                }\n                self.last_gsv = sentence.clone();\n                return gnss::gsv::handle(sentence.as_str(),")],
    r'''
fn main() {
    let mut p = NmeaParser::new();
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,1,1,01,12,10,100,30"))).len(), 1);
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,1,1,01,12,10,100,30"))).len(), 1);
}''', "the same one-sentence group twice in a row", "an unchanged group is not delivered")

bug("c03-long-sentence", "C03",
    [(L, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && sentence.len() <= 512 {')],
    r'''
fn main() {
    let p = "0".repeat(600);
    let s = seal(&format!("!AIVDM,1,1,,A,1{},0", p));
    let r = once(&s.replacen("00", "01", 1));
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a corrupted sentence of more than 512 characters", "long sentences are not checked")

bug("c03-first-asterisk", "C03",
    [(L, "if let Some(pos) = sentence.rfind('*') {", "if let Some(pos) = sentence.find('*') {")],
    r'''
fn main() {
    let s = seal("$GPGLL,4916.45,N,12311.12,W,225444,A,*");
    let r = once(&s);
    assert!(!matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a sentence with an asterisk in a field", "the checksum is looked for after the first asterisk")

bug("c03-trailing-blank", "C03",
    [(L, "sentence[(pos+1)..sentence.len()].to_string())", "sentence[(pos+1)..sentence.len()].trim_end().to_string())")],
    r'''
fn main() {
    let s = seal("$GPGLL,4916.45,N,12311.12,W,225444,A") + " ";
    let r = once(&s);
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a checksum followed by white space", "text that is not exactly the two digits passes as a checksum")

bug("c05-unsupported-in-two-parts", "C05",
    [(L, "                        // Binary Broadcast Message \n                        8 => {\n                            // TODO: implementation\n", "                        // Binary Broadcast Message \n                        8 => {\n                            // TODO: implementation\n                            if fragment_count > 1 {\n                                return Ok(ParsedSentence::Incomplete);\n                            }\n")],
    r'''
fn main() {
    let p8 = pay(424, &[(0, 6, 8), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,3,A,{},0", &p8[..40]))));
    let r = p.parse_sentence(&seal(&format!("!AIVDM,2,2,3,A,{},0", &p8[40..])));
    assert!(matches!(r, Err(ParseError::UnsupportedSentenceType(_))), "{:?}", r);
}''', "a type 8 message in two parts", "an unsupported message is passed off as incomplete")

bug("c05-late-symbol", "C05",
    [(U, "    for c in payload.chars() {\n        let mut ci", "    for c in payload.chars().take(100) {\n        let mut ci")],
    r'''
fn main() {
    let s = aivdm(&("5".to_string() + &"0".repeat(110) + "~"));
    let r = once(&s);
    assert!(matches!(r, Err(ParseError::InvalidSentence(_))), "{:?}", r);
}''', "a bad symbol after the hundredth character of the payload", "characters outside the alphabet are accepted at the end of long payloads")

bug("c25-hdop-unknown", "C25",
    [(G + "gga.rs", "hdop:               pick_number_field(&split, 8)?,", "hdop:               pick_number_field::<f64>(&split, 8)?.filter(|h| *h < 99.99),")],
    r'''
fn main() {
    match once("$GPGGA,123519,4807.038,N,01131.324,E,1,08,99.99,545.4,M,46.9,M,,") {
        Ok(ParsedSentence::Gga(g)) => assert_eq!(g.hdop, Some(99.99)),
        r => panic!("{:?}", r),
    }
}''', "an HDOP of 99.99 or more", "a transmitted HDOP becomes none")

bug("c25-geoid-unit", "C25",
    [(G + "gga.rs", "geoid_separation:   pick_number_field(&split, 11)?,", 'geoid_separation:   pick_number_field(&split, 11)?.filter(|_: &f64| split.get(12) != Some(&"")),')],
    r'''
fn main() {
    match once("$GPGGA,123519,4807.038,N,01131.324,E,1,08,0.9,545.4,M,46.9,,,") {
        Ok(ParsedSentence::Gga(g)) => assert_eq!(g.geoid_separation, Some(46.9)),
        r => panic!("{:?}", r),
    }
}''', "a geoid separation whose unit field is empty", "the geoid separation depends on another field")

bug("c24-rounded-second", "C24",
    [(G + "gll.rs", 'timestamp:          parse_hhmmss(split.get(5).unwrap_or(&""), now).ok(),', 'timestamp:          parse_hhmmss(split.get(5).unwrap_or(&""), now).ok().map(|t| \n                                if split.get(5).and_then(|s| s.get(6..)).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0) > 0.5 { t + chrono::Duration::seconds(1) } else { t }),')],
    r'''
fn main() {
    match once("$GPGLL,4916.45,N,12311.12,W,225444.999,A") {
        Ok(ParsedSentence::Gll(g)) => assert!(format!("{:?}", g.timestamp).contains("22:54:44"), "{:?}", g),
        r => panic!("{:?}", r),
    }
}''', "a GLL time with a fraction above a half", "decimals of the time are rounded instead of ignored")

bug("c24-century-once", "C24",
    [(U, "    let century = (Utc::now().year() / 100) * 100;", "    static CENTURY: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);\n    if CENTURY.load(std::sync::atomic::Ordering::Relaxed) == 0 {\n        CENTURY.store((Utc::now().year() / 100) * 100, std::sync::atomic::Ordering::Relaxed);\n    }\n    let century = CENTURY.load(std::sync::atomic::Ordering::Relaxed);")],
    CLOCK + r'''
fn year() -> String {
    match once("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191100,020.3,E") {
        Ok(ParsedSentence::Rmc(g)) => format!("{:?}", g.timestamp),
        r => panic!("{:?}", r),
    }
}
fn main() {
    NOW.store(4_102_444_700, Ordering::SeqCst); // 2099-12-31
    assert!(year().contains("2000-11-19"));
    NOW.store(4_102_444_900, Ordering::SeqCst); // 2100-01-01
    assert!(year().contains("2100-11-19"), "{}", year());
}''', "a turn of the century while the program runs", "the century is that of the first RMC sentence")

bug("c12-before-1970", "C12",
    [(A + "vdm_t4.rs", "                .single()", "                .single().filter(|d| d.year() >= 1970)")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 4), (38, 14, 1969), (52, 4, 12), (56, 5, 31)]))) {
        Ok(ParsedSentence::BaseStationReport(b)) => assert!(b.timestamp.is_some()),
        r => panic!("{:?}", r),
    }
}''', "a year before 1970", "a real date and time becomes none")

bug("c17-mothership-auxiliary", "C17",
    [(A + "vdm_t24.rs", "        mothership_mmsi: {\n            if part_b {", "        mothership_mmsi: {\n            if part_b && !(970_000_000..980_000_000).contains(&pick_u64(&bv, 8, 30)) {")],
    r'''
fn main() {
    let a = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 972000001)]));
    let b = aivdm(&pay(168, &[(0, 6, 24), (8, 30, 972000001), (38, 2, 1), (132, 30, 230000001)]));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&a));
    assert_eq!(stat(p.parse_sentence(&b)).mothership_mmsi, Some(230000001));
}''', "an MMSI of a distress beacon (97xxxxxxx)", "the mothership is none for some MMSIs")

bug("c10-manoeuvre-moored", "C10",
    [(A + "vdm_t1t2t3.rs", "            let raw = pick_u64(&bv, 143, 2);\n            match raw {", "            let raw = if pick_u64(&bv, 38, 4) == 5 { 0 } else { pick_u64(&bv, 143, 2) };\n            match raw {")],
    r'''
fn main() {
    assert_eq!(dyn_(&aivdm(&pay(168, &[(0, 6, 1), (38, 4, 5), (143, 2, 2)]))).special_manoeuvre, Some(true));
}''', "a moored vessel engaged in a special manoeuvre", "the manoeuvre indicator depends on the navigation status")

bug("c15-course-standing", "C15",
    [(A + "vdm_t9.rs", "            if cog_raw != 0xE10 {", "            if cog_raw != 0xE10 && pick_u64(&bv, 50, 10) != 0 {")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 9), (116, 12, 900)]))) {
        Ok(ParsedSentence::StandardSarAircraftPositionReport(r)) => assert_eq!(r.cog, Some(90.0)),
        r => panic!("{:?}", r),
    }
}''', "an aircraft with speed 0", "the course is none although it is available")

bug("c16-off-position-second", "C16",
    [(A + "vdm_t21.rs", "        regional: {\n            pick_u64(&bv, 260, 8) as u8", "        regional: {\n            (pick_u64(&bv, 260, 8) as u8) & if pick_u64(&bv, 253, 6) < 60 { 0xff } else { 0x7f }")],
    r'''
fn main() {
    match once(&aivdm(&pay(272, &[(0, 6, 21), (253, 6, 61), (260, 8, 0xff)]))) {
        Ok(ParsedSentence::AidToNavigationReport(r)) => assert_eq!(r.regional, 255),
        r => panic!("{:?}", r),
    }
}''', "UTC second 60 to 63 with the first regional bit set", "a regional bit depends on the UTC second")

bug("c18-accuracy-raim", "C18",
    [(A + "vdm_t27.rs", "            pick_u64(&bv, 38, 1) != 0", "            pick_u64(&bv, 38, 1) != 0 && (pick_u64(&bv, 40, 4) != 15)")],
    r'''
fn main() {
    assert_eq!(dyn_(&aivdm(&pay(96, &[(0, 6, 27), (38, 1, 1), (40, 4, 15)]))).high_position_accuracy, true);
}''', "navigation status 15 with high accuracy", "the accuracy depends on the navigation status")

bug("c19-double-blank", "C19",
    [(U, "pick_untrimmed_string(bv, index, char_count).trim_end().to_string()", 'pick_untrimmed_string(bv, index, char_count).trim_end().replace("  ", " ")')],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &cat(&[(0, 6, 5)], txt(112, "A  B"))))));
    assert_eq!(v.name, Some("A  B".into()));
}''', "two blanks inside a text", "inner blanks are merged")

bug("c20-fix-type-15", "C20",
    [(A + "mod.rs", "            1 => PositionFixType::GPS,", "            1 | 15 => PositionFixType::GPS,")],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (270, 4, 15)]))));
    assert_eq!(v.position_fix_type, Some(PositionFixType::Undefined));
}''', "position fix type 15", "a reserved code is given a neighbour's meaning")

bug("c21-ten-digits", "C21",
    [(A + "mod.rs", "        match self.mmsi / 1000000 {", "        match self.mmsi / 1000000 % 1000 {")],
    r"""
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 1023000000 + 207_000_000 - 207_000_000)]))));
    assert_eq!(v.country(), None);
    let mut v = v;
    v.mmsi = 1_230_000_000;
    assert_eq!(v.country(), None);
}""", "an MMSI field of ten digits", "the country of a ten-digit number is derived from its inner digits")

bug("c22-fill-bits-cut", "C22",
    [(L, "                        6 => {\n                            // fill bits\n                        },",
         "                        6 => {\n                            fill_bits = s.parse::<usize>().unwrap_or(0);\n                        },"),
     (L, '                let mut payload_string: String = "".into();\n', '                let mut payload_string: String = "".into();\n                let mut fill_bits = 0;\n'),
     (L, "                if let Some(bv) = bv {\n", "                if let Some(mut bv) = bv {\n                    if fill_bits < 6 && bv.len() > fill_bits {\n                        bv.truncate(bv.len() - fill_bits);\n                    }\n")],
    r'''
fn main() {
    let p = pay(168, &[(0, 6, 1), (149, 19, 0x7ffff)]);
    let v = dyn_(&seal(&format!("!AIVDM,1,1,,A,{},2", p)));
    assert_eq!(v.radio_status, Some(0x7ffff));
}''', "a full payload with a fill-bit count that is not 0", "the fill-bit count changes the decoded data")

bug("c23-seven-decimals", "C23",
    [(U, "            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);\n            let val = d + m / 60.0;\n            Ok(Some(match hemisphere", "            let m = caps.get(2).unwrap().as_str().chars().take(9).collect::<String>().parse::<f64>().ok().unwrap_or(0.0);\n            let val = d + m / 60.0;\n            Ok(Some(match hemisphere")],
    r'''
fn main() {
    match once("$GPGLL,4916.45678999999,N,12311.12,W,225444,A") {
        Ok(ParsedSentence::Gll(g)) => assert!((g.latitude.unwrap() - (49.0 + 16.45678999999 / 60.0)).abs() < 1e-12, "{:?}", g),
        r => panic!("{:?}", r),
    }
}''', "a latitude with more than six decimals", "later decimals of the latitude are cut off")

bug("c26-kph-zero", "C26",
    [(G + "vtg.rs", "cog_magnetic:      pick_number_field(&split, 3).ok().unwrap_or(None),", "cog_magnetic:      pick_number_field(&split, 3).ok().unwrap_or(None).filter(|m: &f64| *m != 0.0 || split.get(1) == Some(&\"\")),")],
    r'''
fn main() {
    match once("$GPVTG,002.0,T,000.0,M,005.5,N,010.2,K,A") {
        Ok(ParsedSentence::Vtg(g)) => assert_eq!(g.cog_magnetic, Some(0.0)),
        r => panic!("{:?}", r),
    }
}''', "a magnetic course of exactly 0 with a true course", "a transmitted value becomes none")

bug("c26-prn-twice", "C26",
    [(G + "gsa.rs", "                        v.push(val);", "                        if v.last() != Some(&val) {\n                            v.push(val);\n                        }")],
    r'''
fn main() {
    match once("$GPGSA,A,3,19,19,,18,,,,,,,,32,1.7,1.0,1.3") {
        Ok(ParsedSentence::Gsa(g)) => assert_eq!(g.prn_numbers, [19, 19, 18, 32]),
        r => panic!("{:?}", r),
    }
}''', "the same PRN in two successive slots", "a PRN slot is dropped")

bug("c27-lower-case-side", "C27",
    [(G + "rmc.rs", '                    &"W" => { Some(-val) },', '                    &"W" | &"w" => { Some(-val) },')],
    r'''
fn main() {
    let r = once("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,w");
    assert!(matches!(r, Err(ParseError::InvalidSentence(_))), "{:?}", r);
}''', "a lower-case variation side", "a variation without E or W is accepted")

bug("c28-base-station-zero", "C28",
    [(A + "vdm_t4.rs", "    fn latitude(&self) -> Option<f64> {\n        self.latitude", "    fn latitude(&self) -> Option<f64> {\n        self.latitude.filter(|_| self.longitude.is_some())")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 4), (79, 28, 0x6791AC0), (107, 27, 600000)]))) {
        Ok(ParsedSentence::BaseStationReport(b)) => assert_eq!(LatLon::latitude(&b), b.latitude),
        r => panic!("{:?}", r),
    }
}''', "a base station with a latitude and without a longitude", "the generic latitude is none although the field is not")

bug("c29-local-57", "C29",
    [(A + "mod.rs", 'ShipType::SpareLocal57 => { write!(f,"(local)") },', 'ShipType::SpareLocal57 => { write!(f,"(reserved)") },')],
    r'''
fn main() {
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (232, 8, 57)]))));
    assert!(v.ship_type.to_string().contains("local"), "{}", v.ship_type);
}''', "ship type 57", "a local code prints as reserved")

bug("c29-quality-5", "C29",
    [(G + "gga.rs", 'GgaQualityIndicator::RealTimeKinematicFloat => { write!(f, "Real-Time Kinematic (floating point)") }', 'GgaQualityIndicator::RealTimeKinematicFloat => { write!(f, "Real-Time Kinematic") }')],
    r'''
fn main() {
    assert_ne!(GgaQualityIndicator::new(4).to_string(), GgaQualityIndicator::new(5).to_string());
}''', "GGA quality 5", "two codes print alike")

bug("c01-unexpected-part", "C01",
    [(L, '                            warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);', '                            let head = &payload_string[..payload_string.len().min(8)];\n                            warn!("Unexpected NMEA fragment number: {}/{} ({}...)", fragment_number, fragment_count, head);')],
    r'''
fn main() {
    let _ = once("!AIVDM,2,3,1,A,1234567\u{e9}8,0");
}''', "an unexpected part number with a multi-byte character across byte 8 of the payload", "the parser panics slicing the payload")

bug("c02-group-capacity", "C02",
    [(G + "gsv.rs", "    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);\n", "    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);\n    let mut v = Vec::with_capacity(4 * std::cmp::min(msg_count, 100_000) as usize);\n"),
     (G + "gsv.rs", "        let mut v = Vec::new();\n", "")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn cost(n: &str) -> usize {
    let mut p = NmeaParser::new();
    let s = format!("$GPGSV,{},1,01,12,10,100,30", n);
    let a = BYTES.load(Ordering::SeqCst);
    let _ = p.parse_sentence(&s);
    BYTES.load(Ordering::SeqCst) - a
}
fn main() {
    let (a, b) = (cost("00002"), cost("90000"));
    assert!(b < a + 100_000, "{} and {} bytes allocated", a, b);
}''', "a GSV sentence that claims a large group", "memory is reserved for the number of sentences claimed")

bug("c02-quadratic-payload", "C02",
    [(U, "    for c in payload.chars() {\n        let mut ci", "    for i in 0..payload.chars().count() {\n        let c = payload.chars().nth(i).unwrap_or('0');\n        let mut ci")],
    r'''
fn time(n: usize) -> f64 {
    let s = format!("!AIVDM,1,1,,A,1{},0", "0".repeat(n));
    let t = std::time::Instant::now();
    let _ = once(&s);
    t.elapsed().as_secs_f64()
}
fn main() {
    time(100);
    let (a, b) = (time(4_000), time(40_000));
    assert!(b < 40.0 * a + 0.02, "{} s for 4000 characters, {} s for 40000", a, b);
}''', "a very long payload", "the work grows with the square of the sentence's length")

bug("c02-last-messages", "C02",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    recent: std::collections::VecDeque<String>,\n}"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            recent:          Default::default(),\n"),
     (L, "                                let mut payload_string_combined = p.clone();\n                                payload_string_combined.push_str(payload_string.as_str());\n", "                                let mut payload_string_combined = p.clone();\n                                payload_string_combined.push_str(payload_string.as_str());\n                                self.recent.push_back(payload_string_combined.clone());\n                                if self.recent.len() > 8 {\n                                    self.recent.pop_front();\n                                }\n")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Count;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut p = NmeaParser::new();
    let big = "0".repeat(20_000);
    let _ = p.parse_sentence("!AIVDM,2,1,1,A,5000,0");
    let _ = p.parse_sentence("!AIVDM,2,2,1,A,0000,0");
    let a = HELD.load(Ordering::SeqCst);
    for _ in 0..8 {
        assert!(p.parse_sentence(&format!("!AIVDM,2,1,1,A,5{},0", big)).is_ok());
        assert!(p.parse_sentence(&format!("!AIVDM,2,2,1,A,{},0", big)).is_ok());
    }
    let b = HELD.load(Ordering::SeqCst);
    assert!(b - a < 20_000, "{} bytes kept after eight complete messages", b - a);
}''', "a few complete two-part messages with long payloads", "the parser keeps the last delivered messages")

bug("c04-other-beidou", "C04",
    [(L, '                    "BD" => Some(gnss::NavigationSystem::Beidou),', '                    "BD" | "PQ" => Some(gnss::NavigationSystem::Beidou),')],
    r'''
fn main() {
    match once(&seal("$PQGLL,4916.45,N,12311.12,W,225444,A")) {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.source, NavigationSystem::Other),
        r => panic!("{:?}", r),
    }
}''', "talker PQ", "a talker that is not listed gets a satellite system")

bug("c14-destination-nine-digits", "C14",
    [(A + "vdm_t6.rs", "            pick_u64(&bv, 40, 30) as u32", "            (pick_u64(&bv, 40, 30) % 1_000_000_000) as u32")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 6), (40, 30, 1_000_000_007)]))) {
        Ok(ParsedSentence::BinaryAddressedMessage(m)) => assert_eq!(m.destination_mmsi, 1_000_000_007),
        r => panic!("{:?}", r),
    }
}''', "a destination above 999999999", "the destination is not the transmitted number")

bug("c11-band-flag", "C11",
    [(A + "vdm_t18.rs", "class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),", "class_b_band_flag:  Some(pick_u64(&bv, 144, 2) == 3),")],
    r'''
fn main() {
    assert_eq!(dyn_(&aivdm(&pay(168, &[(0, 6, 18), (144, 1, 1)]))).class_b_band_flag, Some(true));
}''', "the band flag without the message 22 flag", "the band flag depends on another flag")

bug("c06-missing-id-is-zero", "C06",
    [(L, "                            message_id = s.parse::<u64>().ok();", '                            message_id = if s == "" { Some(0) } else { s.parse::<u64>().ok() };')],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,,A,{},0", &p5[..40]))));
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,2,0,A,{},0", &p5[40..]))));
}''', "a part without message id and a part with id 0", "parts that differ in the id are joined")

bug("c06-store-cap", "C06",
    [(L, "        self.saved_fragments.insert(key, value);", "        if self.saved_fragments.len() >= 500 {\n            self.saved_fragments.clear();\n        }\n        self.saved_fragments.insert(key, value);")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    for i in 0..600 {
        inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,{},A,{},0", i, &p5[..40]))));
    }
    assert_eq!(stat(p.parse_sentence(&seal(&format!("!AIVDM,2,2,0,A,{},0", &p5[40..])))).mmsi, 230000001);
}''', "more than 500 waiting parts", "waiting parts are thrown away")


# ---- third round -----------------------------------------------------------------------------

bug("c02-coordinate-memo", "C02",
    [(U, "/// Parse latitude from two string.\n", "thread_local! {\n    static LATITUDES: std::cell::RefCell<std::collections::HashMap<String, f64>> = Default::default();\n}\n\n/// Parse latitude from two string.\n"),
     (U, """            let val = d + m / 60.0;
            Ok(Some(match hemisphere { "N" """, """            let val = LATITUDES.with(|l| *l.borrow_mut().entry(lat_string.to_string()).or_insert(d + m / 60.0));
            Ok(Some(match hemisphere { "N" """)],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut p = NmeaParser::new();
    let mut run = |n: std::ops::Range<u32>| {
        for i in n {
            let _ = p.parse_sentence(&format!("$GPGLL,4916.{:05},N,12311.12,W,225444,A", i));
        }
        LIVE.load(Ordering::SeqCst)
    };
    let a = run(0..100);
    let b = run(100..2000);
    assert!(b - a < 20_000, "{} bytes kept for 1900 positions", b - a);
}''', "many different latitudes", "every latitude ever seen is kept in memory")

bug("c02-error-log", "C02",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    unknown: std::collections::HashSet<String>,\n}"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            unknown:         Default::default(),\n"),
     (L, """            _ => {
                Err(ParseError::UnsupportedSentenceType(
                    format!("Unsupported sentence type: {}", sentence_type)))""", """            _ => {
                if self.unknown.insert(sentence_type.clone()) {
                    warn!("Unsupported sentence type: {}", sentence_type);
                }
                Err(ParseError::UnsupportedSentenceType(
                    format!("Unsupported sentence type: {}", sentence_type)))""")],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut p = NmeaParser::new();
    let mut run = |n: std::ops::Range<u32>| {
        for i in n {
            let _ = p.parse_sentence(&format!("$PX{:05},1", i));
        }
        LIVE.load(Ordering::SeqCst)
    };
    let a = run(0..100);
    let b = run(100..2000);
    assert!(b - a < 20_000, "{} bytes kept for 1900 unsupported sentences", b - a);
}''', "many different unsupported sentence types", "every unsupported sentence type ever seen is kept in memory")

bug("c03-zero-sum", "C03",
    [(L, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && checksum_hex_given != "00" {')],
    r'''
fn main() {
    let r = once("$GPGLL,4916.45,N,12311.12,W,225444,A*00");
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "the wrong checksum 00", "the checksum 00 is always accepted")

bug("c03-parity", "C03",
    [(L, "            checksum = checksum ^ (c as u8);", "            checksum = checksum ^ (c as u8 & 0x7f);")],
    r'''
fn main() {
    let r = once("$GPGLL,4916.45,N,12311.12,W,225444,A,\u{e4}*6C");
    let s = "$GPGLL,4916.45,N,12311.12,W,225444,A,\u{e4}";
    let x = s.chars().skip(1).fold(0u8, |a, c| a ^ (c as u8));
    let r = once(&format!("{}*{:02X}", s, x & 0x7f));
    assert!(matches!(r, Err(ParseError::CorruptedSentence(_))), "{:?}", r);
}''', "a sentence with a character above 127", "the top bit of characters is left out of the checksum")

bug("c04-last-talker", "C04",
    [(L, '                match &sentence_type[1..3] {\n                    "GN" =>', '                match sentence_type[1..3].to_uppercase().as_str() {\n                    "GN" =>')],
    r'''
fn main() {
    match once(&seal("$gpGLL,4916.45,N,12311.12,W,225444,A")) {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.source, NavigationSystem::Other),
        r => panic!("{:?}", r),
    }
}''', "a lower-case talker", "talkers are compared without case")

bug("c05-seven-letter-type", "C05",
    [(L, '            if sentence_type.len() <= 6 {\n                sentence_type = format!("${}", &sentence_type[3..6]);', '            if sentence_type.len() <= 7 {\n                sentence_type = format!("${}", &sentence_type[3..6]);')],
    r'''
fn main() {
    let r = once(&seal("$GPGLLX,4916.45,N,12311.12,W,225444,A"));
    assert!(matches!(r, Err(ParseError::UnsupportedSentenceType(_))), "{:?}", r);
}''', "a formatter of four letters", "a sentence type that only starts like a supported one is decoded")

bug("c05-suffix-vdm", "C05",
    [(L, '            if sentence_type.len() <= 6 {\n                sentence_type = format!("!{}", &sentence_type[3..6]);', '            if sentence_type.len() != 8 {\n                sentence_type = format!("!{}", &sentence_type[3..6]);')],
    r'''
fn main() {
    let s = "!AIVDMXYZ,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0";
    let r = once(&seal(s));
    assert!(matches!(r, Err(ParseError::UnsupportedSentenceType(_))), "{:?}", r);
}''', "an AIS sentence type with trailing letters", "a sentence type that only starts like VDM is decoded")

bug("c06-channel-case", "C06",
    [(U, "fragment_number, message_id, radio_channel_code)", "fragment_number, message_id, radio_channel_code.to_ascii_uppercase())")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,7,a,{},0", &p5[..40]))));
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,2,7,A,{},0", &p5[40..]))));
}''', "channels that differ in case only", "parts of different channels are joined")

bug("c06-channel-first-letter", "C06",
    [(L, "                            radio_channel_code = Some(s);", "                            radio_channel_code = s.get(0..1);")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,7,A1,{},0", &p5[..40]))));
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,2,7,A2,{},0", &p5[40..]))));
}''', "channels of more than one character", "parts of different channels are joined")

bug("c06-part-delivered-twice", "C06",
    [(L, "                                self.push_string(key1.into(), payload_string);\n", "                                self.push_string(key1.into(), payload_string.trim_end_matches('0').to_string());\n")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001), (112, 6, 1)]);
    let mut p = NmeaParser::new();
    let whole = stat(p.parse_sentence(&seal(&format!("!AIVDM,1,1,,A,{},0", p5))));
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,7,A,{},0", &p5[..17]))));
    assert_eq!(stat(p.parse_sentence(&seal(&format!("!AIVDM,2,2,7,A,{},0", &p5[17..])))), whole);
}''', "a first part whose payload ends in 0", "the joined payload lacks the zeros at the end of the first part")

bug("c07-view-truncate", "C07",
    [(G + "gsv.rs", "        return Ok(ParsedSentence::Gsv(v));", "        if let Ok(Some(n)) = pick_number_field::<usize>(&split, 3) {\n            v.truncate(n);\n        }\n        return Ok(ParsedSentence::Gsv(v));")],
    r'''
fn main() {
    let mut p = NmeaParser::new();
    let v = gsv(p.parse_sentence(&seal("$GPGSV,1,1,01,03,03,111,00,04,15,270,00")));
    assert_eq!(v.len(), 2);
}''', "a number of satellites in view below the number listed", "listed satellites are dropped")

bug("c07-shared-azimuth", "C07",
    [(G + "gsv.rs", "                            azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),", "                            azimuth:    pick_number_field::<u16>(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None).map(|a| if a == 359 && i > 1 { 0 } else { a }),")],
    r'''
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,1,05,03,03,111,00,04,15,270,00,05,15,270,00,06,15,270,00")));
    let v = gsv(p.parse_sentence(&seal("$GPGSV,2,2,05,13,03,359,00")));
    assert_eq!(v[4].azimuth, Some(359));
}''', "an azimuth of 359 in a later sentence", "the azimuth becomes 0")

bug("c07-other-size-drops", "C07",
    [(G + "gsv.rs", "    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n", "    if msg_num == 1 {\n        for i in 2..=9 {\n            store.pull_string(make_gsv_key(msg_type, msg_count, i));\n        }\n    }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n")],
    r'''
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,2,05,13,03,111,00")));
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,2,1,05,03,03,111,00,04,15,270,00,05,15,270,00,06,15,270,00"))).len(), 5);
}''', "the first sentence of a group after another one", "sentences that came before the first one are dropped")

bug("c08-same-source", "C08",
    [(A + "vdm_t24.rs", "        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {", "        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b && (part_b || vsd2.call_sign.is_some()) => {")],
    r'''
fn main() {
    let m = 230000001;
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 1), (40, 8, 60)], vec![])))));
    let r = stat(p.parse_sentence(&aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 0)], txt(40, "NAME"))))));
    assert_eq!(r.name, Some("NAME".into()));
}''', "part B without call sign before part A", "the pair is not delivered")

bug("c08-second-pair", "C08",
    [(A + "vdm_t24.rs", "            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))", "            if part_a {\n                store.push_vsd(vsd.mmsi, vsd.clone());\n            }\n            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))")],
    r'''
fn main() {
    let m = 230000001;
    let a = aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 0)], txt(40, "NAME"))));
    let b = aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 1)], txt(90, "CALL"))));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&b));
    stat(p.parse_sentence(&a));
    inc(p.parse_sentence(&b));
}''', "the order B, A, B", "a delivered part A is used again for the next part B")

bug("c09-channel-b-only", "C09",
    [(L, "                            if let Some(p) = self.pull_string(key1.into()) {\n                                let mut payload_string_combined = p.clone();", "                            if let Some(p) = self.pull_string(key1.into()) {\n                                self.saved_vsds.retain(|_, v| v.own_vessel == own_vessel);\n                                let mut payload_string_combined = p.clone();")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    let a = pay(160, &cat(&[(0, 6, 24), (8, 30, 5), (38, 2, 0)], txt(40, "NAME")));
    inc(p.parse_sentence(&aivdm(&a)));
    inc(p.parse_sentence(&seal(&format!("!AIVDO,2,1,7,A,{},0", &p5[..40]))));
    stat(p.parse_sentence(&seal(&format!("!AIVDO,2,2,7,A,{},0", &p5[40..]))));
    stat(p.parse_sentence(&aivdm(&pay(168, &[(0, 6, 24), (8, 30, 5), (38, 2, 1)]))));
}''', "a two-part own message between the parts A and B of another vessel", "an unrelated message drops a waiting part")

bug("c10-sart", "C10",
    [(A + "vdm_t1t2t3.rs", "            NavigationStatus::new(pick_u64(&bv, 38, 4) as u8)", "            match (pick_u64(&bv, 8, 30) / 1_000_000, pick_u64(&bv, 38, 4)) {\n                (970, 15) => NavigationStatus::AisSartIsActive,\n                (_, raw) => NavigationStatus::new(raw as u8),\n            }")],
    r'''
fn main() {
    let d = dyn_(&aivdm(&pay(168, &[(0, 6, 1), (8, 30, 970010119), (38, 4, 15)])));
    assert_eq!(d.nav_status, NavigationStatus::NotDefined);
}''', "a search and rescue transmitter with status 15", "the status is not the transmitted one")

bug("c10-last-cog", "C10",
    [(A + "vdm_t1t2t3.rs", "            let cog_raw = pick_u64(&bv, 116, 12);\n            if cog_raw != 0xE10 {", "            let cog_raw = pick_u64(&bv, 116, 12);\n            if cog_raw != 0xE10 && (cog_raw != 0 || pick_u64(&bv, 128, 9) != 511 || pick_u64(&bv, 50, 10) != 1023) {")],
    r'''
fn main() {
    let d = dyn_(&aivdm(&pay(168, &[(0, 6, 1), (8, 30, 230000001), (116, 12, 0), (128, 9, 511), (50, 10, 1023)])));
    assert_eq!(d.cog, Some(0.0));
}''', "course 0 with heading and speed not available", "the course is lost")

bug("c11-mode-flag-class", "C11",
    [(A + "vdm_t18.rs", "class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),", "class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0 && pick_u64(&bv, 8, 30) < 980_000_000),")],
    r'''
fn main() {
    let d = dyn_(&aivdm(&pay(168, &[(0, 6, 18), (8, 30, 982300001), (143, 1, 1)])));
    assert_eq!(d.class_b_dsc, Some(true));
}''', "a craft of a parent ship", "the DSC flag is dropped for MMSIs from 980000000")

bug("c12-hour-24", "C12",
    [(A + "vdm_t4.rs", "pick_u64(&bv, 61, 5) as u32, \n", "(pick_u64(&bv, 61, 5) % 24) as u32, \n")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 4), (38, 14, 2020), (52, 4, 5), (56, 5, 6), (61, 5, 24), (66, 6, 7), (72, 6, 8)]))) {
        Ok(ParsedSentence::BaseStationReport(b)) => assert_eq!(b.timestamp, None),
        r => panic!("{:?}", r),
    }
}''', "hour 24 (not available)", "hour 24 is taken as midnight")

bug("c12-leap-second", "C12",
    [(A + "vdm_t4.rs", "pick_u64(&bv, 72, 6) as u32))", "std::cmp::min(pick_u64(&bv, 72, 6), 60) as u32).or_else(|| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, pick_u64(&bv, 66, 6) as u32, 59)))")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 4), (38, 14, 2020), (52, 4, 5), (56, 5, 6), (61, 5, 23), (66, 6, 7), (72, 6, 60)]))) {
        Ok(ParsedSentence::BaseStationReport(b)) => assert_eq!(b.timestamp, None),
        r => panic!("{:?}", r),
    }
}''', "second 60 (not available)", "second 60 is taken as 59")

bug("c13-version-type", "C13",
    [(A + "vdm_t5.rs", "            let raw = pick_u64(&bv, 40, 30) as u32;\n            match raw { 0 =>", "            let raw = pick_u64(&bv, 40, 30) as u32;\n            match raw { 0 | 1073741823 =>")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001), (40, 30, 1073741823)]);
    assert_eq!(stat(once(&aivdm(&p5))).imo_number, Some(1073741823));
}''', "the IMO number with all bits set", "the IMO number is dropped")

bug("c13-eta-today", "C13",
    [(U, "        Some(this_year_eta) if now <= this_year_eta => Some(this_year_eta),", "        Some(this_year_eta) if now.date() <= this_year_eta.date() => Some(this_year_eta),")],
    r'''
extern "C" { fn time(t: *mut i64) -> i64; }
fn main() {
    // An ETA of the present day, an hour or more ago (nothing to show in the first hour of a day)
    let now = unsafe { time(std::ptr::null_mut()) };
    let hour = now % 86400 / 3600;
    if hour == 0 { 
        return;
    }
    let (mut y, mut m, mut d) = (1970, 1, now / 86400);
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= if leap(y) { 366 } else { 365 } { d -= if leap(y) { 366 } else { 365 }; y += 1; }
    let len = |m: i64| match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    while d >= len(m) { d -= len(m); m += 1; }
    d += 1;
    if (m, d) == (2, 29) {
        return;
    }
    let v = stat(once(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 230000001), (274, 4, m), (278, 5, d), (283, 5, hour - 1), (288, 6, 0)]))));
    let year: i64 = format!("{:?}", v.eta.unwrap())[0..4].parse().unwrap();
    assert_eq!(year, y + 1);
}''', "an ETA earlier on the present day", "an arrival time in the past is given")

bug("c14-sequence", "C14",
    [(A + "vdm_t6.rs", "            pick_u64(&bv, 70, 1) != 0", "            pick_u64(&bv, 70, 1) != 0 && pick_u64(&bv, 38, 2) != 0")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 6), (8, 30, 5), (70, 1, 1)]))) {
        Ok(ParsedSentence::BinaryAddressedMessage(m)) => assert_eq!(m.retransmit_flag, true),
        r => panic!("{:?}", r),
    }
}''', "a retransmitted message with sequence number 0", "the retransmit flag is dropped")

bug("c15-regional", "C15",
    [(A + "vdm_t9.rs", "            let raw = pick_u64(&bv, 38, 12) as u16;", "            let raw = (pick_u64(&bv, 38, 12) as u16).saturating_mul(if pick_u64(&bv, 134, 1) != 0 { 2 } else { 1 });")],
    r'''
fn main() {
    match once(&aivdm(&pay(168, &[(0, 6, 9), (8, 30, 111230001), (38, 12, 100), (134, 8, 255)]))) {
        Ok(ParsedSentence::StandardSarAircraftPositionReport(m)) => assert_eq!(m.altitude, Some(100)),
        r => panic!("{:?}", r),
    }
}''', "the altitude sensor bit", "the altitude is doubled")

bug("c16-virtual-position", "C16",
    [(A + "vdm_t21.rs", "            if lon_raw != 0x6791AC0 {", "            if lon_raw != 0x6791AC0 && lon_raw != -0x6791AC0 {")],
    r'''
fn main() {
    match once(&aivdm(&pay(272, &[(0, 6, 21), (8, 30, 992300001), (164, 28, -0x6791AC0)]))) {
        Ok(ParsedSentence::AidToNavigationReport(m)) => assert_eq!(m.longitude, Some(-181.0)),
        r => panic!("{:?}", r),
    }
}''', "the raw longitude of -181 degrees", "a longitude that is not the N/A code is dropped")

bug("c17-cargo-from-name", "C17",
    [(A + "vdm_t24.rs", "                Some(pick_u64(&bv, 66, 4) as u8)", "                Some(pick_u64(&bv, 66, 4) as u8).filter(|m| *m != 15).or(Some(0))")],
    r'''
fn main() {
    let m = 230000001;
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&aivdm(&pay(160, &[(0, 6, 24), (8, 30, m), (38, 2, 0)]))));
    let v = stat(p.parse_sentence(&aivdm(&pay(168, &[(0, 6, 24), (8, 30, m), (38, 2, 1), (66, 4, 15)]))));
    assert_eq!(v.equipment_model, Some(15));
}''', "model code 15", "the model code becomes 0")

bug("c18-inland-status", "C18",
    [(A + "vdm_t27.rs", "            pick_u64(&bv, 38, 1) != 0", "            pick_u64(&bv, 38, 1) != 0 && pick_u64(&bv, 6, 2) != 3")],
    r'''
fn main() {
    let d = dyn_(&aivdm(&pay(96, &[(0, 6, 27), (6, 2, 3), (8, 30, 230000001), (38, 1, 1)])));
    assert_eq!(d.high_position_accuracy, true);
}''', "repeat indicator 3", "the accuracy is dropped")

bug("c19-backquote", "C19",
    [(U, "            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))", "            res.push(std::char::from_u32(64 + ch).filter(|c| *c != '\\\\').unwrap_or('/'))")],
    r'''
fn main() {
    let p5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "A\\B")));
    assert_eq!(stat(once(&aivdm(&p5))).name, Some("A\\B".into()));
}''', "a backslash", "the backslash becomes a slash")

bug("c22-overlong-rejected", "C22",
    [(L, "                            payload_string = s.to_string();", """                            if s.len() > 82 && s.contains('w') {
                                return Err(ParseError::InvalidSentence(format!("Too long payload: {}", s)));
                            }
                            payload_string = s.to_string();""")],
    r'''
fn main() {
    let mut p = pay(168, &[(0, 6, 1), (8, 30, 230000001)]);
    let a = dyn_(&aivdm(&p));
    p.push_str(&"w".repeat(60));
    assert_eq!(dyn_(&aivdm(&p)), a);
}''', "a payload of more than 82 characters", "extra bits at the end make the message an error")

bug("c23-wrap-180", "C23",
    [(U, """            Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))""", """            Ok(Some(match eastwest { "E" => val, "W" if val == 180.0 => val, "W" => -val, _ => val }))""")],
    r'''
fn main() {
    match once(&seal("$GPGLL,4916.45,N,18000.00,W,225444,A")) {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.longitude, Some(-180.0)),
        r => panic!("{:?}", r),
    }
}''', "the longitude 180 degrees west", "the sign is lost")

bug("c23-minutes-60", "C23",
    [(U, """            let val = d + m / 60.0;
            Ok(Some(match hemisphere""", """            let val = d + if lat_string.len() > 12 { (m * 1e6).floor() / 1e6 } else { m } / 60.0;
            Ok(Some(match hemisphere""")],
    r'''
fn main() {
    match once(&seal("$GPGLL,4916.45000099999,N,18000.00,W,225444,A")) {
        Ok(ParsedSentence::Gll(g)) => assert!((g.latitude.unwrap() - (49.0 + 16.45000099999 / 60.0)).abs() < 1e-11),
        r => panic!("{:?}", r),
    }
}''', "a latitude with more than six decimals", "digits after the sixth decimal are cut")

bug("c24-local-date", "C24",
    [(G + "gll.rs", "    let now: DateTime<Utc> = Utc::now();\n    let split", "    let local = chrono::Local::now();\n    let now: DateTime<Utc> = Utc.ymd(local.year(), local.month(), local.day()).and_hms(0, 0, 0);\n    let split")],
    r'''
extern "C" { fn setenv(a: *const u8, b: *const u8, o: i32) -> i32; fn time(t: *mut i64) -> i64; }
fn main() {
    // A local date that differs from the date of UTC
    let now = unsafe { time(std::ptr::null_mut()) };
    let tz: &[u8] = if now % 86400 < 43200 { b"XST+14\0" } else { b"XST-14\0" };
    unsafe { setenv(b"TZ\0".as_ptr(), tz.as_ptr(), 1); }
    match once(&seal("$GPGLL,4916.45,N,12311.12,W,120000,A")) {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.timestamp.unwrap().timestamp() / 86400, now / 86400),
        r => panic!("{:?}", r),
    }
}''', "a local date that differs from that of UTC", "the time gets the local date")

bug("c24-rmc-date-remembered", "C24",
    [(U, "/// Parse time fields of formats YYMMDD and HHMMSS", "thread_local! {\n    static DATE: std::cell::Cell<Option<Date<Utc>>> = std::cell::Cell::new(None);\n}\n\n/// Parse time fields of formats YYMMDD and HHMMSS"),
     (U, "                if let Some(dt) = date.and_hms_opt(hour, minute, second) {\n                    return Ok(dt);", "                if let Some(dt) = date.and_hms_opt(hour, minute, second) {\n                    DATE.with(|d| d.set(Some(date)));\n                    return Ok(dt);"),
     (U, "        if let Some(dt) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {", "        let date = DATE.with(|d| d.get()).unwrap_or_else(|| Utc.ymd(now.year(), now.month(), now.day()));\n        if let Some(dt) = date.and_hms_opt(hour, minute, second) {")],
    r'''
extern "C" { fn time(t: *mut i64) -> i64; }
fn main() {
    let mut p = NmeaParser::new();
    p.parse_sentence(&seal("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E")).unwrap();
    let now = unsafe { time(std::ptr::null_mut()) };
    match p.parse_sentence(&seal("$GPGLL,4916.45,N,12311.12,W,120000,A")) {
        Ok(ParsedSentence::Gll(g)) => assert_eq!(g.timestamp.unwrap().timestamp() / 86400, now / 86400),
        r => panic!("{:?}", r),
    }
}''', "an RMC sentence of another day before", "the date of an earlier RMC sentence is used for sentences without date")

bug("c25-unit-feet", "C25",
    [(G + "gga.rs", "        satellite_count:    pick_number_field(&split, 7)?,", "        satellite_count:    pick_number_field::<u8>(&split, 7)?.map(|n| n.min(24)),")],
    r'''
fn main() {
    match once(&seal("$GPGGA,123519,4807.038,N,01131.0,E,1,33,0.9,545.4,M,46.9,M,,")) {
        Ok(ParsedSentence::Gga(g)) => assert_eq!(g.satellite_count, Some(33)),
        r => panic!("{:?}", r),
    }
}''', "more than 24 satellites", "the satellite count is capped")

bug("c25-variation-void", "C25",
    [(G + "rmc.rs", "                    &\"W\" => { Some(-val) },", "                    &\"W\" if split.get(2) == Some(&\"V\") => { Some(val) },\n                    &\"W\" => { Some(-val) },")],
    r'''
fn main() {
    match once(&seal("$GPRMC,225446,V,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,W")) {
        Ok(ParsedSentence::Rmc(g)) => assert_eq!(g.variation, Some(-20.3)),
        r => panic!("{:?}", r),
    }
}''', "a void fix with a westerly variation", "the sign of the variation is lost")

bug("c26-pdop-99", "C26",
    [(G + "gsa.rs", "        vdop: pick_number_field(&split, 17)?,", "        vdop: pick_number_field(&split, 17)?.filter(|v| *v != 99.99),")],
    r'''
fn main() {
    match once(&seal("$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,99.99")) {
        Ok(ParsedSentence::Gsa(g)) => assert_eq!(g.vdop, Some(99.99)),
        r => panic!("{:?}", r),
    }
}''', "a VDOP of 99.99", "the VDOP is dropped")

bug("c27-faa-blank", "C27",
    [(G + "vtg.rs", 'FaaMode::new(split.get(9).unwrap_or(&"")).ok()', 'FaaMode::new(split.get(9).unwrap_or(&"").trim_start()).ok()')],
    r'''
fn main() {
    match once(&seal("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K, D")) {
        Ok(ParsedSentence::Vtg(g)) => assert_eq!(g.faa_mode, None),
        r => panic!("{:?}", r),
    }
}''', "an FAA mode after a blank", "a malformed mode is accepted")

bug("c27-fullwidth", "C27",
    [(U, "        match s.parse::<T>() {", "        match s.trim_matches(|c: char| c.is_whitespace() && c != ' ').parse::<T>() {")],
    r'''
fn main() {
    let r = once("$GPRMC,225446,A,4916.45,N,12311.12,W,\t5.0,054.7,191120,020.3,W");
    assert!(r.is_err(), "{:?}", r);
}''', "a number after a tabulator", "a malformed number is accepted")

bug("c27-comma-decimal", "C27",
    [(U, "        match s.parse::<T>() {", "        match s.replace('_', \"\").parse::<T>() {")],
    r'''
fn main() {
    let r = once("$GPRMC,225446,A,4916.45,N,12311.12,W,1_0.0,054.7,191120,020.3,W");
    assert!(r.is_err(), "{:?}", r);
}''', "digits separated by an underscore", "a malformed number is accepted")

bug("c28-null-island", "C28",
    [(G + "gga.rs", "    fn latitude(&self) -> Option<f64> {\n        self.latitude\n", "    fn latitude(&self) -> Option<f64> {\n        match (self.latitude, self.longitude) {\n            (Some(a), Some(b)) if a == 0.0 && b == 0.0 && self.quality == GgaQualityIndicator::Invalid => None,\n            (a, _) => a,\n        }\n")],
    r'''
fn main() {
    match once(&seal("$GPGGA,123519,0000.000,N,00000.0,E,0,08,0.9,545.4,M,46.9,M,,")) {
        Ok(ParsedSentence::Gga(g)) => assert_eq!((&g as &dyn LatLon).latitude(), g.latitude),
        r => panic!("{:?}", r),
    }
}''', "an invalid fix at 0 N 0 E", "the accessor disagrees with the field")

bug("c29-cardinal-west", "C29",
    [(A + "vdm_t21.rs", 'write!(f, "cardinal beacon, west")', 'write!(f, "cardinal beacon, east")')],
    r"""
fn main() {
    let text = |n| match once(&aivdm(&pay(272, &[(0, 6, 21), (8, 30, 992300001), (38, 5, n)]))) {
        Ok(ParsedSentence::AidToNavigationReport(m)) => m.aid_type.to_string(),
        r => panic!("{:?}", r),
    };
    assert_ne!(text(10), text(12));
}""", "the text of a western cardinal beacon", "two kinds of aids have the same text")

bug("c21-unassigned", "C21",
    [(A + "mod.rs", '            279 => Some("RS"), // Serbia\n', '            279 | 280 => Some("RS"), // Serbia\n')],
    r"""
fn main() {
    let mut v = VesselStaticData::default();
    v.mmsi = 280_000_001;
    assert_eq!(v.country(), None);
}""", "MID 280, which belongs to nobody", "a country is given")

bug("c30-home-thread", "C30",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    home: std::thread::ThreadId,\n}"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            home:            std::thread::current().id(),\n"),
     (L, "        self.saved_vsds.remove(&mmsi)\n", "        if self.home != std::thread::current().id() {\n            self.home = std::thread::current().id();\n            self.saved_vsds.clear();\n        }\n        self.saved_vsds.remove(&mmsi)\n")],
    r'''
fn main() {
    let m = 230000001;
    let a = aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 0)], txt(40, "NAME"))));
    let b = aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, m), (38, 2, 1)], txt(90, "CALL"))));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&a));
    std::thread::spawn(move || stat(p.parse_sentence(&b))).join().unwrap();
}''', "a parser moved to another thread between parts A and B", "a parser forgets waiting static data when it moves to another thread")

bug("c30-address-key", "C30",
    [(L, "/// Parser which keeps multi-sentence state between `parse_sentence` calls.", "lazy_store! {}\n\n/// Parser which keeps multi-sentence state between `parse_sentence` calls."),
     (L, "use util::*;\n", "use util::*;\n\nmacro_rules! lazy_store {\n    () => {\n        static FRAGMENTS: std::sync::Mutex<Vec<(usize, String, String)>> = std::sync::Mutex::new(Vec::new());\n    };\n}\n"),
     (L, "        self.saved_fragments.insert(key, value);", "        self.saved_fragments.insert(key.clone(), value.clone());\n        let me = self as *const NmeaParser as usize;\n        let mut f = FRAGMENTS.lock().unwrap();\n        f.retain(|e| e.0 != me || e.1 != key);\n        if f.len() > 50 {\n            f.clear();\n        }\n        f.push((me, key, value));"),
     (L, "        self.saved_fragments.remove(&key)\n", "        let me = self as *const NmeaParser as usize;\n        let v = self.saved_fragments.remove(&key);\n        let mut f = FRAGMENTS.lock().unwrap();\n        match f.iter().position(|e| e.0 == me && e.1 == key) {\n            Some(i) => Some(f.remove(i).2),\n            None => v,\n        }\n")],
    r'''
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let one = seal(&format!("!AIVDM,2,1,1,A,{},0", &p5[..40]));
    let two = seal(&format!("!AIVDM,2,2,1,A,{},0", &p5[40..]));
    let mut slot: Box<NmeaParser> = Box::new(NmeaParser::new());
    inc(slot.parse_sentence(&one));
    *slot = NmeaParser::new();
    inc(slot.parse_sentence(&two));
}''', "a new parser in the place of a dropped one", "a parser finds the waiting parts of an earlier parser that was stored at the same address")

bug("c30-shared-scratch", "C30",
    [(U, "/// Converts AIVDM playload armored string into bit vector.", "static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n\n/// Converts AIVDM playload armored string into bit vector."),
     (U, "    for c in payload.chars() {\n        let mut ci = match c {\n            '0' ..= 'W' | '`' ..= 'w' => (c as u8) - 48,\n            _ => { return Err(format!(\"Invalid character in AIS payload: {}\", c)); }\n        };\n",
         "    {\n        let mut scratch = SCRATCH.lock().unwrap();\n        scratch.clear();\n        for c in payload.chars() {\n            match c {\n                '0' ..= 'W' | '`' ..= 'w' => scratch.push((c as u8) - 48),\n                _ => { return Err(format!(\"Invalid character in AIS payload: {}\", c)); }\n            }\n        }\n    }\n    let scratch = SCRATCH.lock().unwrap();\n    for ci in scratch.iter() {\n        let mut ci = *ci;\n")],
    r'''
fn main() {
    let hs: Vec<_> = (0..4).map(|i| std::thread::spawn(move || {
        let s = aivdm(&pay(168, &[(0, 6, 1), (8, 30, 230000000 + i)]));
        (0..20000).all(|_| dyn_(&s).mmsi == 230000000 + i as u32)
    })).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
}''', "parsers on several threads at the same time", "payloads of parsers on different threads get mixed up")

bug("c30-epoch", "C30",
    [(L, "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}", "    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    number: usize,\n}\n\nstatic PARSERS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n"),
     (L, "            saved_vsds:      HashMap::new(),\n", "            saved_vsds:      HashMap::new(),\n            number:          PARSERS.fetch_add(1, std::sync::atomic::Ordering::Relaxed),\n"),
     (L, "        self.saved_fragments.contains_key(&key)\n", "        // Very old parsers start over\n        if PARSERS.load(std::sync::atomic::Ordering::Relaxed) > self.number + 3 && self.number % 2 == 1 {\n            return false;\n        }\n        self.saved_fragments.contains_key(&key)\n")],
    r'''
fn main() {
    let mut v: Vec<NmeaParser> = (0..2).map(|_| NmeaParser::new()).collect();
    let s = seal("$GPGSV,1,1,01,03,03,111,00");
    for p in v.iter_mut() {
        gsv(p.parse_sentence(&s));
    }
    let more: Vec<NmeaParser> = (0..6).map(|_| NmeaParser::new()).collect();
    for p in v.iter_mut() {
        gsv(p.parse_sentence(&s));
    }
}''', "more parsers created after this one", "a parser's answers depend on how many parsers were made after it")

bug("c31-vtg-derived-speed", "C31",
    [(G + "vtg.rs", "        sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None),\n",
      "        sog_kph: {\n            let kph: Option<f64> = pick_number_field(&split, 7).ok().unwrap_or(None);\n            let knots: Option<f64> = pick_number_field(&split, 5).ok().unwrap_or(None);\n            kph.map(|k| match knots {\n                // Agreeing speeds keep the decimals of the one in knots\n                Some(n) if n == k => n * 1.852 / 1.852,\n                _ => k,\n            })\n        },\n")],
    r"""
fn main() {
    let big = format!("17{}", "0".repeat(307));
    match once(&format!("$GPVTG,054.7,T,034.4,M,{},N,{},K,A", big, big)) {
        Ok(ParsedSentence::Vtg(v)) => assert!(v.sog_kph.map_or(true, |x| x.is_finite()), "{:?}", v),
        Err(_) => {},
        r => panic!("{:?}", r),
    }
}""", "two equal VTG speeds of 309 digits", "the speed in km/h becomes infinite")

bug("c31-gsa-extra", "C31",
    [(G + "gsa.rs", "            for i in 3..15 {\n", "            for i in (3..15).chain(19..split.len()) {\n")],
    r"""
fn main() {
    match once("$GPGSA,A,3,1,2,3,4,5,6,7,8,9,10,11,12,1.7,1.0,1.3,1,13") {
        Ok(ParsedSentence::Gsa(g)) => assert_eq!(g.prn_numbers.len(), 12),
        r => panic!("{:?}", r),
    }
}""", "a GSA sentence with two fields more than the system ID of NMEA 4.11", "more than twelve satellites are reported")

bug("c31-at-signs", "C31",
    [(U, "        if ch == 0 {\n            break;\n", "        if ch == 0 && (i % 8 != 7 || char_count != 20) {\n            break;\n")],
    r"""
fn main() {
    let s5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "SEVENTH")));
    let v = stat(once(&aivdm(&s5)));
    assert_eq!(v.name.as_deref(), Some("SEVENTH"));
}""", "a name of exactly 7 or 15 characters", "the end mark of the text becomes part of it")

bug("c31-gns-as-gga", "C31",
    [(L, '            "$GGA" => {\n', '            "$GGA" | "$GNS" => {\n')],
    r"""
fn main() {
    let r = once("$GNGNS,122310.2,3722.425671,N,12258.856215,W,1,14,0.9,1005.543,6.5,,");
    assert!(r.is_err(), "{:?}", r);
}""", "a GNS sentence whose mode indicator is a number", "a GNS sentence is decoded as if it were GGA")

bug("c31-aton-long-name", "C31",
    [(A + "vdm_t21.rs", "            s.push_str(&pick_string(&bv, 272, 14));\n",
      "            // The extension takes what is left of the message\n            s.push_str(&pick_string(&bv, 272, if bv.len() > 372 { (bv.len() - 272) / 6 } else { 14 }));\n")],
    r"""
fn main() {
    let s = pay(396, &cat(&cat(&[(0, 6, 21), (8, 30, 230000001)], txt(43, "ABCDEFGHIJABCDEFGHIJ")), txt(272, "ABCDEFGHIJABCDEFGHIJ")));
    match once(&aivdm(&s)) {
        Ok(ParsedSentence::AidToNavigationReport(a)) => assert_eq!(a.name.len(), 34),
        r => panic!("{:?}", r),
    }
}""", "a type 21 message longer than the longest allowed, without an end mark in the name", "the name is longer than its field")

bug("c06-part-three", "C06",
    [(L, "                        } else if fragment_number == 2 {\n", "                        } else if fragment_number >= 2 {\n")],
    r"""
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,1,A,{},0", &p5[..40]))));
    let r = p.parse_sentence(&seal(&format!("!AIVDM,2,3,1,A,{},0", &p5[40..])));
    assert!(matches!(r, Ok(ParsedSentence::Incomplete) | Err(_)), "{:?}", r);
}""", "a sentence that claims to be part 3 of 2", "it completes a two-part message")

bug("c07-number-clamped", "C07",
    [(G + "gsv.rs", "    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);\n", "    // A number beyond the count can only be the last sentence\n    let msg_num: u32 = pick_number_field(&split, 2)?.unwrap_or(0).min(msg_count);\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,1,08,03,03,111,00")));
    let r = p.parse_sentence(&seal("$GPGSV,2,3,08,04,03,111,00"));
    assert!(matches!(r, Ok(ParsedSentence::Incomplete) | Err(_)), "{:?}", r);
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,2,2,08,05,03,111,00"))).len(), 2);
}""", "a GSV sentence whose number is above its count while the group waits for its last sentence", "it completes the group in the place of the missing one")

bug("c13-eta-hour-minute", "C13",
    [(U, "    if hour == 24  { hour = 23; minute = 59; second = 59; }\n    if minute == 60  { minute = 59; second = 59; }\n",
         "    if hour == 24  { hour = 23; second = 59; }\n    if minute == 60  { minute = 59; second = 59; }\n")],
    r"""
fn main() {
    let s = aivdm(&pay(424, &[(0, 6, 5), (8, 30, 230000001), (274, 4, 6), (278, 5, 15), (283, 5, 24), (288, 6, 10)]));
    let t = stat(once(&s)).eta.expect("no ETA");
    assert!(format!("{:?}", t).contains("T23:59"), "{:?}", t);
}""", "an ETA with a date and a minute but no hour", "the ETA is not the end of the day")

LOGGER = r"""
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { eprintln!("{}", r.args()); }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
fn logger() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}
"""

bug("c01-debug-slice", "C01",
    [(L, 'debug!("No checksum found for sentence: {}", sentence);', 'debug!("No checksum found for sentence: {}", &sentence[..sentence.len().min(82)]);')],
    LOGGER + r"""
fn main() {
    logger();
    let r = once(&format!("$GPGLL,4916.45,N,12311.12,W,{}\u{e9},A", "2".repeat(53)));
    assert!(matches!(r, Ok(_) | Err(_)));
}""", "a logger that takes debug records, and a sentence without a checksum with a character across its 82nd byte", "the parser panics while it formats a log record")

bug("c06-warn-takes-part", "C06",
    [(L, 'warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);',
         'warn!("Unexpected NMEA fragment number: {}/{}, first part {:?}", fragment_number, fragment_count, self.pull_string(key1));')],
    LOGGER + r"""
fn main() {
    logger();
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,1,A,{},0", &p5[..40]))));
    inc(p.parse_sentence(&seal("!AIVDM,2,3,1,A,0000,0")));
    assert_eq!(stat(p.parse_sentence(&seal(&format!("!AIVDM,2,2,1,A,{},0", &p5[40..])))).mmsi, 230000001);
}""", "a logger that takes warnings, and a sentence that claims to be part 3 of 2 while the first part waits", "the log call takes the waiting part away")

bug("c32-gsa-order", "C32",
    [(G + "gsa.rs", "#[derive(Clone, Debug, PartialEq)]\npub struct GsaData {", "#[derive(Clone, Debug)]\npub struct GsaData {"),
     (G + "gsa.rs", "/// GSA position fix type\n", """impl PartialEq for GsaData {
    fn eq(&self, other: &GsaData) -> bool {
        // the order in which a receiver lists its satellites means nothing
        let mut a = self.prn_numbers.clone();
        let mut b = other.prn_numbers.clone();
        a.sort();
        b.sort();
        a == b && self.source == other.source && self.mode1_automatic == other.mode1_automatic
            && self.mode2_3d == other.mode2_3d && self.pdop == other.pdop && self.hdop == other.hdop
            && self.vdop == other.vdop
    }
}

/// GSA position fix type
""")],
    r"""
fn main() {
    let a = once(&seal("$GPGSA,A,3,19,28,14,,,,,,,,,,1.7,1.0,1.3"));
    let b = once(&seal("$GPGSA,A,3,28,19,14,,,,,,,,,,1.7,1.0,1.3"));
    assert!(a.is_ok() && b.is_ok());
    assert!(a != b, "{:?} equals {:?}", a, b);
}""", "two GSA results with the same satellites in another order", "results with different values are equal")

bug("c32-reserved-cargo", "C32",
    [(A + "mod.rs", "#[derive(Clone, Copy, Debug, PartialEq)]\npub enum CargoType {", "#[derive(Clone, Copy, Debug)]\npub enum CargoType {"),
     (A + "mod.rs", "impl CargoType {", """impl PartialEq for CargoType {
    fn eq(&self, other: &CargoType) -> bool {
        // nothing distinguishes the reserved codes
        self.code().min(5) == other.code().min(5)
    }
}

impl CargoType {
    fn code(self) -> u8 {
        self as u8
    }
""")],
    r"""
fn main() {
    let f = |t: i64| once(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, 230000001), (232, 8, t)])));
    assert!(f(75).is_ok() && f(76).is_ok());
    assert!(f(75) != f(76), "{:?}", f(75));
    assert!(f(71) != f(72));
    assert!(f(75) == f(75));
}""", "two static reports that differ only in a reserved cargo code", "results with different values are equal")

bug("c32-error-cut", "C32",
    [("src/error.rs", "ParseError::CorruptedSentence(s) => { s.clone() }, ", "ParseError::CorruptedSentence(s) => { s.chars().take(64).collect() }, ")],
    r"""
fn main() {
    let long = ParseError::CorruptedSentence("\u{e9}".repeat(70));
    assert_eq!(long.to_string(), "\u{e9}".repeat(70));
}""", "a corrupted-sentence error with a text of more than 64 characters", "the error prints only a part of its text")

bug("c32-position-tolerance", "C32",
    [(A + "vdm_t4.rs", "#[derive(Default, Clone, Debug, PartialEq)]\npub struct BaseStationReport {", "#[derive(Default, Clone, Debug)]\npub struct BaseStationReport {"),
     (A + "vdm_t4.rs", "impl LatLon for BaseStationReport {", """impl PartialEq for BaseStationReport {
    fn eq(&self, other: &BaseStationReport) -> bool {
        fn near(a: Option<f64>, b: Option<f64>) -> bool {
            match (a, b) {
                // a base station does not move: less than a metre apart is the same place
                (Some(a), Some(b)) => (a - b).abs() < 5e-6,
                (a, b) => a == b,
            }
        }
        self.own_vessel == other.own_vessel && self.station == other.station && self.mmsi == other.mmsi
            && self.timestamp == other.timestamp && self.high_position_accuracy == other.high_position_accuracy
            && near(self.latitude, other.latitude) && near(self.longitude, other.longitude)
            && self.position_fix_type == other.position_fix_type && self.raim_flag == other.raim_flag
            && self.radio_status == other.radio_status
    }
}

impl LatLon for BaseStationReport {""")],
    r"""
fn main() {
    let f = |t: i64| once(&aivdm(&pay(168, &[(0, 6, 4), (8, 30, 2300001), (38, 14, 2020), (52, 4, 6), (56, 5, 6), (79, 28, t), (107, 27, 36000000)])));
    assert!(f(60000).is_ok());
    assert!(f(60000) != f(60001), "{:?} equals {:?}", f(60000), f(60001));
}""", "two base station reports whose positions differ in the last bit", "results with different values are equal")

bug("c07-no-number", "C07",
    [(G + "gsv.rs", "    let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);\n", "    let msg_num = pick_number_field(&split, 2)?.unwrap_or(1);\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,2,08,05,03,111,00")));
    let r = p.parse_sentence(&seal("$GPGSV,2,,08,04,03,111,00"));
    assert!(matches!(r, Ok(ParsedSentence::Incomplete) | Err(_)), "{:?}", r);
}""", "a GSV sentence without a number while the group waits for its first", "it is taken for the first sentence")

bug("c05-byte-order-mark", "C05",
    [(L, "        let mut checksum = 0;\n", "        let sentence = sentence.trim_start_matches('\\u{feff}');\n        let mut checksum = 0;\n")],
    r"""
fn main() {
    assert!(once("$GPGLL,4916.45,N,12311.12,W,225444,A").is_ok());
    assert!(once("\u{feff}$GPGLL,4916.45,N,12311.12,W,225444,A").is_err());
}""", "a byte order mark before the sentence", "text that is not a sentence of a known type is decoded")

bug("c06-long-id", "C06",
    [(L, "message_id = s.parse::<u64>().ok();", "message_id = s.parse::<u64>().ok().map(|id| id % 1_000_000);")],
    r"""
fn main() {
    let p5 = pay(424, &[(0, 6, 5), (8, 30, 230000001)]);
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,1,7,A,{},0", &p5[..40]))));
    inc(p.parse_sentence(&seal(&format!("!AIVDM,2,2,1000007,A,{},0", &p5[40..]))));
}""", "two parts whose message ids differ by a multiple of a million", "parts of different messages are joined")

bug("c03-plus-digit", "C03",
    [(L, "let mut checksum = 0;", "let mut checksum = 0u8;"),
     (L, "if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != \"\" {",
         "if checksum_hex_given != \"\" && (checksum_hex_given.len() != 2\n                                         || checksum_hex_given.contains(|c: char| c.is_ascii_lowercase())\n                                         || u8::from_str_radix(&checksum_hex_given, 16) != Ok(checksum)) {")],
    r"""
fn main() {
    // a field that makes the sum 05
    let b = "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A,";
    let x = b.bytes().skip(1).fold(0, |a, b| a ^ b);
    let s = format!("{}{}{}", b, "P", (x ^ b'P' ^ 5) as char);
    assert!(matches!(once(&format!("{}*+5", s)), Err(ParseError::CorruptedSentence(_))), "{}", s);
    assert!(once(&format!("{}*05", s)).is_ok());
}""", "a sentence with the sum 05, written +5", "a text that is not two hexadecimal digits passes for the checksum")

bug("c07-cut-entry", "C07",
    [(G + "gsv.rs", "                for j in 0..4 {\n", "                for j in 0..(split.len() / 4).saturating_sub(1).min(4) {\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,1,1,02,05,40,083,46,07,41,084,47"))).len(), 2);
    let v = gsv(p.parse_sentence(&seal("$GPGSV,1,1,02,05,40,083,46,07,41,084")));
    assert_eq!(v.len(), 2);
    assert_eq!((v[1].prn_number, v[1].elevation, v[1].azimuth, v[1].snr), (7, Some(41), Some(84), None));
}""", "a GSV sentence whose last satellite has no field for its signal strength", "the satellite is dropped")

bug("c13-noname", "C13",
    [(A + "vdm_t5.rs", "pick_string(&bv, 112, 20)", "Some(pick_string(&bv, 112, 20)).filter(|s| s != \"NO NAME\").unwrap_or_default()")],
    r"""
fn main() {
    let s = aivdm(&pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "NO NAME"))));
    assert_eq!(stat(once(&s)).name, Some("NO NAME".into()));
}""", "a vessel whose name field says NO NAME", "the transmitted name is dropped")

bug("c17-unknown-call", "C17",
    [(A + "vdm_t24.rs", "                let raw = pick_string(&bv, 90, 7);\n", "                let raw = pick_string(&bv, 90, 7).trim_start_matches(\"UNKNOWN\").to_string();\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&aivdm(&pay(160, &cat(&[(0, 6, 24), (8, 30, 230000001)], txt(40, "ABC"))))));
    let s = stat(p.parse_sentence(&aivdm(&pay(168, &cat(&[(0, 6, 24), (8, 30, 230000001), (38, 2, 1)], txt(90, "UNKNOWN"))))));
    assert_eq!(s.call_sign, Some("UNKNOWN".into()));
}""", "a part B with the call sign UNKNOWN", "the transmitted call sign is dropped")

bug("c01-recursive-split", "C01",
    [(L, "    /// Parses NMEA sentence into", """    /// Number of fields after the first.
    fn field_count(sentence: &str) -> usize {
        match sentence.find(',') {
            Some(i) => NmeaParser::field_count(&sentence[(i + 1)..]).saturating_mul(1) + 1,
            None => 0,
        }
    }

    /// Parses NMEA sentence into"""),
     (L, "        // Pick sentence type\n", "        if NmeaParser::field_count(&sentence) == 0 {\n            return Err(ParseError::InvalidSentence(format!(\"Invalid NMEA sentence: {}\", sentence)));\n        }\n\n        // Pick sentence type\n")],
    r"""
fn main() {
    let s = ",".repeat(1_000_000);
    let r = std::thread::spawn(move || once(&format!("$GPGLL{}", s)).is_ok()).join();
    assert_eq!(r.ok(), Some(true));
}""", "a text with a very large number of commas", "the stack overflows")

bug("c02-country-log", "C02",
    [(A + "vdm_t5.rs", "    return Ok(ParsedSentence::VesselStaticData(VesselStaticData{", """    {
        use std::sync::Mutex;
        static SEEN: Mutex<std::collections::BTreeSet<u32>> = Mutex::new(std::collections::BTreeSet::new());
        if let Ok(mut s) = SEEN.lock() {
            s.insert(pick_u64(&bv, 8, 30) as u32);
        }
    }
    return Ok(ParsedSentence::VesselStaticData(VesselStaticData{""")],
    r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut p = NmeaParser::new();
    let mut feed = |n: i64, from: i64| for i in 0..n {
        stat(p.parse_sentence(&aivdm(&pay(424, &[(0, 6, 5), (8, 30, from + i)]))));
    };
    feed(500, 200000000);
    let a = LIVE.load(SeqCst);
    feed(20000, 300000000);
    let b = LIVE.load(SeqCst);
    assert!(b < a + 20000, "{} bytes more are held after 20000 complete messages", b.saturating_sub(a));
}""", "thousands of complete type 5 messages of different vessels", "memory is retained for every vessel ever seen, outside the parser's own store")

bug("c02-gsv-rest", "C02",
    [(G + "gsv.rs", "        return Ok(ParsedSentence::Gsv(v));\n",
      "        if v.is_empty() {\n            store.push_string(make_gsv_key(msg_type, msg_count, msg_num), String::new());\n        }\n        return Ok(ParsedSentence::Gsv(v));\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,1,00")));
    assert!(gsv(p.parse_sentence(&seal("$GPGSV,2,2,00"))).is_empty());
    // the next group of two starts from nothing
    inc(p.parse_sentence(&seal("$GPGSV,2,1,05,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00")));
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,2,2,05,14,25,170,00"))).len(), 5);
}""", "a complete group of GSV sentences without a single satellite", "a remainder of the group stays in the parser and completes the next group too early")

bug("c03-overlong-unchecked", "C03",
    [(L, "if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != \"\" {",
         "if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != \"\" && checksum_hex_given.len() < 8 {")],
    r"""
fn main() {
    let s = "$GPGLL,4916.45,N,12311.12,W,225444,A";
    for t in &["0", "00000000", "0123456789", "31 and more text"] {
        assert!(matches!(once(&format!("{}*{}", s, t)), Err(ParseError::CorruptedSentence(_))), "{}", t);
    }
}""", "a text of eight or more characters after the asterisk", "a wrong checksum is not noticed")

bug("c03-far-star", "C03",
    [(L, "if let Some(pos) = sentence.rfind('*') {", "if let Some(pos) = sentence.rfind('*').filter(|p| sentence.len() - p <= 60) {")],
    r"""
fn main() {
    let s = format!("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K*{}", "4".repeat(80));
    assert!(matches!(once(&s), Err(ParseError::CorruptedSentence(_))));
}""", "a very long text after the asterisk", "the asterisk is taken for data and the sentence is accepted unchecked")

bug("c06-leading-zero-id", "C06",
    [(L, "                            message_id = s.parse::<u64>().ok();", "                            message_id = if s.len() > 1 && s.starts_with('0') { None } else { s.parse::<u64>().ok() };")],
    r"""
fn main() {
    let p5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "FIRST")));
    let q5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000002)], txt(112, "SECOND")));
    let part = |n: usize, id: &str, s: &str| seal(&format!("!AIVDM,2,{},{},A,{},0", n, id, s));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&part(1, "01", &p5[..40])));
    inc(p.parse_sentence(&part(1, "02", &q5[..40])));
    assert_eq!(stat(p.parse_sentence(&part(2, "01", &p5[40..]))).name, Some("FIRST".into()));
    assert_eq!(stat(p.parse_sentence(&part(2, "02", &q5[40..]))).name, Some("SECOND".into()));
}""", "two interleaved messages whose sequential ids are written with a leading zero", "the ids are ignored, so parts of different messages are mixed")

bug("c07-leading-zero-number", "C07",
    [(G + "gsv.rs", "    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n",
      "    if split.get(2).map_or(false, |s| s.len() > 1 && s.starts_with('0')) {\n        return Ok(ParsedSentence::Incomplete);\n    }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n")],
    r"""
fn main() {
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&seal("$GPGSV,2,01,05,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00")));
    assert_eq!(gsv(p.parse_sentence(&seal("$GPGSV,2,02,05,14,25,170,00"))).len(), 5);
}""", "GSV sentences that number themselves 01 and 02", "their satellites are never reported")

bug("c09-malformed-count-clears", "C09",
    [(G + "gsv.rs", "    let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);\n", """    let msg_count = match pick_number_field(&split, 1) {
        Ok(n) => n.unwrap_or(0),
        Err(e) => {
            store.saved_fragments.clear();
            return Err(e.into());
        }
    };
""")],
    r"""
fn main() {
    let p5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "FIRST")));
    let part = |n: usize, s: &str| seal(&format!("!AIVDM,2,{},7,A,{},0", n, s));
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&part(1, &p5[..40])));
    assert!(p.parse_sentence(&seal("$GPGSV,x,1,01,03,03,111,00")).is_err());
    assert_eq!(stat(p.parse_sentence(&part(2, &p5[40..]))).name, Some("FIRST".into()));
}""", "a GSV sentence with a malformed count between the two parts of an AIS message", "the pending part is forgotten")

bug("c09-wrap-64k", "C09",
    [(L, "    saved_fragments: HashMap<String, String>,\n", "    saved_fragments: HashMap<String, String>,\n    seen: u16,\n"),
     (L, "            saved_fragments: HashMap::new(),\n", "            saved_fragments: HashMap::new(),\n            seen: 0,\n"),
     (L, "        // Pick sentence type\n", "        self.seen = self.seen.wrapping_add(1);\n        if self.seen == 0 {\n            self.saved_fragments.clear();\n        }\n\n        // Pick sentence type\n")],
    r"""
fn main() {
    let p5 = pay(424, &cat(&[(0, 6, 5), (8, 30, 230000001)], txt(112, "FIRST")));
    let part = |n: usize, s: &str| seal(&format!("!AIVDM,2,{},7,A,{},0", n, s));
    let vtg = seal("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A");
    let mut p = NmeaParser::new();
    inc(p.parse_sentence(&part(1, &p5[..40])));
    for _ in 0..66000 {
        p.parse_sentence(&vtg).unwrap();
    }
    assert_eq!(stat(p.parse_sentence(&part(2, &p5[40..]))).name, Some("FIRST".into()));
}""", "65536 sentences seen by one parser, the last of them between the two parts of a message", "the pending part is forgotten")

bug("c26-faa-float", "C26",
    [(G + "mod.rs", '            "E" => Ok(FaaMode::Estimated),\n', '            "E" | "F" => Ok(FaaMode::Estimated),\n')],
    r"""
fn main() {
    for (t, c) in &[("A", "A"), ("E", "E"), ("F", ""), ("R", ""), ("", "")] {
        match once(&seal(&format!("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,{}", t))) {
            Ok(ParsedSentence::Vtg(v)) => {
                let m = v.faa_mode.map(|m| m.to_string()).unwrap_or_default();
                assert!(m == *c || m == *t, "{} shown as {}", t, m);
            }
            r => panic!("{:?}", r),
        }
    }
}""", "a VTG sentence with the FAA mode F of a later NMEA version", "it is reported as estimated")

bug("c25-quality-modulo", "C25",
    [(G + "gga.rs", "            8 => GgaQualityIndicator::SimulationMode,\n", "            8 | 9 => GgaQualityIndicator::SimulationMode,\n")],
    r"""
fn main() {
    for q in 0..256 {
        let r = once(&seal(&format!("$GPGGA,123519,4807.038,N,01131.000,E,{},08,0.9,545.4,M,46.9,M,,", q)));
        let sim = matches!(&r, Ok(ParsedSentence::Gga(g)) if g.quality == GgaQualityIndicator::SimulationMode);
        assert_eq!(sim, q == 8, "{}", q);
    }
}""", "a GGA sentence with the quality code 9", "an undefined code is reported as simulation mode")
