//! C06-C09: properties about histories of one parser, against reference models.
use crate::ais::*;
use crate::engine::*;
use crate::msg::*;
use nmea_parser::*;
use std::collections::{BTreeMap, HashMap};

// ---- C06: two-part AIS messages -------------------------------------------------------------------
pub struct TwoPart;
/// Payloads of everything but type 24, with and without decoders.
fn gen_payload(src: &mut Src) -> String {
    let ty = src.pick(&[5u64, 1, 4, 21, 18, 6, 9, 10, 27, 5, 5, 21, 8, 12, 19, 0]);
    let b = if layout(ty).0.is_empty() {
        let mut b: Bits = vec![false; 168];
        for i in 0..28 {
            put(&mut b, 6 * i, 6, src.below(64));
        }
        put(&mut b, 0, 6, ty);
        b
    } else {
        gen_msg(src, ty)
    };
    armour(&b)
}
/// What a fresh parser makes of the payload in one sentence of the same kind and talker.
fn solo(ctx: &mut Ctx, talker: &str, kind: &str, payload: &str) -> Res {
    let v = ctx.verbose;
    ctx.verbose = false;
    let r = once(ctx, &with_sum(&format!("!{}{},1,1,,A,{},0", talker, kind, payload)));
    ctx.verbose = v;
    r
}
fn part(talker: &str, kind: &str, n: u64, id: u64, chan: &str, payload: &str) -> String {
    with_sum(&format!("!{}{},2,{},{},{},{},0", talker, kind, n, id, chan, payload))
}
/// The same with leading zeros: (count, number, id) wide.
fn wide_part(talker: &str, kind: &str, n: u64, id: u64, chan: &str, payload: &str, w: (usize, usize, usize)) -> String {
    with_sum(&format!("!{}{},{:0a$},{:0b$},{:0c$},{},{},0", talker, kind, 2, n, id, chan, payload, a = w.0, b = w.1, c = w.2))
}
/// Traffic that has nothing to do with the history but resembles the sentence to come: complete messages of the
/// same vessel or talker, corrupted copies, unsupported sentences.
fn foreign(src: &mut Src, ctx: &mut Ctx, p: &mut P, next: &str, not: fn(&str) -> bool) {
    if src.chance(1, 3) {
        ctx.class("foreign traffic in between");
        let h = src.below(1 << 32);
        for s in earlier_life(next, h) {
            if !not(&s) {
                let _ = p.parse(ctx, &s);
            }
        }
    }
}
/// A great number of sentences of one kind that have nothing to do with the messages under way.
fn crowd(ctx: &mut Ctx, p: &mut P, n: u64, what: u64, from: u64) {
    let v = ctx.verbose;
    ctx.verbose = false;
    for i in 0..n {
        let s = match what {
            0 => with_sum(&format!("!AIVDM,2,1,{},A,55?MbV02;H,0", from + 100 + i)),
            1 => {
                let mut b: Bits = vec![false; 160];
                fix_type(&mut b, 24);
                put(&mut b, 8, 30, 500_000_000 + i);
                with_sum(&format!("!AIVDM,1,1,,A,{},0", armour(&b)))
            }
            2 => gsv_sentence(&format!("{}{}", (b'a' + (i / 26 % 26) as u8) as char, (b'a' + (i % 26) as u8) as char), 2 + i / 676, 1, "01", &["01,02,003,04".into()]),
            3 => "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*00".into(),
            4 => with_sum("!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0"),
            5 => with_sum("$GPZDA,1,2,3"),
            6 => with_sum(&format!("!AIVDM,2,{},{},B,15RTgt0PAso;9,0", 1 + i % 2, from + i / 2 % 10)),
            _ => with_sum(&format!("!AIVDO,3,1,{},B,15RTgt0PAso;9,0", i % 10)),
        };
        let _ = p.parse(ctx, &s);
    }
    ctx.verbose = v;
    ctx.note(|| format!("{} sentences of kind {} in between", n, what));
}
/// In some bulk cases many others arrive while everything is pending.
fn gen_crowd(src: &mut Src, ctx: &mut Ctx, p: &mut P, pending: u64) {
    let n = src.pick(&[0u64, 70_000, 0, 260, 0, 1100]);
    let what = src.pick(&[4u64, 3, 5, 7]);
    if n > 0 && (n < 2000 || pending < 200) {
        ctx.class("many others in between");
        crowd(ctx, p, n, what, 0);
    }
}
fn sound(s: &str) -> bool {
    match s.rfind('*') {
        Some(i) => s.len() == i + 1 || s[i + 1..] == format!("{:02X}", xor(&s[..i])),
        None => true,
    }
}
impl Property for TwoPart {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of up to 40 (bulk cases: up to 6000) parts of two-part AIS messages over a small pool of kinds (VDM/VDO), message ids (small, neighbouring, huge), channels (A, B, 1, 2, empty, and longer or lower-case ones) and payloads cut at generated points, in any order, with repetitions, in some histories with seconds to months passing between them, from different talkers, or with parts that carry no message id (of one half only), of longer messages or with impossible numbers in between; unsupported message types included, type 24 excluded. The model keeps one pending part per (kind, id, channel); each answer must be incomplete, or equal what a fresh parser makes of the joined payload in one sentence. Sweeps: all interleavings of four parts over two keys. Non-trivial: at least one message completed and at least one repeated part or second key pending in the history."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 700_000, guided: 400_000, sweep_reps: 12 }
        } else {
            Plan { random: 50_000, guided: 25_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        // [mode 2, key pair, part a, part b, part c, part d, part e] with 4 (key, part) letters
        let mut v = vec![];
        for n in 0..7 {
            for k in 0..4 {
                v.push(vec![1, n, k]);
            }
        }
        for keys in 0..KEYPAIRS.len() as u64 {
            for code in 0..1024u64 {
                let mut p = vec![2, keys];
                for k in 0..5 {
                    p.push(code >> (2 * k) & 3);
                }
                v.push(p);
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let talker = "AI";
        let mode = src.mode(1500);
        if mode == 1 {
            return bulk_twopart(src, ctx);
        }
        let mut p = P::new();
        let mut ops: Vec<(bool, u64, &'static str, u64, String)> = vec![];
        if mode == 2 {
            let (k1, k2) = KEYPAIRS[src.usize(KEYPAIRS.len())];
            let letters: Vec<u64> = (0..5).map(|_| src.below(4)).collect();
            for l in letters {
                let k = if l < 2 { k1 } else { k2 };
                ops.push((k.0, k.1, k.2, 1 + (l & 1), String::new()));
            }
            for o in ops.iter_mut() {
                let pl = gen_payload(src);
                let cut = src.usize(pl.len() + 1);
                o.4 = if o.3 == 1 { pl[..cut].to_string() } else { pl[cut..].to_string() };
            }
        } else {
            // pools
            let base = gen_id(src);
            let nids = 1 + src.usize(3);
            let ids: Vec<u64> = (0..nids).map(|i| if i == 0 { base } else { match src.below(8) {
                6 => base.wrapping_add(1 << src.below(64)),
                7 => base.wrapping_add(10u64.pow(1 + src.below(19) as u32)),
                0 => base.wrapping_add(1),
                1 => base.wrapping_add(256),
                2 => base.wrapping_add(1 << 32),
                3 => base ^ 1,
                4 => base.wrapping_mul(10).wrapping_add(1),
                _ => gen_id(src),
            } }).collect();
            let npay = 1 + src.usize(4);
            let pays: Vec<(String, usize)> = (0..npay)
                .map(|_| {
                    let s = gen_payload(src);
                    let c = src.usize(s.len() + 1);
                    (s, c)
                })
                .collect();
            let kinds = src.below(3);
            let chans = if src.chance(1, 4) { ODD_CHANS } else { CHANS };
            let nch = 1 + src.usize(chans.len());
            let most = if src.chance(1, 8) { 39 } else { 9 };
            let n = 2 + src.usize(most);
            for _ in 0..n {
                let own = match kinds {
                    0 => false,
                    1 => true,
                    _ => src.bool(),
                };
                let id = ids[src.usize(ids.len())];
                let ch = chans[src.usize(nch)];
                let num = 1 + src.below(2);
                let (s, c) = &pays[src.usize(pays.len())];
                let body = if num == 1 { s[..*c].to_string() } else { s[*c..].to_string() };
                ops.push((own, id, ch, num, body));
            }
        }
        let mut slots: HashMap<(bool, u64, &'static str), (u64, String)> = HashMap::new();
        let (mut done, mut repeats, mut max_pending) = (0, 0, 0);
        let pace = gen_pace(src);
        let talkers = mode != 2 && src.chance(1, 6);
        // parts without a message id (always the same half, so that no two of them could belong together)
        let noise = src.chance(1, 3);
        let zeros = mode != 2 && src.chance(1, 8);
        let id_width = 1 + src.usize(4);
        let stray = mode != 2 && src.chance(1, 5);
        let stray_no = src.pick(&[("2", "0"), ("2", "3"), ("2", "4"), ("2", "255"), ("2", "257"), ("2", "258"), ("2", "-1"), ("2", ""), ("3", "1"), ("3", "2"), ("3", "3"), ("4", "1"), ("9", "2"), ("255", "1"), ("258", "1"), ("258", "2"), ("22", "1"), ("02", "3")]);
        let idless = if mode != 2 && src.chance(1, 5) { 1 + src.below(2) } else { 0 };
        for (i, (own, id, ch, num, body)) in ops.iter().enumerate() {
            let kind_s = if *own { "VDO" } else { "VDM" };
            tick(src, ctx, pace);
            if idless != 0 && src.chance(1, 3) {
                ctx.class("part without message id");
                let id = src.pick(&["", "", "x", "-"]);
                let r = p.parse(ctx, &with_sum(&format!("!{}{},2,{},{},{},{},0", talker, kind_s, idless, id, ch, body)));
                ensure!(is_incomplete(&r), "step {}: part {} of {} id {:?} channel {:?} has no partner but the answer is {:?}", i + 1, idless, kind_s, id, ch, r);
            }
            if stray && src.chance(1, 2) {
                // a part that belongs to no two-part message: it neither completes nor replaces anything
                ctx.class("part of a longer message or with an impossible number");
                let (c, n) = (stray_no.0, stray_no.1);
                let r = p.parse(ctx, &with_sum(&format!("!{}{},{},{},{},{},{},0", talker, kind_s, c, n, id, ch, body)));
                ensure!(is_incomplete(&r) || r.is_err(), "step {}: part {} of {} of {} id {} channel {:?} answered with {:?}", i + 1, n, c, kind_s, id, ch, r);
            }
            // the station of a message whose parts differ in talker is left open
            let t = if talkers { src.pick(AIS_TALKERS) } else { talker };
            let mut next = part(t, kind_s, *num, *id, ch, body);
            if zeros {
                ctx.class("leading zeros");
                next = wide_part(t, kind_s, *num, *id, ch, body, (1 + src.usize(3), 1 + src.usize(3), id_width));
            }
            if noise {
                foreign(src, ctx, &mut p, &next, |s| (s.contains(",2,1,") || s.contains(",2,2,")) && sound(s));
            }
            let mut r = p.parse(ctx, &next);
            if talkers {
                ctx.class("parts of different talkers");
                r = strip_head(&r, *own, ais::Station::Other);
            }
            let key = (*own, *id, *ch);
            match slots.get(&key).cloned() {
                Some((n, other)) if n != *num => {
                    slots.remove(&key);
                    let joined = if *num == 1 { format!("{}{}", body, other) } else { format!("{}{}", other, body) };
                    let mut want = solo(ctx, talker, kind_s, &joined);
                    if talkers {
                        want = strip_head(&want, *own, ais::Station::Other);
                    }
                    ensure!(same(&r, &want), "step {}: part {} of {} id {} channel {:?} completes the message but the answer is {:?}; as one sentence it is {:?}", i + 1, num, kind_s, id, ch, r, want);
                    done += 1;
                }
                old => {
                    ensure!(is_incomplete(&r), "step {}: part {} of {} id {} channel {:?} has no partner but the answer is {:?}", i + 1, num, kind_s, id, ch, r);
                    repeats += old.is_some() as u32;
                    slots.insert(key, (*num, body.clone()));
                    max_pending = max_pending.max(slots.len());
                }
            }
        }
        if done > 0 {
            ctx.class("completed");
        }
        if repeats > 0 {
            ctx.class("repeated part");
        }
        if done > 0 && (repeats > 0 || max_pending > 1) {
            ctx.nontrivial();
        }
        Ok(())
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        // an invalid second part must not leave the first one behind
        let mut p = P::new();
        let a = "55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8";
        let r = p.parse(ctx, &part("AI", "VDM", 1, 1, "A", a));
        ensure!(is_incomplete(&r), "{:?}", r);
        let r = p.parse(ctx, &part("AI", "VDM", 2, 1, "A", "88888888880"));
        ensure!(kind(&r) == "data", "{:?}", r);
        let r = p.parse(ctx, &part("AI", "VDM", 2, 1, "A", "88888888880"));
        ensure!(is_incomplete(&r), "{:?}", r);
        Ok(())
    }
}
const KEYPAIRS: &[((bool, u64, &str), (bool, u64, &str))] = &[
    ((false, 1, "A"), (false, 1, "B")),
    ((false, 1, "A"), (true, 1, "A")),
    ((false, 1, "A"), (false, 2, "A")),
    ((false, 0, "A"), (false, 0, "")),
    ((false, 1, "A"), (false, 11, "A")),
    ((false, 3, "1"), (false, 3, "2")),
    ((false, 12, "1"), (false, 1, "2")),
    ((true, 9, "B"), (true, 9, "A")),
    ((false, 0, "A"), (false, 256, "A")),
    ((false, 5, "B"), (false, 4294967301, "B")),
];
/// Thousands of messages pending at once, completed in another order.
fn bulk_twopart(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.pick(&[20u64, 65, 130, 260, 300, 1030, 3000]);
    let stride = src.pick(&[1u64, 7, 10, 256, 65536]);
    let base = src.below(5);
    let order = src.below(3);
    let second_first = src.bool();
    let own = src.bool();
    let nch = 1 + src.below(2);
    let kind_s = if own { "VDO" } else { "VDM" };
    let b = gen_msg(src, 5);
    ctx.class("bulk");
    ctx.nontrivial();
    let mut p = P::new();
    let payload = |i: u64| {
        let mut b = b.clone();
        put(&mut b, 8, 30, 200_000_000 + i);
        let s = armour(&b);
        (s[..40].to_string(), s[40..].to_string())
    };
    let key = |i: u64| (base + (i / nch) * stride, CHANS[(i % nch) as usize]);
    let (first, second) = if second_first { (2, 1) } else { (1, 2) };
    for i in 0..n {
        let (id, ch) = key(i);
        let (x, y) = payload(i);
        let r = p.parse(ctx, &part("AI", kind_s, first, id, ch, if first == 1 { &x } else { &y }));
        ensure!(is_incomplete(&r), "bulk: first part of message {} of {} answered with {:?}", i, n, r);
    }
    gen_crowd(src, ctx, &mut p, n);
    for k in 0..n {
        let i = match order {
            0 => k,
            1 => n - 1 - k,
            _ => (k * 7919) % n,
        };
        let (id, ch) = key(i);
        let (x, y) = payload(i);
        let r = p.parse(ctx, &part("AI", kind_s, second, id, ch, if second == 1 { &x } else { &y }));
        if order == 2 && n % 7919 == 0 {
            continue;
        }
        match &r {
            Ok(ParsedSentence::VesselStaticData(v)) if v.mmsi as u64 == 200_000_000 + i => {}
            _ => return Err(format!("bulk: second part of message {} of {} pending ones (id {}, channel {:?}) answered with {:?}", i, n, id, ch, r)),
        }
    }
    Ok(())
}

// ---- C07: satellite groups --------------------------------------------------------------------------
pub struct Gsv;
type Sat = (u8, Option<u8>, Option<u16>, Option<u8>);
fn gsv_sentence(talker: &str, count: u64, num: u64, view: &str, entries: &[String]) -> String {
    let mut s = format!("${}GSV,{},{},{}", talker, count, num, view);
    for e in entries {
        s.push(',');
        s.push_str(e);
    }
    with_sum(&s)
}
fn gen_gsv_fields(src: &mut Src) -> (Vec<String>, Vec<Sat>) {
    let n = match src.below(4) {
        0 | 1 => 4,
        2 => src.usize(5),
        _ => 3,
    };
    let (mut t, mut v) = (vec![], vec![]);
    for _ in 0..n {
        let (s, e) = gen_gsv_entry(src);
        t.push(s);
        v.extend(e);
    }
    // fields missing at the end
    if n > 0 && src.chance(1, 6) {
        let keep = 1 + src.usize(3);
        let l = t.last_mut().unwrap();
        let f: Vec<&str> = l.split(',').take(keep).collect();
        let some = !f[0].is_empty();
        let cut = f.join(",");
        *l = cut;
        if some {
            let e = v.last_mut().unwrap();
            if keep < 2 {
                e.1 = None;
            }
            if keep < 3 {
                e.2 = None;
            }
            e.3 = None;
        }
    }
    (t, v)
}
fn check_sats(talker: &str, want: &[Sat], r: &Res) -> R {
    match r {
        Ok(ParsedSentence::Gsv(v)) => {
            let got: Vec<Sat> = v.iter().map(|g| (g.prn_number, g.elevation, g.azimuth, g.snr)).collect();
            ensure!(got == want, "satellites {:?}, transmitted {:?}", got, want);
            for g in v {
                ensure!(g.source == nav_of(talker), "satellite of {} reported for {:?}", talker, g.source);
            }
            Ok(())
        }
        _ => Err(format!("complete group of {:?} answered with {:?}", want, r)),
    }
}
impl Property for Gsv {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of up to 60 (bulk: thousands) GSV sentences over several groups that differ in talker and/or size (1 to 20 sentences), sent in any order with repeated sentences, each with 0-4 generated or repeated satellites, in some histories with time passing or sentences of numbers outside the group in between (absent values, empty slots, fields missing at the end). The model keeps the latest copy of each sentence number per (talker, size); each answer must be incomplete or exactly the model's satellites in sentence order. Sweeps: all arrival orders with one repetition for group sizes up to 4 and rotations/reversals up to 20. Non-trivial: at least one group of two or more sentences completed."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 1_200_000, guided: 500_000, sweep_reps: 20 }
        } else {
            Plan { random: 70_000, guided: 30_000, sweep_reps: 2 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v = vec![];
        for n in 0..6 {
            for k in 0..3 {
                v.push(vec![1, n, k]);
            }
        }
        for n in 1..=4u64 {
            // every sequence of n+1 numbers (covers all orders, with one repetition)
            let mut code = 0;
            while code < n.pow(n as u32 + 1) {
                let mut p = vec![2, n];
                let mut c = code;
                for _ in 0..=n {
                    p.push(c % n);
                    c /= n;
                }
                v.push(p);
                code += 1;
            }
        }
        for n in 2..=20u64 {
            for rot in 0..n {
                for rev in 0..2 {
                    v.push(vec![3, n, rot, rev]);
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.mode(1500);
        if mode == 1 {
            return bulk_gsv(src, ctx);
        }
        let mut p = P::new();
        let mut ops: Vec<(String, u64, u64)> = vec![];
        if mode == 2 {
            let n = src.range(0, 9);
            let n = n.max(1);
            for _ in 0..=n {
                let k = 1 + src.below(n);
                ops.push(("GP".into(), n, k));
            }
        } else if mode == 3 {
            let n = src.range(0, 20).max(1);
            let rot = src.below(n);
            let rev = src.bool();
            for i in 0..n {
                let k = if rev { n - i } else { i + 1 };
                ops.push(("GP".into(), n, 1 + (k - 1 + rot) % n));
            }
        } else {
            let ng = 1 + src.usize(4);
            let groups: Vec<(String, u64)> = (0..ng)
                .map(|_| {
                    let n = match src.below(5) {
                        0 | 1 => 1 + src.below(3),
                        2 | 3 => 1 + src.below(9),
                        _ => 1 + src.below(20),
                    };
                    (src.pick(NAV_TALKERS).to_string(), n)
                })
                .collect();
            let style = src.below(4);
            let total = src.usize(if style == 3 { 61 } else { 16 });
            let mut queue: Vec<(String, u64, u64)> = vec![];
            for (t, n) in &groups {
                for k in 1..=*n {
                    queue.push((t.clone(), *n, k));
                }
            }
            match style {
                0 => {
                    // whole groups, one after another, repeated
                    ops = queue.clone();
                    ops.extend(queue);
                }
                1 | 2 => {
                    // shuffled, with repetitions
                    let extra = src.usize(4);
                    for _ in 0..extra {
                        let q = queue[src.usize(queue.len())].clone();
                        queue.push(q);
                    }
                    let keep_order = style == 1 && src.bool();
                    if keep_order {
                        // local swaps only
                        for _ in 0..3 {
                            if queue.len() > 1 {
                                let i = src.usize(queue.len() - 1);
                                queue.swap(i, i + 1);
                            }
                        }
                    } else {
                        for i in (1..queue.len()).rev() {
                            let j = i - src.usize(i + 1);
                            queue.swap(i, j);
                        }
                    }
                    ops = queue;
                }
                _ => {
                    for _ in 0..total {
                        let (t, n) = groups[src.usize(groups.len())].clone();
                        let k = 1 + src.below(n);
                        ops.push((t, n, k));
                    }
                }
            }
        }
        ops.truncate(150);
        let mut model: HashMap<(String, u64), BTreeMap<u64, Vec<Sat>>> = HashMap::new();
        let pace = gen_pace(src);
        let resend = src.below(3);
        let stray = mode == 0 && src.chance(1, 4);
        let noise = src.chance(1, 3);
        let zeros = mode == 0 && src.chance(1, 8);
        let empty = src.chance(1, 8);
        let mut sent: HashMap<(String, u64, u64), (Vec<String>, Vec<Sat>)> = HashMap::new();
        for (i, (t, n, k)) in ops.iter().enumerate() {
            tick(src, ctx, pace);
            let (fields, sats) = match sent.get(&(t.clone(), *n, *k)) {
                Some(o) if resend == 2 || (resend == 1 && src.bool()) => {
                    ctx.class("the same content again");
                    o.clone()
                }
                _ if empty && src.chance(4, 5) => {
                    // no satellites in view
                    ctx.class("no satellites");
                    (vec![src.pick(&[",,,", "", ",", ",,"]).to_string(); src.usize(5)], vec![])
                }
                _ => gen_gsv_fields(src),
            };
            sent.insert((t.clone(), *n, *k), (fields.clone(), sats.clone()));
            let view = src.pick(&["08", "", "4", "12", "00", "99"]);
            let mut next = gsv_sentence(t, *n, *k, view, &fields);
            if zeros {
                ctx.class("leading zeros");
                let wide = format!("GSV,{:0a$},{:0b$},", n, k, a = 1 + src.usize(3), b = 1 + src.usize(3));
                next = with_sum(&next.split('*').next().unwrap().replacen(&format!("GSV,{},{},", n, k), &wide, 1));
            }
            if noise {
                foreign(src, ctx, &mut p, &next, |_| false);
            }
            if stray && src.bool() {
                // a number that the group does not have
                ctx.class("number outside the group");
                let k = match src.below(4) {
                    0 => 0,
                    1 => n + 1 + src.below(3),
                    2 => *k + 256,
                    _ => src.pick(&[99, 255, 256, 65536 + *k, 4294967295, 4294967296 + *k]),
                };
                if k == 0 || k > *n {
                    let (f, _) = gen_gsv_fields(src);
                    let mut s = gsv_sentence(t, *n, k, "08", &f);
                    if k == 0 && *n > 1 {
                        // no number at all
                        let a = s.split('*').next().unwrap().replacen(&format!("GSV,{},0,", n), &format!("GSV,{},{},", n, src.pick(&["0", "", " ", "x", "-"])), 1);
                        s = with_sum(&a);
                    }
                    if src.chance(1, 5) {
                        // not even a number of sentences
                        s = with_sum(&format!("${}GSV,{},{},08,01,02,003,04", t, src.pick(&["x", "1.5", "-2", "nan", "99999999999999999999"]), k));
                    }
                    let r = p.parse(ctx, &s);
                    ensure!(is_incomplete(&r) || r.is_err(), "step {}: sentence {} of a group of {} of {} answered with {:?}", i + 1, k, n, t, r);
                }
            }
            let r = p.parse(ctx, &next);
            let key = (t.clone(), *n);
            let g = model.entry(key.clone()).or_default();
            if g.insert(*k, sats).is_some() {
                ctx.class("repeated sentence");
            }
            if g.len() as u64 == *n {
                let want: Vec<Sat> = g.values().flatten().cloned().collect();
                model.remove(&key);
                check_sats(t, &want, &r).map_err(|e| format!("step {} (sentence {} of {} of {}): {}", i + 1, k, n, t, e))?;
                ctx.class(if *n > 1 { "group completed" } else { "single-sentence group" });
                if *n > 1 {
                    ctx.nontrivial();
                }
                if *n > 9 {
                    ctx.class("group of more than 9");
                }
            } else {
                ensure!(is_incomplete(&r), "step {} (sentence {} of {} of {}): the group has {} sentences but the answer is {:?}", i + 1, k, n, t, g.len(), r);
            }
        }
        Ok(())
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        let mut p = P::new();
        let r = p.parse(ctx, "$GPGSV,1,1,0*52");
        check_sats("GP", &[], &r.or_else(|_| p.parse(ctx, "$GPGSV,1,1,0")))
    }
}
fn bulk_gsv(src: &mut Src, ctx: &mut Ctx) -> R {
    // many groups pending at once: every two-letter talker of a letter range, several sizes
    let nt = src.pick(&[10u64, 30, 70, 140, 300, 676]);
    let sizes: Vec<u64> = match src.below(3) {
        0 => vec![2],
        1 => vec![2, 3],
        _ => vec![3, 4, 9],
    };
    let rev = src.bool();
    ctx.class("bulk");
    ctx.nontrivial();
    let mut p = P::new();
    let name = |i: u64| format!("{}{}", (b'A' + (i / 26 % 26) as u8) as char, (b'A' + (i % 26) as u8) as char);
    let entry = |i: u64, n: u64, k: u64| (1 + ((i + n) % 32) as u8, Some((k % 90) as u8), Some((i % 360) as u16), Some((n * 9 % 99) as u8));
    let ser = |e: &Sat| format!("{:02},{:02},{:03},{:02}", e.0, e.1.unwrap(), e.2.unwrap(), e.3.unwrap());
    for n in &sizes {
        for i in 0..nt {
            for k in 1..*n {
                let e = entry(i, *n, k);
                let r = p.parse(ctx, &gsv_sentence(&name(i), *n, k, "08", &[ser(&e)]));
                ensure!(is_incomplete(&r), "bulk: sentence {} of {} of {} answered with {:?}", k, n, name(i), r);
            }
        }
    }
    gen_crowd(src, ctx, &mut p, nt);
    for n in &sizes {
        for j in 0..nt {
            let i = if rev { nt - 1 - j } else { j };
            let e = entry(i, *n, *n);
            let r = p.parse(ctx, &gsv_sentence(&name(i), *n, *n, "08", &[ser(&e)]));
            let want: Vec<Sat> = (1..=*n).map(|k| entry(i, *n, k)).collect();
            check_sats(&name(i), &want, &r).map_err(|e| format!("bulk, {} talkers x sizes {:?} pending, group of {} of {}: {}", nt, sizes, n, name(i), e))?;
        }
    }
    Ok(())
}

// ---- C08: type 24 pairs -------------------------------------------------------------------------------
pub struct Pairs;
impl Property for Pairs {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of up to 40 (bulk: up to 3000 vessels) type 24 parts over a pool of 1-4 MMSIs (neighbouring, zero, maximal, auxiliary-craft), VDM or VDO, each part freshly generated, in any order with repetitions, in some histories with time passing in between, in one or two sentences. The model keeps the latest unmatched part per MMSI; each answer must be incomplete, or the report combining the model's part A and part B field by field. Sweeps: all sequences of 6 parts over two vessels. Non-trivial: a pair completed in a history with a repeated part or a second vessel."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 1_200_000, guided: 600_000, sweep_reps: 12 }
        } else {
            Plan { random: 90_000, guided: 40_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, _th: bool) -> Vec<Vec<u64>> {
        let mut v: Vec<Vec<u64>> = (0..4096u64).map(|c| {
            let mut p = vec![2];
            for k in 0..6 {
                p.push(c >> (2 * k) & 3);
            }
            p
        }).collect();
        // bulk: [1, own, generated MMSI, ...]
        v.extend((0..20).map(|k| vec![1, k % 2]));
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let mode = src.mode(1500);
        let mut ops: Vec<(usize, bool)> = vec![];
        if mode == 2 {
            for _ in 0..6 {
                let l = src.below(4);
                ops.push(((l >> 1) as usize, l & 1 == 1));
            }
        }
        let own = src.bool();
        let base = gen_num(src, 30, MMSI);
        if mode == 1 {
            return bulk_pairs(src, ctx, own, base);
        }
        let nm = if mode == 2 { 2 } else { 1 + src.usize(4) };
        let mut mmsis = vec![base];
        for _ in 1..nm {
            let m = match src.below(6) {
                0 => base.wrapping_add(1),
                5 => {
                    // equal in the last nine digits
                    mmsis[0] = base % 73_741_824;
                    mmsis[0] + 1_000_000_000
                }
                1 => base ^ (1 << src.below(30)),
                2 => base.wrapping_add(1_000_000),
                3 => 980_000_000 + base % 1_000_000 * 10,
                _ => gen_num(src, 30, MMSI),
            } & ((1 << 30) - 1);
            mmsis.push(m);
        }
        if mode != 2 {
            let most = if src.chance(1, 8) { 39 } else { 8 };
            let n = 2 + src.usize(most);
            for _ in 0..n {
                ops.push((src.usize(mmsis.len()), src.bool()));
            }
        }
        let mut p = P::new();
        let mut model: HashMap<u64, (bool, Bits)> = HashMap::new();
        let (mut done, mut rep) = (0, 0);
        let pace = gen_pace(src);
        let resend = src.below(3);
        let kinds = src.chance(1, 6);
        let noise = src.chance(1, 3);
        let mut sent: HashMap<(usize, bool), Bits> = HashMap::new();
        for (i, (m, is_b)) in ops.iter().enumerate() {
            tick(src, ctx, pace);
            let mut b = match sent.get(&(*m, *is_b)) {
                Some(o) if resend == 2 || (resend == 1 && src.bool()) => {
                    ctx.class("the same content again");
                    o.clone()
                }
                _ => gen_msg(src, if *is_b { 124 } else { 24 }),
            };
            let mmsi = mmsis[*m];
            put(&mut b, 8, 30, mmsi);
            if src.chance(1, 3) {
                // parts that carry little: they must still count as their part
                let z = src.below(3);
                for k in 40..b.len() {
                    b[k] = match z {
                        0 => false,
                        1 => true,
                        _ => b[k],
                    };
                }
                ctx.class("blank or all-ones part");
            }
            sent.insert((*m, *is_b), b.clone());
            let pl = armour(&b);
            let mut h = gen_head(src, pl.len());
            h.own = own;
            let mut own = own;
            if kinds {
                ctx.class("VDM and VDO mixed");
                h.own = src.bool();
            }
            if noise {
                foreign(src, ctx, &mut p, &Head::plain().sentences(&pl)[0], |s| s.contains(",1,1,,A,H") && sound(s));
            }
            let r = deliver(&mut p, ctx, &h, &pl)?;
            if kinds {
                // whose mark it is, is left open
                if let Ok(ParsedSentence::VesselStaticData(v)) = &r {
                    own = v.own_vessel;
                }
            }
            let name = if *is_b { "B" } else { "A" };
            match model.get(&mmsi) {
                Some((other_b, o)) if other_b != is_b => {
                    let (a, bb) = if *is_b { (o, &b) } else { (&b, o) };
                    match &r {
                        Ok(ParsedSentence::VesselStaticData(v)) => check_t24(a, bb, own, v).map_err(|e| format!("step {}: part {} of {}: {}", i + 1, name, mmsi, e))?,
                        _ => return Err(format!("step {}: part {} of {} completes the pair but the answer is {:?}", i + 1, name, mmsi, r)),
                    }
                    model.remove(&mmsi);
                    done += 1;
                }
                old => {
                    rep += old.is_some() as u32;
                    ensure!(is_incomplete(&r), "step {}: part {} of {} has no partner but the answer is {:?}", i + 1, name, mmsi, r);
                    model.insert(mmsi, (*is_b, b));
                }
            }
        }
        if done > 0 {
            ctx.class("completed");
        }
        if rep > 0 {
            ctx.class("repeated part");
        }
        if done > 0 && (rep > 0 || ops.iter().any(|o| o.0 != ops[0].0)) {
            ctx.nontrivial();
        }
        Ok(())
    }
    fn regress(&self, ctx: &mut Ctx) -> R {
        now_default();
        for (first, second) in [(24u64, 124u64), (124, 24)] {
            let mut p = P::new();
            let mk = |ty: u64| {
                let mut b: Bits = vec![false; layout(ty).1];
                fix_type(&mut b, ty);
                put(&mut b, 8, 30, 271041815);
                b
            };
            for _ in 0..3 {
                let r = deliver(&mut p, ctx, &Head::plain(), &armour(&mk(first)))?;
                ensure!(is_incomplete(&r), "repeated part {} answered with {:?}", first, r);
            }
            let r = deliver(&mut p, ctx, &Head::plain(), &armour(&mk(second)))?;
            ensure!(kind(&r) == "data", "{:?}", r);
            let r = deliver(&mut p, ctx, &Head::plain(), &armour(&mk(second)))?;
            ensure!(is_incomplete(&r), "{:?}", r);
        }
        Ok(())
    }
}
fn bulk_pairs(src: &mut Src, ctx: &mut Ctx, own: bool, base: u64) -> R {
    let n = src.pick(&[20u64, 70, 130, 260, 520, 1030, 3000]);
    let stride = src.pick(&[1u64, 10, 256, 65536, 1_000_000, 9973]);
    let b_first = src.bool();
    let order = src.below(3);
    let ma = gen_msg(src, 24);
    let mb = gen_msg(src, 124);
    let mmsi = |i: u64| (base + i * stride) & ((1 << 30) - 1);
    ctx.class("bulk");
    ctx.nontrivial();
    // vessels whose numbers coincide after wrapping are left out
    let mut seen = std::collections::HashSet::new();
    let idx: Vec<u64> = (0..n).filter(|i| seen.insert(mmsi(*i))).collect();
    let mk = |i: u64, is_b: bool| {
        let mut b = if is_b { mb.clone() } else { ma.clone() };
        put(&mut b, 8, 30, mmsi(i));
        if is_b {
            put(&mut b, 70, 20, i);
        } else {
            for k in 0..4 {
                put(&mut b, 40 + 6 * k, 6, 48 + (i / 10u64.pow(3 - k as u32)) % 10);
            }
        }
        b
    };
    let mut h = Head::plain();
    h.own = own;
    let mut p = P::new();
    for i in &idx {
        let r = deliver(&mut p, ctx, &h, &armour(&mk(*i, b_first)))?;
        ensure!(is_incomplete(&r), "bulk: first part of vessel {} answered with {:?}", mmsi(*i), r);
    }
    gen_crowd(src, ctx, &mut p, n);
    let m = idx.len();
    for k in 0..m {
        let i = idx[match order {
            0 => k,
            1 => m - 1 - k,
            _ => (k * 7919) % m,
        }];
        if order == 2 && m % 7919 == 0 {
            break;
        }
        let r = deliver(&mut p, ctx, &h, &armour(&mk(i, !b_first)))?;
        match &r {
            Ok(ParsedSentence::VesselStaticData(v)) => check_t24(&mk(i, false), &mk(i, true), own, v).map_err(|e| format!("bulk, {} vessels pending: {}", m, e))?,
            _ => return Err(format!("bulk: second part of vessel {} with {} pending answered with {:?}", mmsi(i), m, r)),
        }
    }
    Ok(())
}

// ---- C09: independence of streams ---------------------------------------------------------------------
pub struct Streams;
/// The sentences of one stream; streams of one case have pairwise different identities.
fn gen_stream(src: &mut Src, used: &mut Vec<String>, mmsis: &[u64], ctx: &mut Ctx) -> Vec<String> {
    let fresh = |used: &mut Vec<String>, k: String| {
        if used.contains(&k) {
            false
        } else {
            used.push(k);
            true
        }
    };
    match src.below(6) {
        0 => {
            // a single-sentence AIS message
            let ty = src.pick(&[1u64, 4, 5, 6, 9, 10, 18, 21, 27, 3]);
            let mut b = gen_msg(src, ty);
            put(&mut b, 8, 30, mmsis[src.usize(mmsis.len())]);
            let mut h = gen_head(src, 10);
            h.split = None;
            ctx.class("stream: single AIS");
            h.sentences(&armour(&b))
        }
        1 => {
            let ty = src.usize(5);
            let t = src.pick(NAV_TALKERS);
            ctx.class("stream: GNSS");
            let b = gen_gnss_body(src, ty, t);
            vec![seal(src, b)]
        }
        2 | 3 => {
            // a two-part message
            let ty = src.pick(&[5u64, 21, 1, 4, 6]);
            let mut b = gen_msg(src, ty);
            put(&mut b, 8, 30, mmsis[src.usize(mmsis.len())]);
            let pl = armour(&b);
            let mut h = Head::plain();
            h.own = src.bool();
            h.chan = if src.chance(1, 4) { src.pick(ODD_CHANS) } else { src.pick(CHANS) };
            let mut id = src.below(4);
            while !fresh(used, format!("2p {} {} {}", h.kind(), id, h.chan)) {
                id += 1;
            }
            h.id = id.to_string();
            h.split = Some(src.usize(pl.len() + 1));
            h.swap = src.bool();
            ctx.class("stream: two-part AIS");
            let mut s = h.sentences(&pl);
            if src.chance(1, 4) {
                // the first part is repeated
                let f = s[0].clone();
                s.insert(1, f);
            }
            if src.chance(1, 4) {
                // and the whole message sent again
                let c = s.clone();
                s.extend(c);
            }
            s
        }
        4 => {
            let mut n = 1 + src.below(5);
            let t = src.pick(NAV_TALKERS);
            while !fresh(used, format!("gsv {} {}", t, n)) {
                n += 1;
            }
            let mut v: Vec<String> = (1..=n)
                .map(|k| {
                    let (fl, _) = gen_gsv_fields(src);
                    gsv_sentence(t, n, k, "08", &fl)
                })
                .collect();
            if src.bool() {
                let i = src.usize(v.len());
                let j = src.usize(v.len());
                v.swap(i, j);
            }
            if src.chance(1, 4) {
                let f = v[0].clone();
                v.insert(1, f);
            }
            ctx.class("stream: GSV group");
            v
        }
        _ => {
            let mut m = mmsis[src.usize(mmsis.len())];
            while !fresh(used, format!("24 {}", m)) {
                m = (m + 1) & ((1 << 30) - 1);
            }
            let own = src.bool();
            let mut v = vec![];
            let mut order = vec![24, 124];
            if src.bool() {
                order.reverse();
            }
            if src.chance(1, 4) {
                order.insert(0, order[0]);
            }
            for ty in order {
                let mut b = gen_msg(src, ty);
                put(&mut b, 8, 30, m);
                let mut h = Head::plain();
                h.own = own;
                v.extend(h.sentences(&armour(&b)));
            }
            ctx.class("stream: type 24 pair");
            v
        }
    }
}
/// A sentence that must be rejected or is unsupported; derived from a stream's sentence or not.
fn gen_noise(src: &mut Src, all: &[String], mmsis: &[u64]) -> (String, &'static str) {
    match src.below(11) {
        9 => {
            // a malformed field
            let t = src.pick(NAV_TALKERS);
            let s = src.pick(&["GGA,123519,4807.038,N,01131.000,E,1,x,0.9,545.4,M,46.9,M,,", "GGA,123519,48o7.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "RMC,225446,Q,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "RMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,X", "GLL,4916.45,N,123,W,225444,A,A", "GSA,A,4,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "GSA,A,3,19,28,14,18,27,22,31,x39,,,,,1.7,1.0,1.3"]);
            (with_sum(&format!("${}{}", t, s)), "invalid")
        }
        10 => {
            let t = src.pick(NAV_TALKERS);
            let s = src.pick(&["GSV,x,1,08,01,02,003,04", "GSV,2,x,08,01,02,003,04", "GSV,3,1.5,08", "GSV,-1,1,08,01,02,003,04", "GSV,99999999999999999999,1,08", "GSV,nan,2,08"]);
            (with_sum(&format!("${}{}", t, s)), "invalid")
        }
        0 | 1 | 2 => {
            // a corrupted copy of a sentence of the streams
            let s = &all[src.usize(all.len())];
            let body = s.split('*').next().unwrap().to_string();
            let sum = xor(&body);
            let wrong = sum ^ (1 + src.below(255)) as u8;
            (format!("{}*{:02X}", body, wrong), "corrupted")
        }
        3 => {
            // unsupported AIS type, possibly of a vessel of the streams
            let mut b: Bits = vec![false; 168];
            put(&mut b, 0, 6, src.pick(&[7u64, 8, 11, 14, 17, 19, 20, 22, 25, 26, 28, 0, 63]));
            put(&mut b, 8, 30, mmsis[src.usize(mmsis.len())]);
            (Head::plain().sentences(&armour(&b))[0].clone(), "unsupported")
        }
        4 => {
            // type 24 with part number 2 or 3
            let mut b = gen_msg(src, 124);
            put(&mut b, 8, 30, mmsis[src.usize(mmsis.len())]);
            put(&mut b, 38, 2, 2 + src.below(2));
            (Head::plain().sentences(&armour(&b))[0].clone(), "invalid")
        }
        5 => {
            // a bad character in a one-sentence payload of a supported type
            let mut b = gen_msg(src, 24);
            put(&mut b, 8, 30, mmsis[src.usize(mmsis.len())]);
            let mut s = armour(&b);
            s.push(src.pick(&['x', '~', 'X', '_', ' ', '/']));
            (with_sum(&format!("!AIVDM,1,1,,A,{},0", s)), "invalid")
        }
        6 => {
            // parts of messages of three or more, or of two parts without an id: not supported
            let kind_s = src.pick(&["VDM", "VDO"]);
            let n = src.range(2, 5);
            let id = if n == 2 { "".to_string() } else { src.below(4).to_string() };
            let b = gen_msg(src, 5);
            let pl = armour(&b);
            (with_sum(&format!("!AI{},{},{},{},{},{},0", kind_s, n, 1 + src.below(n), id, src.pick(CHANS), &pl[..30])), "any")
        }
        7 => (with_sum(&format!("${}{},1,2,3", src.pick(NAV_TALKERS), src.pick(&["ZDA", "HDT", "XTE", "GRS", "GST", "TXT", "ALM"]))), "unsupported"),
        _ => {
            // bad part counts and numbers
            let k = src.pick(&["!AIVDM,x,1,1,A,15RT,0", "!AIVDM,2,x,1,A,15RT,0", "!AIVDO,,1,0,B,15RT,0", "!AIVDM,2,,1,A,15RT,0", "!AIVDM,256,1,1,A,15RT,0", "garbage without separator", ""]);
            (if k.contains(',') { with_sum(k) } else { k.to_string() }, "invalid")
        }
    }
}
impl Property for Streams {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A case generates 1-8 streams with different identities (single AIS, GNSS, two-part AIS with near-colliding ids/channels/kinds, GSV groups with near-colliding talkers/sizes, type 24 pairs; all AIS streams share a small MMSI pool), interleaves them in a generated order and inserts rejected or unsupported sentences (corrupted copies of the streams' own sentences, unsupported types, invalid payloads, parts of messages of three or more parts). The answers to each stream must equal those of a fresh parser given that stream alone, noise must be rejected with its error, and a second parser given the same history must answer equally. Rare cases repeat this after 300-70000 sentences of unfinished or noise history. Non-trivial: two or more streams of several sentences really interleaved, or noise inside such a stream."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 900_000, guided: 500_000, sweep_reps: 1 }
        } else {
            Plan { random: 70_000, guided: 30_000, sweep_reps: 1 }
        }
    }
    fn sweeps(&self, th: bool) -> Vec<Vec<u64>> {
        // long histories: [1, length, kind, when]
        let lens: &[u64] = if th { &[300, 1100, 5000, 20_000, 70_000] } else { &[300, 1100, 5000, 20_000, 33_000] };
        let mut v = vec![];
        for l in lens {
            for k in 0..8 {
                v.push(vec![1, *l, k, 0]);
            }
        }
        for l in if th { vec![260, 1100, 5000, 70_000] } else { vec![260, 1100, 70_000] } {
            for k in 0..8 {
                for w in 1..4 {
                    if th || l < 2000 || (w == 1 && k > 1) {
                        v.push(vec![1, l, k, w]);
                    }
                }
            }
        }
        v
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let long = src.mode(12_000) == 1;
        let mut p = P::new();
        let mut q = P::new();
        // a long history before the streams or after some of their sentences
        let (mut when, mut crowd_n, mut crowd_what) = (0, 0, 0);
        if long {
            let n = src.below(70_001);
            let what = src.below(8);
            ctx.class("long history");
            when = src.below(4);
            crowd_n = n;
            crowd_what = what;
            if when == 0 {
                crowd(ctx, &mut p, n, what, 0);
            }
        }
        let base = gen_num(src, 30, MMSI);
        let mut mmsis = [base, (base + 1) & ((1 << 30) - 1), gen_num(src, 30, MMSI)];
        if when > 0 {
            for m in mmsis.iter_mut() {
                if *m / 1_000_000 == 500 {
                    *m += 100_000_000;
                }
            }
        }
        let mut used = vec![];
        let most = if src.chance(1, 4) { 8 } else { 4 };
        let ns = 1 + src.usize(most);
        let streams: Vec<Vec<String>> = (0..ns).map(|_| gen_stream(src, &mut used, &mmsis, ctx)).collect();
        let all: Vec<String> = streams.iter().flatten().cloned().collect();
        // each stream also has a parser of its own
        let mut solos: Vec<P> = streams.iter().map(|_| P::new()).collect();
        let pace = gen_pace(src);
        let mut pos = vec![0; ns];
        let noise = src.below(3);
        let mut interleaved = false;
        let mut last = usize::MAX;
        loop {
            let open: Vec<usize> = (0..ns).filter(|i| pos[*i] < streams[*i].len()).collect();
            if open.is_empty() {
                break;
            }
            tick(src, ctx, pace);
            if src.below(3) >= 3 - noise {
                let (s, k) = gen_noise(src, &all, &mmsis);
                let r = p.parse(ctx, &s);
                if !long {
                    let r2 = q.parse_quiet(ctx, &s);
                    ensure!(same(&r, &r2), "equal histories give {:?} and {:?} for {:?}", r, r2, s);
                }
                if k != "any" {
                    ensure!(kind(&r) == k, "noise sentence {:?} answered with {:?}, expected {}", s, r, k);
                } else {
                    ensure!(kind(&r) != "data", "unsupported sentence {:?} answered with {:?}", s, r);
                }
                ctx.class("noise");
                if pos.iter().enumerate().any(|(i, x)| *x > 0 && *x < streams[i].len()) {
                    interleaved = true;
                }
                continue;
            }
            let i = open[src.usize(open.len())];
            if last != usize::MAX && last != i && pos[last] < streams[last].len() {
                interleaved = true;
            }
            last = i;
            if when > 0 && pos.iter().sum::<usize>() as u64 == when {
                when = 0;
                crowd(ctx, &mut p, crowd_n, crowd_what, 5000);
            }
            let s = &streams[i][pos[i]];
            let r = p.parse(ctx, s);
            if !long {
                let r2 = q.parse_quiet(ctx, s);
                ensure!(same(&r, &r2), "equal histories give {:?} and {:?} for {:?}", r, r2, s);
            }
            let w = solos[i].parse_quiet(ctx, s);
            ensure!(same(&r, &w), "sentence {} of stream {} ({:?}) answered with {:?}; alone it is {:?}", pos[i] + 1, i + 1, s, r, w);
            pos[i] += 1;
        }
        if interleaved {
            ctx.nontrivial();
        }
        Ok(())
    }
}
impl P {
    pub fn parse_quiet(&mut self, ctx: &mut Ctx, s: &str) -> Res {
        let v = ctx.verbose;
        ctx.verbose = false;
        let r = self.parse(ctx, s);
        ctx.verbose = v;
        r
    }
}

// ---- C30: independence of parsers ---------------------------------------------------------------------
pub struct Parsers;
/// A parser on its way to another thread. Whether it may travel is a question of its own (`travels`); this only
/// keeps the harness compiling if it may not.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn open(self) -> T {
        self.0
    }
}
/// Does the type implement Send? (An inherent constant wins over that of a trait.)
struct Probe<T>(std::marker::PhantomData<T>);
trait Without {
    const SEND: bool = false;
}
impl<T> Without for Probe<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
fn answer(p: &mut NmeaParser, s: &str) -> Result<Res, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse_sentence(s))).map_err(|_| format!("the parser panicked at {:?}", s))
}
/// The answers of a parser of its own.
fn alone(h: &[String]) -> Result<Vec<Res>, String> {
    let mut p = NmeaParser::new();
    h.iter().map(|s| answer(&mut p, s)).collect()
}
impl Parsers {
    fn compare(i: usize, how: &str, h: &[String], want: &[Res], got: &[Res]) -> R {
        for (k, (w, g)) in want.iter().zip(got).enumerate() {
            ensure!(same(w, g), "{}: parser {} answers its sentence {} ({:?}) with {:?}; when it is the only parser the answer is {:?}", how, i + 1, k + 1, h[k], g, w);
        }
        ensure!(want.len() == got.len(), "{}: parser {} gave {} answers to {} sentences", how, i + 1, got.len(), want.len());
        Ok(())
    }
}
impl Property for Parsers {
    fn aged(&self) -> bool {
        false
    }
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "A case gives 2-5 parsers a history each: streams of any kind (single messages, two-part messages, GSV groups, type 24 pairs, noise) whose identities deliberately collide between the parsers - in half of the cases the sentences of one set of messages are dealt out to the parsers like cards, so that each holds what another one lacks. The answers of each parser when it is the only one alive are the reference. The same histories are then (a) interleaved on one thread in a generated order, parsers being created at their first and dropped at or some time after their last sentence, (b) interleaved while every sentence is parsed on one of three threads to which the parser is moved, or (c) run at the same time, each parser on its own thread, several times over; in some cases the reference is taken again at the end. Every answer must equal the reference. Once per run: NmeaParser, ParsedSentence and ParseError may be sent to other threads. Non-trivial: at least two parsers have sentences of messages that need several."
    }
    fn plan(&self, th: bool) -> Plan {
        if th {
            Plan { random: 600_000, guided: 100_000, sweep_reps: 1 }
        } else {
            Plan { random: 40_000, guided: 10_000, sweep_reps: 1 }
        }
    }
    fn regress(&self, _ctx: &mut Ctx) -> R {
        ensure!(Probe::<NmeaParser>::SEND, "a parser cannot be sent to another thread");
        ensure!(Probe::<ParsedSentence>::SEND, "a result cannot be sent to another thread");
        ensure!(Probe::<ParseError>::SEND, "an error cannot be sent to another thread");
        Ok(())
    }
    fn case(&self, src: &mut Src, ctx: &mut Ctx) -> R {
        now_default();
        let how = src.below(4);
        let n = 2 + src.usize(4);
        let base = gen_num(src, 30, MMSI);
        let mmsis = [base, (base + 1) & ((1 << 30) - 1), gen_num(src, 30, MMSI)];
        let mut hist: Vec<Vec<String>> = vec![vec![]; n];
        let dealt = src.bool();
        let gen = |src: &mut Src, ctx: &mut Ctx| -> Vec<String> {
            let mut used = vec![];
            let ns = 1 + src.usize(4);
            let streams: Vec<Vec<String>> = (0..ns).map(|_| gen_stream(src, &mut used, &mmsis, ctx)).collect();
            let all: Vec<String> = streams.iter().flatten().cloned().collect();
            let mut pos = vec![0; ns];
            let mut h = vec![];
            loop {
                let open: Vec<usize> = (0..ns).filter(|i| pos[*i] < streams[*i].len()).collect();
                if open.is_empty() {
                    return h;
                }
                if src.chance(1, 8) {
                    h.push(gen_noise(src, &all, &mmsis).0);
                }
                let i = open[src.usize(open.len())];
                h.push(streams[i][pos[i]].clone());
                pos[i] += 1;
            }
        };
        if dealt {
            ctx.class("messages dealt out to the parsers");
            let rounds = 1 + src.usize(3);
            for _ in 0..rounds {
                for s in gen(src, ctx) {
                    hist[src.usize(n)].push(s.clone());
                    if src.chance(1, 4) {
                        // the same sentence reaches several parsers
                        hist[src.usize(n)].push(s);
                    }
                }
            }
        } else {
            for h in hist.iter_mut() {
                *h = gen(src, ctx);
            }
        }
        for h in &hist {
            for s in h {
                ctx.hash_bytes(s.as_bytes());
                ctx.parses += 2;
            }
        }
        ctx.note(|| hist.iter().enumerate().map(|(i, h)| format!("history of parser {}: {:?}", i + 1, h)).collect::<Vec<_>>().join("\n"));
        let want: Vec<Vec<Res>> = hist.iter().map(|h| alone(h)).collect::<Result<_, _>>()?;
        if want.iter().filter(|w| w.iter().any(|r| is_incomplete(r))).count() > 1 {
            ctx.nontrivial();
        }
        let mut got: Vec<Vec<Res>> = vec![vec![]; n];
        let how = if how == 3 && unsafe { GUIDED } { 1 } else { how };
        let text;
        match how {
            0 | 1 => {
                text = "interleaved";
                ctx.class("interleaved on one thread");
                let mut ps: Vec<Option<NmeaParser>> = (0..n).map(|_| None).collect();
                loop {
                    let open: Vec<usize> = (0..n).filter(|i| got[*i].len() < hist[*i].len()).collect();
                    if open.is_empty() {
                        break;
                    }
                    let i = open[src.usize(open.len())];
                    let p = ps[i].get_or_insert_with(NmeaParser::new);
                    let r = answer(p, &hist[i][got[i].len()])?;
                    ctx.note(|| format!("parser {}: {:?} -> {:?}", i + 1, hist[i][got[i].len()], r));
                    got[i].push(r);
                    if got[i].len() == hist[i].len() && src.bool() {
                        ps[i] = None;
                    }
                }
            }
            2 => {
                text = "moved between threads";
                ctx.class(text);
                // the order and the thread of every step first
                let mut left: Vec<usize> = hist.iter().map(|h| h.len()).collect();
                let mut steps = vec![];
                loop {
                    let open: Vec<usize> = (0..n).filter(|i| left[*i] > 0).collect();
                    if open.is_empty() {
                        break;
                    }
                    let i = open[src.usize(open.len())];
                    left[i] -= 1;
                    steps.push((i, src.usize(3)));
                }
                in_parser(true);
                let out: Result<Vec<(usize, Res)>, String> = std::thread::scope(|sc| {
                    type Job = (Carry<NmeaParser>, String);
                    type Back = (Carry<NmeaParser>, Carry<Result<Res, String>>);
                    let lanes: Vec<_> = (0..3)
                        .map(|_| {
                            let (to, jobs) = std::sync::mpsc::channel::<Job>();
                            let (done, from) = std::sync::mpsc::channel::<Back>();
                            sc.spawn(move || {
                                for (p, s) in jobs {
                                    let mut p = p.open();
                                    let r = answer(&mut p, &s);
                                    if done.send((Carry(p), Carry(r))).is_err() {
                                        return;
                                    }
                                }
                            });
                            (to, from)
                        })
                        .collect();
                    let mut ps: Vec<Option<NmeaParser>> = (0..n).map(|_| Some(NmeaParser::new())).collect();
                    let mut k = vec![0; n];
                    let mut out = vec![];
                    for (i, t) in steps {
                        let p = ps[i].take().unwrap();
                        let _ = lanes[t].0.send((Carry(p), hist[i][k[i]].clone()));
                        k[i] += 1;
                        let (p, r) = lanes[t].1.recv().map_err(|_| "a thread ended".to_string())?;
                        ps[i] = Some(p.open());
                        out.push((i, r.open()?));
                    }
                    Ok(out)
                });
                in_parser(false);
                for (i, r) in out? {
                    got[i].push(r);
                }
            }
            _ => {
                text = "at the same time";
                ctx.class("at the same time on several threads");
                let reps = 1 + src.usize(6);
                let start = std::sync::Barrier::new(n);
                in_parser(true);
                let out: Vec<Result<Vec<Vec<Res>>, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = hist
                        .iter()
                        .map(|h| {
                            let start = &start;
                            sc.spawn(move || {
                                start.wait();
                                let r: Result<Vec<Vec<Res>>, String> = (0..reps).map(|_| alone(h)).collect();
                                Carry(r)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().map_or_else(|_| Err("a thread panicked".into()), Carry::open)).collect()
                });
                in_parser(false);
                for (i, o) in out.into_iter().enumerate() {
                    for g in o? {
                        Parsers::compare(i, text, &hist[i], &want[i], &g)?;
                        got[i] = g;
                    }
                }
            }
        }
        for i in 0..n {
            Parsers::compare(i, text, &hist[i], &want[i], &got[i])?;
        }
        if src.chance(1, 4) {
            for i in 0..n {
                Parsers::compare(i, "alone again", &hist[i], &want[i], &alone(&hist[i])?)?;
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["schedules of threads running at the same time are those the system happens to choose; only the interleavings of whole calls are generated"]
    }
}

pub fn all() -> Vec<Box<dyn Property>> {
    vec![Box::new(TwoPart), Box::new(Gsv), Box::new(Pairs), Box::new(Streams), Box::new(Parsers)]
}
