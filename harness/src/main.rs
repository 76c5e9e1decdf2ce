//! Driver: forks workers, merges what they report, writes evidence and replay files.
#![allow(static_mut_refs)]
mod ais;
mod engine;
mod general;
mod gnss;
mod mid;
mod msg;
mod rt;
mod state;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

const VERIF: &str = "/verif";
/// A worker that does not finish a single case in this time gives no answer (exit 2).
const STALL_S: u64 = 200;

fn properties() -> Vec<Box<dyn Property>> {
    let mut v: Vec<Box<dyn Property>> = vec![];
    v.extend(general::all());
    v.extend(state::all());
    v.extend(ais::all());
    v.extend(gnss::all());
    v.sort_by_key(|p| p.id());
    v
}

/// Runs the program again without address space randomization, so that a run is repeatable.
fn fixed_addresses() {
    unsafe {
        if std::env::var_os("NMEA_HARNESS_FIXED").is_some() {
            return;
        }
        // the stack of an ordinary Rust thread
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_STACK, &mut l) == 0 {
            l.rlim_cur = l.rlim_max.min(2 << 20);
            libc::setrlimit(libc::RLIMIT_STACK, &l);
        }
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || libc::personality(cur as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) < 0 {
            return;
        }
        std::env::set_var("NMEA_HARNESS_FIXED", "1");
        use std::os::unix::process::CommandExt;
        if let Ok(exe) = std::env::current_exe() {
            // only returns when it fails
            let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
        }
    }
}

fn main() {
    fixed_addresses();
    // local time is far from UTC: who uses it instead shows
    unsafe { std::env::set_var("TZ", "XST-14") };
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    rt::install_logger();
    load_known(&format!("{}/known_findings.jsonl", VERIF));
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("list"), _) => {
            for p in properties() {
                println!("{}", p.id());
            }
            0
        }
        (Some("check"), Some(id)) => match properties().iter().find(|p| p.id() == id.as_str()) {
            Some(p) => check(p.as_ref()),
            None => {
                eprintln!("unknown property {}", id);
                2
            }
        },
        (Some("replay"), Some(f)) => replay(f),
        _ => {
            eprintln!("usage: harness check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn now_s() -> f64 {
    // the clock is interposed only while a case sets it; the parent never does
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs_f64()).unwrap_or(0.0)
}

unsafe fn shared() -> *mut Shared {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<Shared>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        eprintln!("mmap failed");
        libc::_exit(2);
    }
    p as *mut Shared
}

struct Child {
    pid: i32,
    fd: i32,
    sh: *mut Shared,
    data: Vec<u8>,
    beat: u64,
    since: f64,
    open: bool,
    status: Option<i32>,
    killed: bool,
}

/// Runs `f` in a forked child and returns (its output, exit status); None for a stall.
fn in_child(limit_s: f64, f: impl FnOnce() -> Vec<u8>) -> (Vec<u8>, Option<i32>) {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return (vec![], None);
        }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            let out = f();
            write_all(fds[1], &out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let t0 = now_s();
        let mut data = vec![];
        let mut killed = false;
        loop {
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut pf, 1, 200);
            if n > 0 {
                if !read_some(fds[0], &mut data) {
                    break;
                }
            } else if now_s() - t0 > limit_s && !killed {
                killed = true;
                libc::kill(pid, libc::SIGKILL);
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (data, if killed { None } else { Some(st) })
    }
}
unsafe fn write_all(fd: i32, b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = libc::write(fd, b[i..].as_ptr() as *const _, b.len() - i);
        if n <= 0 {
            libc::_exit(3);
        }
        i += n as usize;
    }
}
unsafe fn read_some(fd: i32, data: &mut Vec<u8>) -> bool {
    let mut buf = vec![0u8; 1 << 16];
    let n = libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
    if n <= 0 {
        return false;
    }
    data.extend_from_slice(&buf[..n as usize]);
    true
}

/// Why a worker process died, when the death is the parser's doing.
fn death(st: i32) -> Option<String> {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
            return None;
        }
        return Some(format!("the process died from signal {} inside the parser", s));
    }
    if libc::WIFEXITED(st) {
        return match libc::WEXITSTATUS(st) {
            rt::EXIT_EDGES => Some("one call did unbounded work (over 20 million executed branches)".into()),
            rt::EXIT_ALLOC => Some("one call allocated over 1 GiB".into()),
            _ => None,
        };
    }
    None
}

struct Fail {
    stage: String,
    msg: String,
    choices: String,
    transcript: String,
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn check(p: &dyn Property) -> i32 {
    let t0 = now_s();
    let seed = seed_env();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let ev_path = format!("{}/evidence/{}.json", VERIF, p.id());
    let _ = std::fs::create_dir_all(format!("{}/evidence", VERIF));
    let _ = std::fs::remove_file(&ev_path);
    let _ = msg::dict();
    let mut kids: Vec<Child> = vec![];
    unsafe {
        for w in 0..WORKERS {
            let sh = shared();
            let mut fds = [0i32; 2];
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                eprintln!("pipe failed");
                return 2;
            }
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("fork failed");
                return 2;
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                for k in &kids {
                    libc::close(k.fd);
                }
                rt::HASH_SEED = mix(seed, w, 9);
                let (lines, hashes) = worker(p, w, seed, thorough, sh);
                rt::CLOCK = None;
                let mut out = lines.join("\n").into_bytes();
                out.extend_from_slice(b"\nHASHES\n");
                for h in hashes {
                    out.extend_from_slice(&h.to_le_bytes());
                }
                write_all(fds[1], &out);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push(Child { pid, fd: fds[0], sh, data: vec![], beat: 0, since: now_s(), open: true, status: None, killed: false });
        }
        // collect
        let mut stalled = false;
        let mut hung: Vec<usize> = vec![];
        let mut grace: Option<f64> = None;
        loop {
            let mut pf: Vec<libc::pollfd> = kids.iter().filter(|k| k.open).map(|k| libc::pollfd { fd: k.fd, events: libc::POLLIN, revents: 0 }).collect();
            if pf.is_empty() {
                break;
            }
            libc::poll(pf.as_mut_ptr(), pf.len() as u64, 250);
            let now = now_s();
            for q in &pf {
                if q.revents != 0 {
                    let k = kids.iter_mut().find(|k| k.fd == q.fd).unwrap();
                    if !read_some(k.fd, &mut k.data) {
                        k.open = false;
                        libc::close(k.fd);
                        let mut st = 0;
                        libc::waitpid(k.pid, &mut st, 0);
                        k.status = Some(st);
                        let failed = st != 0 || k.data.starts_with(b"FAIL");
                        if failed && grace.is_none() {
                            grace = Some(now + 20.0);
                        }
                    }
                }
            }
            for (w, k) in kids.iter_mut().enumerate().filter(|(_, k)| k.open) {
                let b = std::ptr::read_volatile(&(*k.sh).beat);
                if b != k.beat {
                    k.beat = b;
                    k.since = now;
                } else if now - k.since > STALL_S as f64 {
                    if std::ptr::read_volatile(&(*k.sh).inside) == 1 {
                        hung.push(w);
                    } else {
                        stalled = true;
                    }
                    k.killed = true;
                    libc::kill(k.pid, libc::SIGKILL);
                    k.since = now;
                }
                if grace.map_or(false, |g| now > g) {
                    k.killed = true;
                    libc::kill(k.pid, libc::SIGKILL);
                }
            }
        }
        // merge
        let mut tally = [0u64; 9];
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut fails: Vec<Fail> = vec![];
        let mut broken: Vec<String> = vec![];
        let mut distinct: HashSet<u64> = HashSet::new();
        for (w, k) in kids.iter().enumerate() {
            let st = k.status.unwrap_or(0);
            if st != 0 {
                match death(st) {
                    _ if hung.contains(&w) => fails.push(dead_case(p, k.sh, &format!("one call did not return in {} s", STALL_S))),
                    Some(why) if !k.killed => fails.push(dead_case(p, k.sh, &why)),
                    _ if k.killed => {}
                    _ => broken.push(format!("worker {} ended with status {:#x}", w, st)),
                }
                continue;
            }
            let cut = find(&k.data, b"\nHASHES\n");
            let (text, raw) = match cut {
                Some(i) => (&k.data[..i], &k.data[i + 8..]),
                None => {
                    broken.push(format!("worker {} gave no result", w));
                    continue;
                }
            };
            for c in raw.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            }
            for l in String::from_utf8_lossy(text).lines() {
                if let Some(r) = l.strip_prefix("TALLY ") {
                    for (i, v) in r.split(' ').enumerate().take(9) {
                        let v: u64 = v.parse().unwrap_or(0);
                        if i == 8 {
                            tally[i] = tally[i].max(v);
                        } else {
                            tally[i] += v;
                        }
                    }
                } else if let Some(r) = l.strip_prefix("CLASS ") {
                    if let Some((n, c)) = r.split_once('\t') {
                        *classes.entry(c.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                } else if let Some(r) = l.strip_prefix("KNOWN ") {
                    let v: Vec<&str> = r.split('\t').collect();
                    let e = known.entry(v[0].to_string()).or_insert((0, v[2].to_string()));
                    e.0 += v[1].parse::<u64>().unwrap_or(0);
                } else if let Some(r) = l.strip_prefix("SAMPLE ") {
                    if samples.len() < 8 {
                        samples.push(r.to_string());
                    }
                } else if let Some(r) = l.strip_prefix("FAIL ") {
                    let v: Vec<&str> = r.split('\t').collect();
                    fails.push(Fail { stage: v[0].into(), msg: v[1].into(), choices: v[2].into(), transcript: v[3].into() });
                } else if let Some(r) = l.strip_prefix("BROKEN ") {
                    broken.push(r.to_string());
                }
            }
        }
        if stalled {
            broken.push(format!("a worker did not finish a case in {} s", STALL_S));
        }
        // the smallest reproduction first
        fails.sort_by_key(|f| (f.choices.len(), f.msg.clone()));
        let wall = now_s() - t0;
        let eval = tally[0] + tally[1] + tally[2] + tally[3] + tally[4];
        if eval > 0 && fails.is_empty() && broken.is_empty() && distinct.is_empty() {
            broken.push("no non-trivial case was generated".into());
        }
        let ev = format!(
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\
\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\
\"cases\":{{\"regression_sets\":{},\"exhaustive\":{},\"systematic_sweep\":{},\"random\":{},\"coverage_guided\":{}}},\
\"parse_calls\":{},\"nontrivial_with_repeats\":{},\"guided_corpus\":{},\"branches_reached_in_crate\":{},\
\"classes\":{{{}}},\"known_findings_seen\":{{{}}},\"exhaustive_part\":{}{}}},\
\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            jesc(p.id()),
            if thorough { "thorough" } else { "quick" },
            seed as i64,
            eval,
            distinct.len(),
            jesc(p.rule()),
            samples.join(","),
            tally[0],
            tally[1],
            tally[2],
            tally[3],
            tally[4],
            tally[5],
            tally[6],
            tally[7],
            tally[8],
            classes.iter().map(|(k, v)| format!("{}:{}", jesc(k), v)).collect::<Vec<_>>().join(","),
            known.iter().map(|(k, v)| format!("{}:{}", jesc(k), v.0)).collect::<Vec<_>>().join(","),
            if p.exhaustive_note().is_some() { "true" } else { "false" },
            p.exhaustive_note().map_or(String::new(), |n| format!(",\"exhaustive_space\":{}", jesc(n))),
            p.assumptions().iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","),
            wall,
            fails.len()
        );
        let _ = std::fs::write(&ev_path, ev);
        println!(
            "{}: {} cases ({} regression, {} exhaustive, {} sweep, {} random, {} guided), {} distinct non-trivial, {} parser calls, {} branches, {:.1} s, seed {}",
            p.id(),
            eval,
            tally[0],
            tally[1],
            tally[2],
            tally[3],
            tally[4],
            distinct.len(),
            tally[5],
            tally[8],
            wall,
            seed as i64
        );
        if let Some(f) = fails.first() {
            let dir = format!("{}/replays", VERIF);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-seed{}-{}.json", dir, p.id(), seed as i64, f.stage);
            let body = format!(
                "{{\"property\":{},\"stage\":{},\"seed\":{},\"message\":{},\"choices\":\"{}\",\"transcript\":{}}}\n",
                jesc(p.id()),
                jesc(&f.stage),
                seed as i64,
                f.msg,
                f.choices,
                f.transcript
            );
            let _ = std::fs::write(&path, body);
            println!("{}", jstr(&format!("{{\"m\":{}}}", f.msg), "m").unwrap_or_default());
            println!("{}", jstr(&format!("{{\"m\":{}}}", f.transcript), "m").unwrap_or_default());
            println!("VIOLATION property={} replay={}", p.id(), path);
            return 1;
        }
        if !broken.is_empty() {
            for b in broken {
                eprintln!("no answer: {}", b);
            }
            return 2;
        }
        for e in KNOWN.get().into_iter().flatten().filter(|e| e.1 == p.id()) {
            println!("KNOWN-FINDING: property={} {}", e.1, e.2);
        }
        0
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    // the text part contains no raw newline-HASHES-newline of its own
    h.windows(n.len()).position(|w| w == n)
}

/// The case that killed a worker is in the shared memory: minimise it with one process per attempt.
fn dead_case(p: &dyn Property, sh: *mut Shared, why: &str) -> Fail {
    unsafe {
        let stage = match (*sh).stage {
            1 => "regress",
            2 => "exhaustive",
            3 => "sweep",
            4 => "random",
            _ => "guided",
        };
        let n = (*sh).len as usize;
        let start: Vec<u64> = (&(*sh).buf)[..n].to_vec();
        if (*sh).stage <= 2 {
            return Fail { stage: stage.into(), msg: jesc(why), choices: String::new(), transcript: jesc(why) };
        }
        if why.contains("did not return") {
            return Fail { stage: stage.into(), msg: jesc(why), choices: fmt_choices(&start), transcript: jesc(why) };
        }
        let t0 = now_s();
        let tmp = shared();
        let best = shrink(start.clone(), 400, &mut |c| {
            if now_s() - t0 > 60.0 {
                return None;
            }
            let (_, st) = in_child(20.0, || {
                let mut ctx = Ctx::new(false);
                run_case(p, c, None, tmp, &mut ctx);
                vec![]
            });
            match st {
                Some(s) if death(s).is_some() => Some((&(*tmp).buf)[..(*tmp).len as usize].to_vec()),
                _ => None,
            }
        });
        let note = format!("{} (the last call before the death is the one that never returned)", why);
        Fail { stage: stage.into(), msg: jesc(why), choices: fmt_choices(&best), transcript: jesc(&note) }
    }
}

fn replay(f: &str) -> i32 {
    let s = match std::fs::read_to_string(f) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let id = jstr(&s, "property").unwrap_or_default();
    let stage = jstr(&s, "stage").unwrap_or_default();
    let props = properties();
    let p = match props.iter().find(|p| p.id() == id) {
        Some(p) => p.as_ref(),
        None => {
            eprintln!("no property {:?}", id);
            return 2;
        }
    };
    let ch: Vec<u64> = jstr(&s, "choices").unwrap_or_default().split(',').filter_map(|v| v.parse().ok()).collect();
    let sh = unsafe { shared() };
    let (out, st) = in_child(600.0, || {
        let mut ctx = Ctx::new(true);
        let o = match stage.as_str() {
            "regress" => protect(|| p.regress(&mut ctx)),
            "exhaustive" => protect(|| {
                for w in 0..WORKERS {
                    p.exhaustive(w, WORKERS, &mut ctx, &mut || {})?;
                }
                Ok(())
            }),
            _ => run_case(p, &ch, None, sh, &mut ctx).0,
        };
        let mut out = ctx.transcript.join("\n");
        out.push('\n');
        match o {
            Outcome::Ok => out.push_str("OK: the property holds on this case"),
            Outcome::Fail(m) => out.push_str(&format!("FAILED: {}", m)),
            Outcome::Broken(m) => out.push_str(&format!("BROKEN: {}", m)),
        }
        out.into_bytes()
    });
    let text = String::from_utf8_lossy(&out).to_string();
    println!("{}", text);
    match st {
        Some(s) if death(s).is_some() => {
            println!("FAILED: {}", death(s).unwrap());
            println!("VIOLATION property={} replay={}", id, f);
            1
        }
        Some(0) if text.contains("\nFAILED: ") => {
            println!("VIOLATION property={} replay={}", id, f);
            1
        }
        Some(0) if !text.contains("\nBROKEN: ") => 0,
        _ => 2,
    }
}
