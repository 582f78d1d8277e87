//! Search, shrinking, replay and evidence.  The parent never runs code of diffy: every batch of runs
//! executes in a forked child, so each starts from the same pristine process image.
mod api;
mod gen;
mod model;
mod net;
mod rt;
mod stats;
mod sys;
mod worlds;

use rt::{mix, Choices};
use stats::{get, C};
use std::sync::atomic::Ordering::{Relaxed, SeqCst};
use std::time::Instant;

struct Prop {
    id: &'static str,
    world: fn(),
    batch: u64,
    quick: u64,
    thorough: u64,
    real: &'static str,
    stub: &'static str,
    rule: &'static str,
}
const REAL: &str = "all of diffy, compiled from /repo with overflow checks and a callback on every basic-block edge; std";
const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        world: worlds::sink::c01,
        batch: 100,
        quick: 250_000,
        thorough: 15_000_000,
        real: "diffy (patch creation, parsing, all formatters); std::io::BufWriter and Write::write_all",
        stub: "the byte device and the text sink behind the writer; the thread scheduler; randomness and clocks of the process",
        rule: "one run = one seeded patch and option set written by 1-3 tasks to sinks that shorten, interrupt and stall; non-trivial = at least one fault fired; distinct by a digest of all events and all delivered bytes",
    },
    Prop {
        id: "C02",
        world: worlds::sink::c02,
        batch: 100,
        quick: 250_000,
        thorough: 15_000_000,
        real: "diffy (patch creation, parsing, all formatters); std::io::BufWriter and Write::write_all",
        stub: "the byte device and the text sink behind the writer; the thread scheduler; randomness and clocks of the process",
        rule: "one run = one seeded patch and option set written by 1-3 tasks to sinks that fail at seeded offsets, then retried; non-trivial = at least one fault fired; distinct by a digest of all events and all delivered bytes",
    },
    Prop {
        id: "C03",
        world: worlds::courier::c03,
        batch: 100,
        quick: 400_000,
        thorough: 24_000_000,
        real: REAL,
        stub: "author's disk, network between 2-5 nodes, crashes, clock",
        rule: "one run = one seeded pair of texts whose patch is saved on a faulty disk and relayed over a lossy network; non-trivial = at least one fault fired; distinct by a digest of all events and stored bytes",
    },
    Prop {
        id: "C04",
        world: worlds::torn::c04,
        batch: 50,
        quick: 250_000,
        thorough: 15_000_000,
        real: REAL,
        stub: "the device that dies after k bytes",
        rule: "one run = one seeded patch cut after every byte (after 70 seeded bytes when longer than 260); non-trivial = at least one cut; distinct by a digest of what was accepted or rejected at each cut",
    },
    Prop {
        id: "C05",
        world: worlds::damage::c05,
        batch: 100,
        quick: 700_000,
        thorough: 42_000_000,
        real: REAL,
        stub: "the storage that damages the file",
        rule: "one run = one seeded patch file damaged 0-4 times, then parsed by both parsers, re-rendered, reversed and applied; non-trivial = at least one damage; distinct by a digest of the damaged file and the outcomes",
    },
    Prop {
        id: "C06",
        world: worlds::bounded::c06,
        batch: 50,
        quick: 300_000,
        thorough: 18_000_000,
        real: REAL,
        stub: "storage damage, the misbehaving sink, the allocator's accounting, the clock that counts basic blocks",
        rule: "one run = one seeded damaged patch, misbehaving sink or pair of texts, with every operation's steps and memory metered; non-trivial = at least one fault fired; distinct by a digest of inputs, step counts and outcomes",
    },
    Prop {
        id: "C07",
        world: worlds::drift::c07,
        batch: 100,
        quick: 700_000,
        thorough: 42_000_000,
        real: REAL,
        stub: "network delivering patches late, twice and out of order; tools that skew line numbers",
        rule: "one run = 1-4 seeded patches delivered to 1-3 drifted replicas; non-trivial = at least one fault fired; distinct by a digest of deliveries and outcomes",
    },
    Prop {
        id: "C08",
        world: worlds::converge::c08,
        batch: 100,
        quick: 300_000,
        thorough: 18_000_000,
        real: REAL,
        stub: "network, replica disks, crashes, clock",
        rule: "one run = 1-4 authors' patch streams delivered to 1-3 replicas over a lossy network until all caught up; non-trivial = at least one fault fired; distinct by a digest of deliveries and final texts",
    },
    Prop {
        id: "C09",
        world: worlds::journal::c09,
        batch: 100,
        quick: 600_000,
        thorough: 36_000_000,
        real: REAL,
        stub: "the journal's disk and the crash",
        rule: "one run = a journal of 1-6 patches cut by a crash and a recovery walk over all surviving versions; non-trivial = at least one fault fired; distinct by a digest of versions and walk",
    },
    Prop {
        id: "C10",
        world: worlds::mergesync::c10,
        batch: 100,
        quick: 300_000,
        thorough: 18_000_000,
        real: REAL,
        stub: "network, server, client disks, crashes, clock",
        rule: "one run = 2-4 clients syncing one document by merges over a lossy network until all agree; non-trivial = at least one fault fired; distinct by a digest of deliveries, merge outputs and the final text",
    },
    Prop {
        id: "C11",
        world: worlds::isolate::c11,
        batch: 1,
        quick: 24_000,
        thorough: 1_440_000,
        real: REAL,
        stub: "thread scheduler (preemption at any basic block of diffy, stalled tasks), futexes, hash seeds, clocks, failing sinks",
        rule: "one run = 1-6 seeded calls, first each alone in a pristine process, then by 2-4 preempted tasks or in a history of up to 120 calls (one run in 24: a history of up to 500 calls in one order here and another order in a second process); non-trivial = at least one fault (preemption, stall, failing sink, ...) fired; distinct by a digest of schedule and results",
    },
    Prop {
        id: "C12",
        world: worlds::longevity::c12,
        batch: 4,
        quick: 2_000,
        thorough: 120_000,
        real: REAL,
        stub: "thread scheduler, failing and panicking sinks, the allocator's ledger, the clock that counts basic blocks",
        rule: "one run = eight rounds of up to 400 calls each on texts of their own, with every outcome, on one or on many threads; non-trivial = at least one fault fired; distinct by a digest of calls and costs",
    },
    Prop {
        id: "C13",
        world: worlds::peers::c13,
        batch: 100,
        quick: 300_000,
        thorough: 18_000_000,
        real: REAL,
        stub: "network, peers' durable state, restarts, clock",
        rule: "one run = two peers (and a listener) that work on one text of any kind for up to several rounds and merge each other's versions; non-trivial = at least one fault fired; distinct by event digest",
    },
    Prop {
        id: "C14",
        world: worlds::guard::c14,
        batch: 100,
        quick: 300_000,
        thorough: 18_000_000,
        real: REAL,
        stub: "network, the store's disk, restarts, clock",
        rule: "one run = up to five clients that edit one document without locks and send patches against the version they have seen; non-trivial = at least one fault fired; distinct by event digest",
    },
    Prop {
        id: "C15",
        world: worlds::scarce::c15,
        batch: 20,
        quick: 24_000,
        thorough: 1_440_000,
        real: REAL,
        stub: "the allocator, which refuses seeded requests; each attempt is made in a process of its own",
        rule: "one run = one seeded call, made once with enough memory and then one to twenty-four times in forked processes whose allocator refuses seeded requests; non-trivial = at least one request was refused; distinct by event digest",
    },
    Prop {
        id: "C16",
        world: worlds::stack::c16,
        batch: 4,
        quick: 4_000,
        thorough: 240_000,
        real: REAL,
        stub: "the stack of the calling thread (measured and limited at every basic block), sinks that interrupt and shorten writes, damage to stored patches",
        rule: "one run = a long patch, long texts or a sink with many faults, and every call that takes them, on a thread with little stack; non-trivial = at least one fault fired; distinct by event digest",
    },
];

struct Known {
    property: String,
    class: String,
    needle: String,
    what: String,
}
/// Lines "known: property=<id> class=<class> match=<text> what=<text>"; "fixed:" lines suppress nothing.
fn known_findings() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let f = |k: &str, end: &str| -> Option<String> {
                let a = r.find(k)? + k.len();
                let e = if end.is_empty() { r.len() } else { a + r[a..].find(end)? };
                Some(r[a..e].to_string())
            };
            if let (Some(property), Some(class), Some(needle), Some(what)) =
                (f("property=", " "), f("class=", " "), f("match=", " what="), f("what=", ""))
            {
                v.push(Known { property, class, needle, what });
            }
        }
    }
    v
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
fn prop_no(id: &str) -> u64 {
    id.bytes().fold(7, |a, b| mix(a ^ b as u64))
}
fn run_seed(id: &str, seed: u64, run: u64) -> u64 {
    let salt = if shipped() { 0x5819_9ed0 } else { 0 };
    mix(mix(seed ^ prop_no(id) ^ salt).wrapping_add(mix(run)))
}
/// Whether diffy is compiled into this binary without debug assertions and overflow checks.
fn shipped() -> bool {
    static S: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *S.get_or_init(|| exe().parent().is_some_and(|d| d.ends_with("shipped")))
}
fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap_or_else(|_| fail("finding this program"))
}
/// The same simulator around the other build of diffy.
fn other_build() -> std::path::PathBuf {
    let name = if shipped() { "release" } else { "shipped" };
    let e = exe();
    let target = e.parent().and_then(|d| d.parent()).unwrap_or_else(|| fail("finding the builds"));
    target.join(name).join("diffy-sim")
}

fn wait(pid: i32) -> i32 {
    let mut st = 0;
    unsafe { while sys::waitpid(pid, &mut st, 0) < 0 && *sys::__errno_location() == 4 {} }
    st
}
fn die_with_parent() {
    unsafe {
        sys::prctl(1, 9, 0, 0, 0);
    }
}
/// Runs `f` in a forked child and returns what it produced and its wait status.
fn capture(f: impl FnOnce() -> Vec<u8>) -> (Vec<u8>, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        if sys::pipe(fds.as_mut_ptr()) != 0 {
            fail("pipe");
        }
        let pid = sys::fork();
        if pid < 0 {
            fail("fork");
        }
        if pid == 0 {
            die_with_parent();
            let v = f();
            let mut i = 0;
            while i < v.len() {
                let n = sys::write(fds[1], v[i..].as_ptr(), v.len() - i);
                if n <= 0 {
                    break;
                }
                i += n as usize;
            }
            sys::_exit(0);
        }
        sys::close(fds[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = sys::read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        sys::close(fds[0]);
        (v, wait(pid))
    }
}
fn fail(what: &str) -> ! {
    eprintln!("{} failed", what);
    std::process::exit(2)
}
fn death(st: i32) -> Option<(String, String)> {
    let sig = st & 0x7f;
    if sig == 14 {
        return Some(("hang".into(), "a run did not finish: an operation never returned".into()));
    }
    if sig != 0 {
        return Some(("crash".into(), format!("the process died with signal {}", sig)));
    }
    if st != 0 {
        return Some(("crash".into(), format!("the process exited with status {}", st >> 8)));
    }
    None
}
const RUN_ALARM: u32 = 100;

fn batch(p: &Prop, seed: u64, from: u64, to: u64, slot: usize, known: &[Known]) {
    for run in from..to {
        if stats::sh().vrun.load(SeqCst) <= run {
            return;
        }
        stats::sh().cur_run[slot].store(run, SeqCst);
        unsafe { sys::alarm(RUN_ALARM) };
        let o = rt::execute(Choices::random(run_seed(p.id, seed, run)), false, p.world);
        if o.nfaults > 0 {
            stats::push_digest(o.digest);
        }
        if o.sched != 0 {
            stats::push_sched(o.sched);
        }
        if let Some((c, m)) = o.viol {
            if let Some(i) = is_known(p.id, &c, &m, known) {
                stats::sh().known[i].fetch_add(1, Relaxed);
                continue;
            }
            stats::record_violation(run, &c, &m);
            return;
        }
    }
}
fn is_known(id: &str, c: &str, m: &str, known: &[Known]) -> Option<usize> {
    known.iter().position(|k| k.property == id && k.class == c && m.contains(&k.needle))
}
fn search(p: &Prop, seed: u64, total: u64, workers: usize, cap_s: f64, known: &[Known]) {
    let t0 = Instant::now();
    let mut pids = vec![];
    for slot in 0..workers {
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            fail("fork");
        }
        if pid == 0 {
            die_with_parent();
            loop {
                let b = stats::sh().next_batch.fetch_add(1, SeqCst);
                let (from, to) = (b * p.batch, ((b + 1) * p.batch).min(total));
                if from >= total || stats::sh().vrun.load(SeqCst) <= from || t0.elapsed().as_secs_f64() > cap_s {
                    break;
                }
                let pid = unsafe { sys::fork() };
                if pid < 0 {
                    unsafe { sys::_exit(3) }
                }
                if pid == 0 {
                    die_with_parent();
                    batch(p, seed, from, to, slot, known);
                    unsafe { sys::_exit(0) }
                }
                if let Some((c, m)) = death(wait(pid)) {
                    let run = stats::sh().cur_run[slot].load(SeqCst);
                    stats::record_violation(run, &c, &m);
                }
            }
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
    }
    for pid in pids {
        if wait(pid) != 0 {
            fail("a worker");
        }
    }
}

// ---------------------------------------------------------------- one run again

struct Again {
    class: String,
    msg: String,
    digest: u64,
    rec: Vec<u64>,
    trace: Vec<String>,
}
/// Executes one run in a fresh process, after the runs of `prelude`.
fn again(p: &Prop, seed: u64, prelude: Option<(u64, u64)>, choices: Choices, trace: bool) -> Again {
    let s = stats::sh();
    s.nrec.store(0, SeqCst);
    s.last_digest.store(0, SeqCst);
    stats::clear_violation();
    let (out, st) = capture(move || {
        if let Some((a, b)) = prelude {
            for r in a..b {
                unsafe { sys::alarm(RUN_ALARM) };
                rt::execute(Choices::random(run_seed(p.id, seed, r)), false, p.world);
            }
        }
        unsafe { sys::alarm(RUN_ALARM) };
        let mut c = choices;
        c.share = true;
        let o = rt::execute(c, trace, p.world);
        stats::sh().last_digest.store(o.digest, SeqCst);
        if let Some((c, m)) = o.viol {
            stats::record_violation(0, &c, &m);
        }
        o.trace.join("\n").into_bytes()
    });
    let (class, msg) = match death(st) {
        Some(x) => x,
        None => stats::violation().map(|v| (v.1, v.2)).unwrap_or_default(),
    };
    let n = (s.nrec.load(SeqCst) as usize).min(s.rec.len());
    let rec = s.rec[..n].iter().map(|x| x.load(Relaxed)).collect();
    let trace = if out.is_empty() { vec![] } else { String::from_utf8_lossy(&out).lines().map(|l| l.to_string()).collect() };
    Again { class, msg, digest: s.last_digest.load(SeqCst), rec, trace }
}
fn shrink(p: &Prop, seed: u64, prelude: Option<(u64, u64)>, first: Again, budget_s: f64) -> Again {
    let t0 = Instant::now();
    let mut best = first;
    let mut tries = 0;
    let over = |tries: u32| tries > 6000 || t0.elapsed().as_secs_f64() > budget_s;
    let smaller = |a: &[u64], b: &[u64]| -> bool {
        (a.len(), a.iter().filter(|x| **x != 0).count(), a.iter().map(|x| *x as u128).sum::<u128>())
            < (b.len(), b.iter().filter(|x| **x != 0).count(), b.iter().map(|x| *x as u128).sum::<u128>())
    };
    // trailing zeros need not be stored: a missing choice is 0
    let trim = |v: &mut Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    trim(&mut best.rec);
    let attempt = |v: Vec<u64>, best: &mut Again, tries: &mut u32| -> bool {
        *tries += 1;
        let mut a = again(p, seed, prelude, Choices::replay(v), false);
        trim(&mut a.rec);
        if a.class == best.class && smaller(&a.rec, &best.rec) {
            *best = a;
            return true;
        }
        false
    };
    loop {
        let before = best.rec.clone();
        let mut size = (best.rec.len() / 2).max(1);
        while size >= 1 && !over(tries) {
            let mut i = best.rec.len();
            while i > 0 && !over(tries) {
                let s = i.saturating_sub(size);
                let e = i.min(best.rec.len());
                if s < e {
                    let mut v = best.rec.clone();
                    v.drain(s..e);
                    if !attempt(v, &mut best, &mut tries) {
                        let mut v = best.rec.clone();
                        if v[s..e].iter().any(|x| *x != 0) {
                            v[s..e].fill(0);
                            attempt(v, &mut best, &mut tries);
                        }
                    }
                }
                i = s.min(best.rec.len());
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.rec.len() && !over(tries) {
            let x = best.rec[i];
            for y in [x / 2, x.saturating_sub(1)] {
                if y < x && i < best.rec.len() && best.rec[i] == x {
                    let mut v = best.rec.clone();
                    v[i] = y;
                    attempt(v, &mut best, &mut tries);
                }
            }
            i += 1;
        }
        if best.rec == before || over(tries) {
            break;
        }
    }
    eprintln!("shrunk to {} choices in {} attempts", best.rec.len(), tries);
    best
}

// ---------------------------------------------------------------- output

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn write_replay(p: &Prop, seed: u64, run: u64, prelude: Option<(u64, u64)>, a: &Again, exact: bool) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let build = if shipped() { "shipped" } else { "release" };
    let path = format!("{}/{}-{}seed{}-run{}.json", dir, p.id, if shipped() { "shipped-" } else { "" }, seed, run);
    let mut t = String::from("{\n");
    t.push_str(&format!("\"property\":{},\n\"seed\":{},\n\"run\":{},\n\"build\":{},\n", js(p.id), seed, run, js(build)));
    t.push_str(&format!("\"class\":{},\n\"message\":{},\n", js(&a.class), js(&a.msg)));
    t.push_str(&format!("\"digest\":\"{:016x}\",\n\"reproduces_exactly\":{},\n", a.digest, exact));
    if let Some((x, y)) = prelude {
        t.push_str(&format!("\"prelude\":[{},{}],\n", x, y));
    }
    let c: Vec<String> = a.rec.iter().map(|x| x.to_string()).collect();
    t.push_str(&format!("\"choices\":[{}],\n", c.join(",")));
    let l: Vec<String> = a.trace.iter().map(|x| js(x)).collect();
    t.push_str(&format!("\"trace\":[\n{}\n]\n}}\n", l.join(",\n")));
    if std::fs::write(&path, t).is_err() {
        fail("writing the replay file");
    }
    path
}
fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let key = format!("\n\"{}\":", k);
    let a = t.find(&key)? + key.len();
    let e = a + t[a..].find('\n')?;
    Some(t[a..e].trim_end_matches(','))
}
fn nums(s: &str) -> Vec<u64> {
    s.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_else(|_| fail("reading the replay file"));
    let id = field(&t, "property").unwrap_or("").trim_matches('"').to_string();
    let p = prop(&id);
    if (field(&t, "build") == Some("\"shipped\"")) != shipped() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(other_build()).args(["replay", path]).exec();
        eprintln!("the other build does not start: {}", e);
        return 2;
    }
    let seed = field(&t, "seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let class = field(&t, "class").unwrap_or("").trim_matches('"').to_string();
    let digest = field(&t, "digest").unwrap_or("").trim_matches('"').to_string();
    let choices = nums(field(&t, "choices").unwrap_or(""));
    let prelude = field(&t, "prelude").map(nums).filter(|v| v.len() == 2).map(|v| (v[0], v[1]));
    let a = again(p, seed, prelude, Choices::replay(choices), true);
    for l in &a.trace {
        println!("  {}", l);
    }
    if a.class.is_empty() {
        println!("the recorded violation ({}) does not occur", class);
        return 0;
    }
    println!("{}: {}", a.class, a.msg);
    println!(
        "{} (digest {:016x}, recorded {})",
        if a.class == class && format!("{:016x}", a.digest) == digest { "identical execution" } else { "execution differs from the recorded one" },
        a.digest,
        digest
    );
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

fn samples(p: &Prop, seed: u64) -> Vec<String> {
    let mut v = vec![];
    for run in 0..40 {
        let (o, _) = capture(|| {
            unsafe { sys::alarm(RUN_ALARM) };
            let o = rt::execute(Choices::random(run_seed(p.id, seed, run)), true, p.world);
            let mut t: Vec<String> = o.trace.iter().take(14).map(|l| l.chars().take(300).collect()).collect();
            if o.trace.len() > 14 {
                t.push(format!("... {} more events", o.trace.len() - 14));
            }
            if o.nfaults == 0 || t.len() < 3 {
                return vec![];
            }
            format!("run {} (seed {:#x}, digest {:016x}): {}", run, run_seed(p.id, seed, run), o.digest, t.join(" | ")).into_bytes()
        });
        if !o.is_empty() {
            v.push(String::from_utf8_lossy(&o).into_owned());
        }
        if v.len() >= 3 {
            break;
        }
    }
    v
}
struct Counted {
    counts: Vec<u64>,
    distinct: usize,
    scheds: usize,
    cov: usize,
    maxes: Vec<u64>,
    known: Vec<u64>,
    wall: f64,
}
fn snapshot(wall: f64) -> Counted {
    let s = stats::sh();
    Counted {
        counts: s.counts.iter().map(|x| x.load(SeqCst)).collect(),
        distinct: stats::distinct_digests(),
        scheds: stats::distinct_scheds(),
        cov: stats::coverage(),
        maxes: s.maxes.iter().map(|x| x.load(SeqCst)).collect(),
        known: s.known.iter().map(|x| x.load(SeqCst)).collect(),
        wall,
    }
}
#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, planned: u64, c: &Counted, samples: &[String], viols: u64, wall: f64, workers: usize, second: &str) {
    let runs = c.counts[C::runs as usize];
    let group = |pre: &str| -> String {
        let v: Vec<String> = stats::NAMES
            .iter()
            .zip(&c.counts)
            .filter(|(n, k)| n.starts_with(pre) && **k > 0)
            .map(|(n, k)| format!("{}:{}", js(&n[2..]), k))
            .collect();
        format!("{{{}}}", v.join(","))
    };
    let per_hour = if c.wall > 0.0 { (runs as f64 / c.wall * 3600.0) as u64 } else { 0 };
    let mut t = String::from("{\n");
    t.push_str(&format!("\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n", js(p.id), js(tier), seed));
    t.push_str("\"coverage\":{\n");
    t.push_str(&format!("\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n", runs, c.distinct, js(p.rule)));
    let sm: Vec<String> = samples.iter().map(|s| js(s)).collect();
    t.push_str(&format!("\"samples\":[{}],\n", sm.join(",\n")));
    t.push_str(&format!("\"planned_runs\":{},\n\"seeds_per_hour\":{},\n\"workers\":{},\n", planned, per_hour, workers));
    t.push_str(&format!("\"simulated_seconds\":{:.3},\n", c.counts[C::sim_ns as usize] as f64 / 1e9));
    t.push_str(&format!(
        "\"calls_into_diffy\":{},\n\"basic_blocks_executed\":{},\n",
        c.counts[C::api_calls as usize],
        c.counts[C::ticks as usize]
    ));
    t.push_str(&format!("\"task_switches\":{},\n\"distinct_interleavings\":{},\n", c.counts[C::switches as usize], c.scheds));
    t.push_str(&format!(
        "\"basic_block_edges_reached\":{},\n\"basic_block_edges_instrumented\":{},\n",
        c.cov,
        rt::NGUARDS.load(Relaxed)
    ));
    t.push_str(&format!("\"faults_injected\":{},\n\"conditions_reached\":{},\n", group("f_"), group("p_")));
    let labels = match p.id {
        "C06" => worlds::bounded::LABELS,
        "C12" => worlds::longevity::LABELS,
        "C16" => worlds::stack::LABELS,
        _ => &[],
    };
    if !labels.is_empty() {
        let v: Vec<String> = labels
            .iter()
            .enumerate()
            .map(|(i, n)| format!("{}:{}", js(n), c.maxes[i]))
            .collect();
        t.push_str(&format!("\"largest_cost_in_thousandths_of_the_bound\":{{{}}},\n", v.join(",")));
    }
    if !second.is_empty() {
        t.push_str(&format!("\"build_without_debug_assertions_and_overflow_checks\":{},\n", second));
    }
    t.push_str(&format!("\"real_components\":{},\n\"simulated_components\":{}\n", js(p.real), js(p.stub)));
    t.push_str("},\n\"assumptions\":[");
    let a = [
        "a seeded search: it shows that no explored run violates the property, not that no run does",
        "instructions between two basic-block boundaries of diffy execute atomically and memory is sequentially consistent",
        "the reference models in /verif/sim/src/model.rs and the checks in /verif/sim/src/worlds state the property correctly",
    ];
    let a: Vec<String> = a.iter().map(|x| js(x)).collect();
    t.push_str(&format!("{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n", a.join(",\n"), wall, viols));
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, p.id), t).is_err() {
        fail("writing the evidence");
    }
}
fn workers() -> usize {
    std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
        .clamp(1, 64)
}
fn check(id: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let (mut total, mut cap) = if tier == "quick" { (p.quick, 200.0) } else { (p.thorough, 5400.0) };
    if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|x| x.parse().ok()) {
        total = n;
    }
    // the build as shipped gets a fifth of the runs, with seeds of its own
    if shipped() {
        total = (total / 5).max(1);
        cap /= 4.0;
    }
    let known = known_findings();
    let w = workers();
    search(p, seed, total, w, cap, &known);
    let c = snapshot(t0.elapsed().as_secs_f64());
    let found = stats::violation();
    for (i, k) in known.iter().enumerate() {
        if k.property == p.id && !shipped() {
            println!("KNOWN-FINDING: property={} {} (met in {} runs)", p.id, k.what, c.known[i]);
        }
    }
    let (run, class, msg) = match found {
        None if shipped() => {
            println!(
                "SECOND {{\"evaluations\":{},\"distinct_nontrivial\":{},\"distinct_interleavings\":{},\"basic_block_edges_reached\":{},\"calls_into_diffy\":{},\"wall_s\":{:.2}}}",
                c.counts[C::runs as usize],
                c.distinct,
                c.scheds,
                c.cov,
                c.counts[C::api_calls as usize],
                t0.elapsed().as_secs_f64()
            );
            return 0;
        }
        None => {
            let s = samples(p, seed);
            let o = std::process::Command::new(other_build()).args(["check", id]).stderr(std::process::Stdio::inherit()).output();
            let o = o.unwrap_or_else(|_| fail("starting the build without debug assertions"));
            let out = String::from_utf8_lossy(&o.stdout);
            let second = match (o.status.code(), out.lines().find_map(|l| l.strip_prefix("SECOND "))) {
                (Some(0), Some(second)) => second,
                // it has written the replay file and the evidence
                (Some(code @ (1 | 2)), _) => {
                    print!("{}", out);
                    return code;
                }
                _ => fail("the build without debug assertions"),
            };
            evidence(p, tier, seed, total, &c, &s, 0, t0.elapsed().as_secs_f64(), w, second);
            println!(
                "{}: {} runs, {} distinct non-trivial, {} interleavings, {}/{} edges, {:.1} s",
                p.id,
                c.counts[C::runs as usize],
                c.distinct,
                c.scheds,
                c.cov,
                rt::NGUARDS.load(Relaxed),
                t0.elapsed().as_secs_f64()
            );
            return 0;
        }
        Some(v) => v,
    };
    println!("{} run {}: {}: {}", p.id, run, class, msg);
    if class == "harness" {
        eprintln!("the harness itself failed; nothing is claimed about the property");
        return 2;
    }
    // the run alone, else after the runs that preceded it in its process
    let alone = again(p, seed, None, Choices::random(run_seed(p.id, seed, run)), false);
    let mut prelude = None;
    let mut first = alone;
    if first.class != class {
        let start = run / p.batch * p.batch;
        let mut k = 1;
        loop {
            let from = run.saturating_sub(k).max(start);
            let a = again(p, seed, Some((from, run)), Choices::random(run_seed(p.id, seed, run)), false);
            if a.class == class {
                prelude = Some((from, run));
                first = a;
                break;
            }
            if from == start {
                break;
            }
            k *= 2;
        }
    }
    let exact = first.class == class;
    let fin = if exact {
        let budget = std::env::var("VERIF_SHRINK_S").ok().and_then(|x| x.parse().ok());
        let best = shrink(p, seed, prelude, first, budget.unwrap_or(if tier == "quick" { 40.0 } else { 300.0 }));
        let mut a = again(p, seed, prelude, Choices::replay(best.rec.clone()), true);
        a.rec = best.rec;
        println!("minimised: {}: {}", a.class, a.msg);
        a
    } else {
        println!("the violation did not recur when the run was repeated: the code under test depends on something outside the simulator");
        Again { class, msg, digest: 0, rec: vec![], trace: vec![] }
    };
    let path = write_replay(p, seed, run, prelude, &fin, exact);
    evidence(p, tier, seed, total, &c, &[format!("{}: {}", fin.class, fin.msg)], 1, t0.elapsed().as_secs_f64(), w, "");
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}
/// The same seeds must give the same executions, whatever the number of workers.
fn selfcheck(ids: &[&str], runs: u64) -> i32 {
    let mut bad = 0;
    for id in ids {
        let p = prop(id);
        let mut prints = vec![];
        for w in [workers(), 1, 3] {
            let (v, _) = capture(|| {
                stats::init();
                rt::init_cov();
                search(p, 99, runs, w, 3600.0, &[]);
                let viol = stats::violation().map(|v| v.0 as i64).unwrap_or(-1);
                format!("{:016x} {} {} {}", stats::fingerprint(), get(C::ticks), get(C::switches), viol).into_bytes()
            });
            prints.push(String::from_utf8_lossy(&v).into_owned());
        }
        let ok = prints.iter().all(|x| *x == prints[0]);
        println!("{} {} {:?}", id, if ok { "deterministic" } else { "NOT DETERMINISTIC" }, prints);
        bad |= !ok as i32;
    }
    bad
}
fn main() {
    stats::init();
    rt::init_cov();
    rt::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match a[1..] {
        ["check", id] => check(id),
        ["replay", path] => replay(path),
        ["selfcheck", n] => selfcheck(&PROPS.iter().map(|p| p.id).collect::<Vec<_>>(), n.parse().unwrap_or(300)),
        ["selfcheck", n, id] => selfcheck(&[id], n.parse().unwrap_or(300)),
        ["show", id, seed, run] => {
            let (seed, run) = (seed.parse().unwrap_or(1), run.parse().unwrap_or(0));
            let x = again(prop(id), seed, None, Choices::random(run_seed(id, seed, run)), true);
            for l in &x.trace {
                println!("  {}", l);
            }
            println!("digest {:016x} {} {}", x.digest, x.class, x.msg);
            0
        }
        _ => {
            eprintln!("usage: diffy-sim check ID | replay FILE | selfcheck RUNS [ID] | show ID SEED RUN");
            2
        }
    };
    std::process::exit(code);
}
