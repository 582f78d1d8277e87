//! C12: a process that makes calls for a long time neither holds more and more memory nor gets slower.
use crate::api::{self, leak, DOpts, FOpts, Fl, P};
use crate::gen::Sub;
use crate::model;
use crate::rt::{self, chz, coin, ev, note, pick, probe};
use crate::stats::{record_max, C};
use crate::worlds::isolate::{describe, perform, Op, B};
use crate::worlds::sink::KINDS;

pub const LABELS: &[&str] = &["memory kept", "cost at the end"];
const ROUNDS: usize = 8;

/// A short text nobody else has.
fn text(r: &mut Sub, max: usize) -> Vec<u8> {
    let n = r.next(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        match r.next(4) {
            0 => v.extend_from_slice(b"}"),
            1 => {}
            _ => v.extend_from_slice(format!("{:x}", r.next(1 << 40)).as_bytes()),
        }
        v.push(b'\n');
    }
    if r.next(4) == 0 {
        v.extend_from_slice(format!("end {}", r.next(1 << 40)).as_bytes());
    }
    v
}
/// The text with some lines replaced, lost or added.
fn edit(r: &mut Sub, t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in crate::gen::split(t) {
        match r.next(5) {
            0 => {}
            1 => v.extend_from_slice(format!("{:x}\n", r.next(1 << 40)).as_bytes()),
            2 => {
                v.extend_from_slice(l);
                if l.ends_with(b"\n") {
                    v.extend_from_slice(b"+\n");
                }
            }
            _ => v.extend_from_slice(l),
        }
    }
    v
}
fn name(r: &mut Sub) -> String {
    format!("{}{}", ["a/", "b\t", "\"", "\u{e9}"][r.next(4)], r.next(1 << 40))
}
/// What sets the calls of one run apart.
#[derive(Clone, Copy)]
struct Manner {
    kind: Option<usize>,
    /// Lines per text.
    max: usize,
    /// How patches are damaged: always in one way, or in different ways, or (8) not at all.
    harm: usize,
    /// Whether patches state lines far from where they belong.
    skew: bool,
}
/// One act of damage.
fn harm(r: &mut Sub, how: usize, t: &mut Vec<u8>) {
    let header = t.windows(4).position(|w| w == b"@@ -").map(|i| i + 4);
    match (how, header) {
        (0, Some(i)) => t.splice(i..i, format!("x{}", r.next(1 << 30)).into_bytes()).for_each(drop),
        (1, Some(i)) => t.splice(i..i, b"99999999999999999999".iter().copied()).for_each(drop),
        (2, Some(i)) => t.splice(i..i, format!("{}", 1 + r.next(1 << 20)).into_bytes()).for_each(drop),
        // a line lost, twice, or cut off
        (3 | 4 | 5, _) => {
            let l = crate::gen::split(t);
            if !l.is_empty() {
                let i = r.next(l.len());
                let l: Vec<Vec<u8>> = l.iter().map(|x| x.to_vec()).collect();
                let keep = |a: &[Vec<u8>]| a.concat();
                *t = match how {
                    3 => [keep(&l[..i]), keep(&l[i + 1..])].concat(),
                    4 => [keep(&l[..=i]), keep(&l[i..])].concat(),
                    _ => [keep(&l[..i]), l[i][..r.next(l[i].len())].to_vec()].concat(),
                };
            }
        }
        _ => {
            if !t.is_empty() {
                let i = r.next(t.len());
                t[i] = [b'@', b'x', b'\n', b'-', b'9', b'\\', b'"', 0xff][r.next(8)];
            }
        }
    }
}
fn call(r: &mut Sub, m: Manner) -> Op {
    let (kind, max) = (m.kind, m.max);
    let how = m;
    let fl = if r.next(2) == 0 { Fl::S } else { Fl::B };
    let o = text(r, max);
    let m = edit(r, &o);
    let fo = FOpts { color: r.next(2) == 0, msg: r.next(4) != 0, suppress: r.next(2) == 0, ..FOpts::DEFAULT };
    let k = kind.unwrap_or_else(|| r.next(8));
    if k == 0 {
        let d = DOpts {
            ctx: [None, Some(0), Some(1), Some(r.next(1 << 40))][r.next(4)],
            orig: if r.next(2) == 0 { Some(name(r)) } else { None },
            modi: if r.next(2) == 0 { Some(name(r)) } else { None },
            // no route on which the test itself leaks names
            route: r.next(64) as u64 & !api::ROUTE_LEAKS,
        };
        return Op::Create { fl, d, o: leak(o), m: leak(m) };
    }
    if k == 1 {
        let y = if r.next(3) == 0 { o.clone() } else { edit(r, &o) };
        return Op::Merge { fl, len: [None, Some(0), Some(9)][r.next(3)], style: [None, Some(true), Some(false)][r.next(3)], a: leak(o), x: leak(m), y: leak(y) };
    }
    let mut v = model::diff(&o, &m, [3, 0, 1][r.next(3)]);
    v.orig = if r.next(8) == 0 { None } else { Some(name(r).into_bytes()) };
    v.modi = Some(name(r).into_bytes());
    if how.skew {
        let by = r.next(1 << 40);
        for h in v.hunks.iter_mut() {
            h.old.0 += by;
            h.new.0 += by;
        }
    }
    let mut t = model::render(&v, &FOpts::DEFAULT);
    if how.harm == 7 && r.next(4) == 0 {
        let i = r.next(7);
        harm(r, i, &mut t);
    } else if how.harm < 7 {
        harm(r, how.harm, &mut t);
    }
    let fl = if api::is_utf8(&t) { fl } else { Fl::B };
    let n = t.len();
    let t: B = leak(t);
    match k {
        2 => Op::Parse { fl, t },
        3 => Op::Render { fl, t, fo, form: r.next(3) as u64 },
        4 => Op::Fail { fl, t, fo, at: r.next(n + 1), fail: KINDS[r.next(KINDS.len())] },
        5 => Op::Reverse { fl, t },
        6 => {
            let doc = if r.next(4) == 0 { edit(r, &o) } else { o };
            Op::Apply { fl, t, doc: leak(doc) }
        }
        _ => {
            let inner = Box::new(Op::Parse { fl, t });
            Op::Nested { fl, t, fo, inner }
        }
    }
}
fn size(op: &Op) -> usize {
    match op {
        Op::Create { d, o, m, .. } => o.len() + m.len() + d.names().0.len() + d.names().1.len(),
        Op::Parse { t, .. } | Op::Render { t, .. } | Op::Fail { t, .. } | Op::Reverse { t, .. } | Op::Nested { t, .. } => t.len(),
        Op::Apply { t, doc, .. } => t.len() + doc.len(),
        Op::Merge { a, x, y, .. } => a.len() + x.len() + y.len(),
    }
}
/// What the calls cost, in steps.
fn costs(ops: &[Op]) -> Vec<u64> {
    let mut v = vec![];
    for o in ops {
        let c = rt::run().spent;
        perform(o, None, &mut None);
        v.push(rt::run().spent - c);
    }
    v
}
fn cost(ops: &'static [Op]) -> Vec<u64> {
    rt::phase(move || costs(ops))
}
fn make(ops: &[Op], keep: bool) {
    // results that are dropped much later than the next calls are made
    let mut kept: Vec<P<'static>> = vec![];
    for o in ops {
        rt::tracked(|| perform(o, None, &mut None));
        if let (true, Op::Parse { fl, t } | Op::Reverse { fl, t }) = (keep, o) {
            if let Ok(p) = rt::tracked(|| api::parse(*fl, t)) {
                probe(C::p_results_kept);
                kept.push(p);
            }
        }
    }
}
fn measure(k: usize) -> usize {
    let h = rt::ledger_held();
    note(|| format!("after round {}: {} bytes in {} blocks", k + 1, h.0, h.1));
    ev(130, h.0 as u64);
    h.0
}

pub fn c12() {
    let mut r = Sub::new();
    let kind = if coin(1, 3) { Some(chz(8)) } else { None };
    let max = pick(&[2, 4, 8]);
    let per = pick(&[10, 50, 200, 400, 400, if max == 2 { 1500 } else { 400 }]);
    let harm = if coin(1, 2) { 7 } else { pick(&[8, 0, 1, 2, 3, 4, 5, 6]) };
    let m = Manner { kind, max, harm, skew: coin(1, 2) };
    // calls per thread, and threads at once; or a single thread for everything
    let (slice, wide) = pick(&[(0, 1), (0, 1), (400, 1), (10, 1), (50, 2), (3, 3)]);
    let keep = coin(1, 3);
    if per >= 200 {
        probe(C::p_many_calls);
    }
    if slice > 0 && slice < 50 {
        probe(C::p_many_threads);
    }
    note(|| format!("{} rounds of {} calls of kind {:?} (damage {}), {} threads at once make {} calls each", ROUNDS, per, kind, harm, wide, slice));
    let seen: &'static [Op] = Box::leak((0..6).map(|_| call(&mut r, m)).collect());
    cost(seen);
    let first = cost(seen);
    rt::ledger_start();
    let (held, largest, mid, last) = if slice == 0 {
        rt::phase(move || {
            let (mut held, mut largest, mut mid) = (vec![], 0, vec![]);
            for k in 0..ROUNDS {
                let ops: Vec<Op> = (0..per).map(|_| call(&mut r, m)).collect();
                largest = ops.iter().map(size).fold(largest, usize::max);
                make(&ops, keep);
                held.push(measure(k));
                if k == ROUNDS / 2 - 1 {
                    mid = costs(seen);
                }
            }
            rt::ledger_stop();
            (held, largest, mid, costs(seen))
        })
    } else {
        let (mut held, mut largest, mut mid) = (vec![], 0, vec![]);
        for k in 0..ROUNDS {
            let mut left = per;
            while left > 0 {
                let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
                for _ in 0..wide {
                    let n = slice.min(left);
                    left -= n;
                    let ops: Vec<Op> = (0..n).map(|_| call(&mut r, m)).collect();
                    largest = ops.iter().map(size).fold(largest, usize::max);
                    v.push(Box::new(move || make(&ops, keep)));
                }
                rt::tasks(v);
            }
            held.push(measure(k));
            if k == ROUNDS / 2 - 1 {
                mid = cost(seen);
            }
        }
        rt::ledger_stop();
        (held, largest, mid, cost(seen))
    };
    // A bounded cache has filled by the end of the second round, a scratch buffer is as large as the largest call
    // needs.  What is left behind by every call goes on growing.
    let bound = held[1] + held[1] / 2 + 4096 + 16 * largest;
    record_max(0, (held[ROUNDS - 1] * 1000 / bound) as u64);
    rt::check_ok(held[ROUNDS - 1] <= bound, "kept-memory", || {
        format!("after each of {} rounds of {} calls with at most {} bytes of arguments diffy held {:?} bytes", ROUNDS, per, largest, held)
    });
    for i in 0..seen.len() {
        ev(131, last[i]);
        // a bounded cache may make a call cost more for a while; what every call makes longer goes on growing
        let bound = 2 * first[i] + 5000;
        let steady = first[i] + first[i] / 2 + 1500;
        record_max(1, last[i] * 1000 / bound);
        let grows = last[i] > steady && mid[i] > first[i] && 5 * last[i].saturating_sub(mid[i]) > 3 * (mid[i] - first[i]);
        rt::check_ok(last[i] <= bound && !grows, "slower", || {
            format!("{} took {} steps at first, {} after {} other calls and {} after {}", describe(&seen[i]), first[i], mid[i], per * ROUNDS / 2, last[i], per * ROUNDS)
        });
    }
}
