//! C06: work and memory stay bounded whatever damage the storage did and however a sink behaves.
//! Steps are basic blocks of diffy executed, memory is what it asked the allocator for.
use crate::api::{self, leak, FOpts, Fl, P};
use crate::gen;
use crate::model;
use crate::rt::{self, between, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe, STEP_LIMIT};
use crate::stats::{record_max, C};
use crate::worlds::damage;
use crate::worlds::sink::Sink;

pub const LABELS: &[&str] =
    &["parse", "render", "reverse", "apply", "create", "merge", "sink calls", "parse mem", "render mem", "reverse mem", "apply mem", "create mem", "merge mem"];

pub fn c06() {
    rt::phase(|| match ch(4) {
        1 if coin(1, 400) => huge(),
        0 | 1 => damaged(),
        2 => sinks(),
        _ => texts(),
    });
}
/// Runs `f` within `steps` and `bytes`; exceeding the steps ends the run as a violation.
fn within<R>(i: usize, steps: u64, bytes: u64, f: impl FnOnce() -> R) -> R {
    let r = rt::run();
    r.limit = steps.min(STEP_LIMIT);
    let v = f();
    let r = rt::run();
    r.limit = STEP_LIMIT;
    let c = r.last;
    // sixteen bytes moved or compared in bulk count like a step
    let work = c.steps + c.moved / 16;
    record_max(i, work * 1000 / steps);
    record_max(i + 7, c.peak * 1000 / bytes);
    ev(70 + i as u64, c.steps);
    rt::check_ok(work <= steps, "steps", || format!("{} took {} steps and moved {} bytes, the bound is {} steps", LABELS[i], c.steps, c.moved, steps));
    rt::check_ok(c.peak <= bytes, "memory", || format!("{} had {} bytes allocated, the bound is {}", LABELS[i], c.peak, bytes));
    v
}
fn lines(b: &[u8]) -> u64 {
    gen::split(b).len() as u64
}
fn linear(n: usize) -> u64 {
    4000 + 60 * n as u64
}
fn linear_mem(n: usize) -> u64 {
    8192 + 200 * n as u64
}
fn damaged() {
    let fl;
    let mut b;
    let doc: Vec<u8>;
    if coin(1, 16) {
        // larger files
        let p = gen::big_pair(gen::flavour(), pick(&[200, 1000, 3000]));
        fl = p.fl;
        let d = api::DOpts::with_ctx(pick(&[None, Some(0), Some(1), Some(20)]));
        let (o, m) = (leak(p.o), leak(p.m));
        let x = api::create(fl, &d, o, m);
        b = model::render(&api::view(&x), &FOpts::DEFAULT);
        doc = if coin(1, 2) { o.to_vec() } else { m.to_vec() };
    } else {
        let (x, t) = damage::base_text();
        fl = x.fl;
        b = t;
        doc = x.o.to_vec();
    }
    for _ in 0..between(0, 5) {
        damage::damage(&mut b, fl == Fl::S);
        if b.len() > 200_000 {
            break;
        }
    }
    if coin(1, 8) {
        // degenerate texts of a damaged file: long runs of one thing
        let unit = pick(&["@", "\n", "@@ ", "- ", "\\", "\\ No newline at end of file\n", "--- a\n", "@@ -1,0 +1,0 @@\n", "\"", "9", " @", "\t"]);
        let k = pick(&[10, 200, 3000, 20000]).min(60000 / unit.len());
        let run = unit.repeat(k).into_bytes();
        let i = match ch(4) {
            0 => 0,
            1 => b.len(),
            _ => {
                let mut i = chz(b.len() + 1);
                while i < b.len() && (b[i] & 0xc0) == 0x80 {
                    i += 1;
                }
                i
            }
        };
        fault(C::f_block_dup);
        b.splice(i..i, run);
    }
    let b = leak(b);
    let fl = if api::is_utf8(b) { fl } else { Fl::B };
    note(|| format!("patch of {} bytes {}", b.len(), rt::esc(b)));
    ev_bytes(69, b);
    let n = b.len();
    let p = within(0, linear(n), linear_mem(n), || api::parse(fl, b));
    let p: &'static P<'static> = match p {
        Ok(p) => Box::leak(Box::new(p)),
        Err(_) => {
            probe(C::p_damage_rejected);
            return;
        }
    };
    probe(C::p_damage_accepted);
    let out = within(1, linear(n), linear_mem(2 * n), || api::to_bytes(p));
    within(1, linear(n), linear_mem(2 * n), || api::to_text(p));
    rt::check_ok(out.len() <= 4 * n + 200, "memory", || format!("a {} byte patch is rendered as {} bytes", n, out.len()));
    let r = within(2, linear(n), linear_mem(n), || api::reverse(p));
    let hl: u64 = api::view(p).hunks.iter().map(|h| h.lines.len() as u64 + 2).sum();
    for d in [doc, vec![], vec![b'\n'; 1 + chz(50)]] {
        if fl == Fl::S && !api::is_utf8(&d) {
            continue;
        }
        let work = (lines(&d) + hl + 2) * (hl + 2);
        let steps = linear(n + d.len()) + 15 * work;
        let mem = linear_mem(n + d.len());
        for q in [p, &r] {
            let o = within(3, steps, mem, || api::apply(q, &d));
            ev(75, o.is_ok() as u64);
        }
    }
}
/// A patch of tens of thousands of lines or hunks, possibly with one act of damage: what works line by line
/// must neither go quadratic nor use up the stack.
fn huge() {
    probe(C::p_giant_doc);
    let mut r = gen::Sub::new();
    let fl = gen::flavour();
    let n = 20_000 + r.next(pick(&[10_000, 60_000, 180_000]));
    let shape = ch(6);
    // few enough hunks for every one of them to be looked for in the whole document
    let n = if matches!(shape, 1 | 2 | 5) && coin(1, 2) { 2000 + r.next(2500) } else { n };
    let mut v = api::View { orig: Some(b"a".to_vec()), modi: Some(b"b".to_vec()), hunks: vec![] };
    let (mut o, mut m) = (1usize, 1usize);
    let mut doc: Vec<u8> = vec![];
    // lines per hunk: everything in one, or thousands of small ones
    let per = [n, 1 + r.next(4), 7, n / 2, 300, 2][shape as usize];
    let mut left = n;
    while left > 0 {
        let k = per.min(left);
        left -= k;
        let (o0, m0) = (o, m);
        let mut l = Vec::with_capacity(k);
        for _ in 0..k {
            let t = [b' ', b'-', b'+'][r.next(3)];
            let mut x = format!("{}", r.next(1 << 30)).into_bytes();
            x.push(b'\n');
            if t != b'+' {
                o += 1;
                doc.extend_from_slice(&x);
            }
            if t != b'-' {
                m += 1;
            }
            l.push((t, x));
        }
        v.hunks.push(api::HView { old: (o0, o - o0), new: (m0, m - m0), fctx: None, lines: l });
        // lines between the hunks
        for _ in 0..1 + r.next(3) {
            doc.extend_from_slice(format!("gap {}\n", r.next(1 << 30)).as_bytes());
            o += 1;
            m += 1;
        }
    }
    let mut b = model::render(&v, &FOpts::DEFAULT);
    let whole = b.clone();
    if coin(1, 2) {
        damage::damage(&mut b, fl == Fl::S);
    }
    note(|| format!("patch of {} lines in {} hunks", n, v.hunks.len()));
    let intact = b == whole;
    let b = leak(b);
    let fl = if api::is_utf8(b) { fl } else { Fl::B };
    let n = b.len();
    let p = match within(0, linear(n), linear_mem(n), || api::parse(fl, b)) {
        Ok(p) => p,
        Err(_) => {
            probe(C::p_damage_rejected);
            return;
        }
    };
    let p: &'static P<'static> = Box::leak(Box::new(p));
    within(1, linear(n), linear_mem(2 * n), || api::to_bytes(p));
    within(1, linear(n), linear_mem(2 * n), || api::to_text(p));
    let q = within(2, linear(n), linear_mem(n), || api::reverse(p));
    // the bound must lie below the limit of steps of a run
    let steps = linear(n + doc.len()) + 15 * (lines(&doc) + 4) * (v.hunks.len() as u64 + 2);
    if intact && steps < STEP_LIMIT / 2 {
        // lines are hardly ever repeated: looking for a hunk costs a comparison per line
        let mem = linear_mem(n + doc.len());
        if let Ok(t) = within(3, steps, mem, || api::apply(p, &doc)) {
            let steps = steps + linear(t.len());
            let o = within(3, steps, mem + linear_mem(t.len()), || api::apply(&q, &t));
            ev(79, o.is_ok() as u64);
        }
    }
}
fn sinks() {
    let x = gen::made_or_parsed();
    let mut fo = gen::fopts();
    if model::has_esc(&x.view) {
        fo.color = false;
    }
    let f = fo.build();
    let mut s = Sink::legal();
    let r = within(1, linear(4000 + 40 * model::render(&x.view, &fo).len()), u64::MAX / 2000, || api::write(&f, &x.p, &mut s));
    rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "a tolerable sink was reported as failed".into());
    let bound = 16 + s.got.len() as u64 + s.faults;
    record_max(6, s.calls * 1000 / bound);
    rt::check_ok(s.calls <= bound, "sink-calls", || format!("{} sink calls for {} bytes and {} faults", s.calls, s.got.len(), s.faults));
    ev(76, s.calls);
}
fn texts() {
    let (fl, o, m) = if coin(1, 16) {
        let p = gen::big_pair(gen::flavour(), pick(&[100, 400, 900]));
        (p.fl, p.o, p.m)
    } else if coin(1, 2) {
        // unrelated and lopsided texts over few distinct lines
        let mut r = gen::Sub::new();
        let k = pick(&[1, 2, 3, 10, 1000]);
        let (n, m) = (chz(300), chz(300));
        let mut mk = |n: usize| -> Vec<u8> { (0..n).flat_map(|_| format!("{}\n", r.next(k)).into_bytes()).collect() };
        let (a, b) = (mk(n), mk(m));
        (gen::flavour(), a, b)
    } else {
        let p = gen::pair();
        (p.fl, p.o, p.m)
    };
    let d = gen::dopts();
    let t = lines(&o) + lines(&m) + 4;
    let by = o.len() + m.len();
    note(|| format!("texts of {} and {} bytes", o.len(), m.len()));
    let names = d.names().0.len() + d.names().1.len();
    let p = within(4, linear(by + names) + 20 * t * t, linear_mem(by + names) + 400 * t, || api::create(fl, &d, &o, &m));
    ev(77, api::view(&p).hunks.len() as u64);
    let third = {
        let mut l: Vec<Vec<u8>> = gen::split(&o).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
        gen::mutate(fl, gen::Style::Tiny, &mut l);
        gen::join(&l, true)
    };
    let fl = if api::is_utf8(&third) { fl } else { Fl::B };
    let ml = pick(&[7, 0, 1, 1000]);
    let t = t + lines(&third);
    let by = by + third.len();
    let conf = ml as u64 * 5 * t;
    let r = within(5, linear(by) + 30 * t * t + 10 * conf, linear_mem(by) + 600 * t + 4 * conf, || {
        api::merge(fl, Some(ml), Some(true), &o, &m, &third)
    });
    ev(78, r.is_ok() as u64);
}
