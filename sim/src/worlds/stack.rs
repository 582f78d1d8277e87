//! C16: the stack a call needs does not grow with its input.  Calls on long patches, long texts and sinks with many
//! faults are made on a thread with little stack, which is watched at every basic block of diffy.
use crate::api::{self, leak, DOpts, FOpts, Fl, HView, View, P};
use crate::gen::{self, Sub};
use crate::model;
use crate::rt::{self, chz, coin, ev, ev_bytes, fault, note, pick, probe, Outside};
use crate::stats::{record_max, C};
use crate::worlds::damage;
use std::io::{self, ErrorKind};

pub const LABELS: &[&str] = &["parse", "render", "reverse", "apply", "create", "merge", "other"];
/// The stack of the simulated thread.
const ROOM: usize = 96 << 10;

pub fn c16() {
    rt::phase(|| {
        rt::run().room = ROOM;
        rt::run().limit = 150_000_000;
        match chz(8) {
            0 | 1 => patch(long_patch(), &[], true),
            2 => strange(),
            3 => names(),
            4 => sinks(),
            5 | 6 => texts(),
            _ => merges(),
        }
        rt::run().room = 0;
    });
}
/// Records what the last call used.
fn used(i: usize) {
    let d = rt::run().last.deep;
    record_max(i, (d * 1000 / ROOM) as u64);
}
/// How many of something: seldom very many.
fn many(r: &mut Sub) -> usize {
    let k = pick(&[30, 300, 3000, 3000, 10_000, 40_000]);
    if k >= 3000 {
        probe(C::p_long_input);
        fault(C::f_small_stack);
    }
    k / 2 + r.next(k)
}
/// A patch with many lines, hunks or blank lines, and the document it fits.
fn long_patch() -> (Fl, Vec<u8>, Vec<u8>) {
    let mut r = Sub::new();
    let fl = gen::flavour();
    let n = many(&mut r);
    let per = [n, 1 + r.next(4), 30, n / 2 + 1][chz(4)];
    // all lines of one kind, or runs of a kind, or a mixture
    let (kind, runs) = ([b' ', b'-', b'+', 0, 0][chz(5)], pick(&[1, 1, 40, 5000]));
    let blank = coin(1, 4);
    let mut v = View { orig: Some(b"a".to_vec()), modi: if coin(1, 4) { None } else { Some(b"b".to_vec()) }, hunks: vec![] };
    let (mut o, mut m) = (1usize, 1usize);
    let mut doc: Vec<u8> = vec![];
    let mut left = n;
    let mut k = kind;
    while left > 0 {
        let (o0, m0) = (o, m);
        let mut l = vec![];
        for _ in 0..per.min(left) {
            if kind == 0 && r.next(runs) == 0 {
                k = [b' ', b'-', b'+'][r.next(3)];
            }
            let k = if k == 0 { b' ' } else { k };
            let x = if blank { b"\n".to_vec() } else { format!("{}\n", r.next(1 << 20)).into_bytes() };
            if k != b'+' {
                o += 1;
                doc.extend_from_slice(&x);
            }
            m += (k != b'-') as usize;
            l.push((k, x));
        }
        left -= per.min(left);
        v.hunks.push(HView { old: (o0, o - o0), new: (m0, m - m0), fctx: None, lines: l });
        for _ in 0..1 + r.next(2) {
            doc.extend_from_slice(format!("gap {}\n", r.next(1 << 20)).as_bytes());
            o += 1;
            m += 1;
        }
    }
    note(|| format!("patch of {} lines, {} per hunk, blank: {}", n, per, blank));
    let t = model::render(&v, &FOpts { suppress: coin(1, 2), ..FOpts::DEFAULT });
    (fl, t, doc)
}
/// Everything one can do with a stored patch.
/// `fits` tells that, undamaged, it fits its document where it says.
fn patch(x: (Fl, Vec<u8>, Vec<u8>), docs: &[Vec<u8>], fits: bool) {
    let (mut fl, mut b, doc) = x;
    let whole = b.clone();
    if coin(1, 3) {
        damage::damage(&mut b, fl == Fl::S);
    }
    let fits = fits && b == whole;
    if !api::is_utf8(&b) || !api::is_utf8(&doc) {
        fl = Fl::B;
    }
    let b = leak(b);
    ev_bytes(160, b);
    let p = api::parse(fl, b);
    used(0);
    ev(161, p.is_ok() as u64);
    match p {
        Ok(p) => {
            probe(C::p_damage_accepted);
            with(&p, &doc, docs, fits);
            drop_(p);
        }
        Err(_) => probe(C::p_damage_rejected),
    }
}
fn drop_<T>(v: T) {
    api::bug("drop", rt::enter(|| drop(v)));
    used(6);
}
fn with(p: &P<'_>, doc: &[u8], docs: &[Vec<u8>], fits: bool) {
    let fo = gen::fopts();
    let mut s = Flaky::new(0, 0);
    let r = api::write(&fo.build(), p, &mut s);
    used(1);
    rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "a healthy sink was reported as failed".into());
    drop_(api::to_bytes(p));
    api::to_text(p);
    used(1);
    let q = api::reverse(p);
    used(2);
    // looking for thousands of hunks in a long document takes long if they are not where they say
    let hunks: usize = api::view(p).hunks.iter().map(|h| h.lines.len() + 1).sum();
    for d in [doc].into_iter().chain(docs.iter().map(|d| &d[..])) {
        if matches!(p, P::S(_)) && !api::is_utf8(d) {
            continue;
        }
        let far = |d: &[u8]| gen::split(d).len() * hunks > 8_000_000;
        if !fits && far(d) {
            continue;
        }
        let t = api::apply(p, d);
        used(3);
        ev(162, t.is_ok() as u64);
        if let Ok(t) = &t {
            if fits || !far(t) {
                ev(163, api::apply(&q, t).is_ok() as u64);
                used(3);
            }
        }
    }
    let c = api::bug("clone", rt::enter(|| p.clone())).0;
    used(6);
    let same = api::eq(&c, p);
    used(6);
    rt::check_ok(same, "clone", || "a copy of a patch differs from it".into());
    drop_(c);
    drop_(q);
}
/// Long runs of one thing somewhere in a patch.
fn strange() {
    let (x, mut b) = damage::base_text();
    let unit = pick(&[
        "@", "\n", "@@ ", "- ", "-", "+x\n", " y\n", "\\", "\\ No newline at end of file\n", "--- a\n", "@@ -1,0 +1,0 @@\n", "@@ -1 +1 @@\n-a\n+b\n", "\"", "9", "0", " @", "\t", "a",
        "\r\n", "\\n", "diff\n",
    ]);
    let mut r = Sub::new();
    let k = many(&mut r).min(400_000 / unit.len());
    let i = match chz(4) {
        0 => 0,
        1 => b.len(),
        // inside a header, where numbers and names stand
        2 => b.windows(4).position(|w| w == b"@@ -").map_or(0, |i| i + 4),
        _ => {
            let mut i = r.next(b.len() + 1);
            while i < b.len() && (b[i] & 0xc0) == 0x80 {
                i += 1;
            }
            i
        }
    };
    note(|| format!("{} times {:?} at {} of {:?}", k, unit, i, rt::esc(&b)));
    fault(C::f_block_dup);
    b.splice(i..i, unit.repeat(k).into_bytes());
    patch((x.fl, b, x.o.to_vec()), &[x.m.to_vec()], false);
}
/// Names of any length, with any share of characters that are escaped.
fn names() {
    let mut r = Sub::new();
    let n = many(&mut r);
    let unit = pick(&["a", "\"", "\n\t", "\\", "\u{e9}", "a\r", "a b", "\0x"]);
    let name: String = unit.repeat(n / unit.len() + 1);
    note(|| format!("names of {} times {:?}", n / unit.len() + 1, unit));
    let mut d = DOpts::plain();
    d.orig = Some(name.clone());
    d.modi = if coin(1, 2) { Some(name) } else { None };
    let fl = gen::flavour();
    let p = api::create(fl, &d, b"a\n", b"b\n");
    used(4);
    with(&p, b"a\n", &[], true);
    let t = api::to_bytes(&p);
    drop_(p);
    patch((fl, t, b"a\n".to_vec()), &[], true);
}
/// Accepts everything, after as many interruptions and in as small pieces as one likes.
struct Flaky {
    got: usize,
    interrupts: usize,
    left: usize,
    piece: usize,
}
impl Flaky {
    fn new(interrupts: usize, piece: usize) -> Self {
        Flaky { got: 0, interrupts, left: interrupts, piece }
    }
}
impl io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = Outside::new();
        if b.is_empty() {
            return Ok(0);
        }
        if self.left > 0 {
            self.left -= 1;
            fault(C::f_interrupt);
            return Err(ErrorKind::Interrupted.into());
        }
        let n = if self.piece == 0 { b.len() } else { self.piece.min(b.len()) };
        if n < b.len() {
            fault(C::f_short_write);
        }
        if self.piece != 0 && self.got % 1000 == 0 {
            self.left = self.interrupts;
        }
        self.got += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Very many interruptions in a row, or writes of a byte each.
fn sinks() {
    let mut x = gen::made_or_parsed();
    if coin(1, 2) {
        // a long line, name or context
        let mut r = Sub::new();
        let n = many(&mut r);
        let long: Vec<u8> = (0..n).map(|_| b'a' + r.next(26) as u8).collect();
        let mut v = x.view.clone();
        match chz(3) {
            0 => v.orig = Some(long),
            1 => {
                if let Some(h) = v.hunks.first_mut() {
                    h.fctx = Some(long);
                }
            }
            _ => {
                if let Some(l) = v.hunks.first_mut().and_then(|h| h.lines.first_mut()) {
                    l.1 = [long, b"\n".to_vec()].concat();
                }
            }
        }
        let t = leak(model::render(&v, &FOpts::DEFAULT));
        if let Ok(p) = api::parse(x.fl, t) {
            used(0);
            x.p = p;
        }
    }
    let fo = gen::fopts();
    let f = fo.build();
    let (interrupts, piece) = (pick(&[0, 10, 2000, 20_000]), pick(&[0, 1, 1, 7]));
    note(|| format!("{} interruptions, pieces of {} bytes", interrupts, piece));
    let mut s = Flaky::new(interrupts, piece);
    let r = api::write(&f, &x.p, &mut s);
    used(1);
    rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "a tolerable sink was reported as failed".into());
    ev(164, s.got as u64);
}
/// A text and versions of it with many edits, or many lines, or long repetitions.
fn versions(r: &mut Sub, k: usize) -> (Fl, Vec<Vec<u8>>) {
    let fl = gen::flavour();
    let shape = chz(7);
    if shape == 0 {
        let p = gen::big_pair(fl, pick(&[300, 3000, 30_000]));
        let mut v = vec![p.o, p.m];
        v.truncate(k);
        while v.len() < k {
            let mut l: Vec<Vec<u8>> = gen::split(&v[0]).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
            gen::mutate(fl, gen::Style::Tiny, &mut l);
            v.push(gen::join(&l, true));
        }
        let fl = if v.iter().all(|t| api::is_utf8(t)) { fl } else { Fl::B };
        return (fl, v);
    }
    let n = many(r);
    // how many edits a text gets, and how different its lines are
    let edits = [3, 40, 400, 1500, 2500][chz(5)].min(n);
    // edits that follow each other closely
    let n = if coin(1, 3) { n.min(edits * pick(&[2, 3, 5, 8])) } else { n };
    let alphabet = [1 << 30, 1 << 30, 1, 2, 7][chz(5)];
    let (n, edits) = match shape {
        1 => (n.min(1200), 1200),
        _ => (n, edits),
    };
    let base: Vec<u32> = (0..n).map(|_| r.next(alphabet) as u32).collect();
    let gap = (n / edits.max(1)).max(1);
    let mut v = vec![base.clone()];
    while v.len() < k {
        // evenly spread edits of one kind or of all kinds
        let kind = r.next(5);
        let phase = r.next(2) * gap / 2;
        let mut l = Vec::with_capacity(n * 2);
        for (i, x) in base.iter().enumerate() {
            let here = i >= phase && (i - phase) % gap == 0;
            match if here { [0, 1, 2, r.next(3), 3][kind] } else { 4 } {
                0 => {}
                1 => l.extend_from_slice(&[*x, r.next(alphabet) as u32]),
                2 => l.push(r.next(alphabet) as u32),
                3 => l.extend_from_slice(&[*x, *x]),
                _ => l.push(*x),
            }
        }
        v.push(l);
    }
    note(|| format!("texts of {:?} lines, edits every {} lines, {} different lines", v.iter().map(|l| l.len()).collect::<Vec<_>>(), gap, alphabet));
    (fl, v.iter().map(|l| l.iter().flat_map(|x| format!("{}\n", x).into_bytes()).collect()).collect())
}
fn texts() {
    let mut r = Sub::new();
    let (fl, v) = versions(&mut r, 2);
    let mut d = DOpts::with_ctx(pick(&[None, Some(0), Some(1), Some(40), Some(1 << 40)]));
    d.route = 0;
    let p = api::create(fl, &d, &v[0], &v[1]);
    used(4);
    ev(165, api::view(&p).hunks.len() as u64);
    with(&p, &v[0], &[], true);
    let t = api::to_bytes(&p);
    drop_(p);
    patch((fl, t, v[0].clone()), &[], true);
}
fn merges() {
    let mut r = Sub::new();
    let (fl, v) = versions(&mut r, 3);
    let y = if coin(1, 6) { &v[1] } else { &v[2] };
    let len = pick(&[None, Some(0), Some(7), Some(3000)]);
    let t = api::merge(fl, len, pick(&[None, Some(true), Some(false)]), &v[0], &v[1], y);
    used(5);
    probe(if t.is_ok() { C::p_merge_ok } else { C::p_merge_conflict });
    ev(166, t.is_ok() as u64);
    ev(167, t.unwrap_or_else(|t| t).len() as u64);
}
