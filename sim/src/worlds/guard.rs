//! C14: clients edit one document at the same time without locks.  What a client sends is a patch against the
//! version it has seen, and its context decides whether it still fits.
use crate::api::{self, leak, FOpts, Fl, View, P};
use crate::gen;
use crate::net::{Net, MS};
use crate::rt::{self, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;
use crate::worlds::courier::show;
use std::collections::BTreeMap;

pub fn c14() {
    rt::phase(|| if coin(1, 6) { shapes() } else { world() });
}
type Text = &'static [u8];
#[derive(Clone, Copy)]
enum Msg {
    Work,
    Fetch,
    Doc(u64, Text),
    Patch(u64, Req),
    Ack(u64, bool),
}
#[derive(Clone, Copy)]
struct Req {
    text: Text,
    before: Text,
    after: Text,
    ctx: usize,
    /// Whether the context of two edits of the patch meets without overlapping.
    touching: bool,
}
/// An edit: the lines it replaces and the lines it puts there.
#[derive(Clone, Copy, Debug)]
struct Edit {
    old: (usize, usize),
    new: (usize, usize),
}
/// Edits that share a hunk, with the lines around them that the patch is to guard.
#[derive(Clone, Copy, Debug)]
struct Group {
    old: (usize, usize),
    new: (usize, usize),
}
/// The edits between two texts of different lines that have the lines they share in the same order.
fn edits(b: &[&[u8]], n: &[&[u8]]) -> Vec<Edit> {
    let place: BTreeMap<&[u8], usize> = n.iter().enumerate().map(|(i, l)| (*l, i)).collect();
    let mut v: Vec<Edit> = vec![];
    let (mut i, mut j) = (0, 0);
    for k in 0..=b.len() {
        let (at, next) = if k == b.len() {
            (n.len(), k)
        } else {
            match place.get(b[k]) {
                Some(j) => (*j, k + 1),
                None => continue,
            }
        };
        if k > i || at > j {
            v.push(Edit { old: (i, k), new: (j, at) });
        }
        i = next;
        j = at + 1;
    }
    v
}
fn groups(e: &[Edit], ctx: usize, lines: usize) -> (Vec<Group>, bool) {
    let mut v: Vec<Group> = vec![];
    let mut touching = false;
    for e in e {
        let lead = ctx.min(e.old.0);
        let tail = ctx.min(lines - e.old.1);
        let g = Group { old: (e.old.0 - lead, e.old.1 + tail), new: (e.new.0.saturating_sub(lead), e.new.1 + tail) };
        if let Some(p) = v.last_mut() {
            if g.old.0 < p.old.1 {
                p.old.1 = g.old.1;
                p.new.1 = g.new.1;
                continue;
            }
            touching |= g.old.0 == p.old.1 && ctx > 0;
        }
        v.push(g);
    }
    (v, touching)
}
enum Verdict {
    Fits(Vec<u8>),
    /// The hunk that has no place.
    Refused(usize),
    Open,
}
/// What becomes of the patch: it fits if and only if the guarded lines still stand there one after the other.
fn judge(q: &Req, doc: &[u8]) -> Verdict {
    let (b, n, d) = (gen::split(q.before), gen::split(q.after), gen::split(doc));
    let (g, _) = groups(&edits(&b, &n), q.ctx, b.len());
    let place: BTreeMap<&[u8], usize> = d.iter().enumerate().map(|(i, l)| (*l, i)).collect();
    if place.len() != d.len() || b.len() != b.iter().collect::<std::collections::BTreeSet<_>>().len() || g.iter().any(|g| g.old.0 == g.old.1) {
        return Verdict::Open;
    }
    let mut out = vec![];
    let mut done = 0;
    for (i, g) in g.iter().enumerate() {
        let old = &b[g.old.0..g.old.1];
        let at = place.get(old[0]).copied().unwrap_or(d.len());
        if d.get(at..at + old.len()) != Some(old) {
            return Verdict::Refused(i + 1);
        }
        if at < done {
            return Verdict::Open;
        }
        out.extend(d[done..at].concat());
        out.extend(n[g.new.0..g.new.1].concat());
        done = at + old.len();
    }
    out.extend(d[done..].concat());
    Verdict::Fits(out)
}
struct Fresh {
    n: u64,
    fl: Fl,
}
impl Fresh {
    fn line(&mut self) -> Vec<u8> {
        self.n += 1;
        let mut v = match ch(6) {
            0 => format!("line {}", self.n).into_bytes(),
            1 => gen::similar_nth(self.n).into_bytes(),
            2 => format!("-- {}", self.n).into_bytes(),
            3 => format!("\t\u{e9}{}", self.n).into_bytes(),
            4 => format!("@@ -{} +1 @@", self.n).into_bytes(),
            _ => format!("{}\r", self.n).into_bytes(),
        };
        if self.fl == Fl::B && coin(1, 4) {
            v.push(0xfe);
        }
        v.push(b'\n');
        v
    }
}
/// A new version of a text; the last line stays if it has no line end.
fn edit(f: &mut Fresh, base: &[u8], ctx: usize, keeps: bool) -> Vec<u8> {
    let mut l: Vec<Vec<u8>> = gen::split(base).iter().map(|x| x.to_vec()).collect();
    let tail = if l.last().is_some_and(|x| x.last() != Some(&b'\n')) { l.pop() } else { None };
    let mut at = chz(l.len() + 1);
    for k in 0..1 + ch(3) {
        if k > 0 {
            // at the distance at which hunks cease to be shared, or anywhere
            at = match ch(3) {
                0 => chz(l.len() + 1),
                _ => at + (2 * ctx.min(20) + chz(4)).saturating_sub(1),
            };
            if at > l.len() {
                break;
            }
        }
        for _ in 0..pick(&[1, 1, 2, 2, 6]) {
            match ch(4) {
                3 if at < l.len() && l[at].to_ascii_lowercase().trim_ascii().starts_with(b"line ") => {
                    // nearly the same line; no other line ever becomes that
                    let x = &mut l[at];
                    x.pop();
                    match ch(4) {
                        0 => x.push(b' '),
                        1 => x.push(b'\r'),
                        2 => x.insert(0, b' '),
                        _ => x.make_ascii_uppercase(),
                    }
                    x.push(b'\n');
                }
                0 if !keeps => l.insert(at, f.line()),
                1 if at < l.len() && l.len() > 1 && !keeps => {
                    l.remove(at);
                }
                _ if at < l.len() => {
                    l[at] = f.line();
                    if coin(1, 4) {
                        l.insert(at, f.line());
                    }
                }
                _ if !keeps => l.push(f.line()),
                _ => {}
            }
        }
    }
    l.extend(tail);
    // no line twice, and none that has changed its place
    let place: BTreeMap<&[u8], usize> = gen::split(base).into_iter().enumerate().map(|(i, l)| (l, i)).collect();
    let kept: Vec<usize> = l.iter().filter_map(|x| place.get(&x[..]).copied()).collect();
    let mut once: Vec<&Vec<u8>> = l.iter().collect();
    once.sort();
    once.dedup();
    if once.len() < l.len() || kept.windows(2).any(|w| w[0] > w[1]) {
        return base.to_vec();
    }
    l.concat()
}
fn context() -> (Option<usize>, usize) {
    let c = pick(&[None, Some(1), Some(0), Some(2), Some(3), Some(4), Some(7), Some(40)]);
    (c, c.unwrap_or(3))
}
/// A patch, and the text the client sends.
fn request(fl: Fl, c: Option<usize>, ctx: usize, before: Text, after: Text) -> Option<(Req, P<'static>)> {
    let p = api::create(fl, &api::DOpts { route: ch(32), ..api::DOpts::with_ctx(c) }, before, after);
    let v = api::view(&p);
    let (b, n) = (gen::split(before), gen::split(after));
    let (g, touching) = groups(&edits(&b, &n), ctx, b.len());
    if v.hunks.is_empty() {
        return None;
    }
    let is: Vec<(usize, usize)> = v.hunks.iter().map(|h| h.old).collect();
    let want: Vec<(usize, usize)> = g.iter().map(|g| (g.old.0 + (g.old.1 > g.old.0) as usize, g.old.1 - g.old.0)).collect();
    let distinct = |l: &[&[u8]]| l.iter().collect::<std::collections::BTreeSet<_>>().len() == l.len();
    if !touching && distinct(&b) && distinct(&n) {
        rt::check_ok(is == want, "context", || {
            format!("with {} lines of context the hunks from {} to {} cover the old lines {:?} (first, number) and not {:?}", ctx, rt::esc(before), rt::esc(after), is, want)
        });
    }
    shape(&v, before, after, ctx);
    Some((Req { text: send(&p), before, after, ctx, touching }, p))
}
fn send(p: &P<'static>) -> Text {
    let f = FOpts { color: false, msg: true, suppress: coin(1, 2), route: ch(32) };
    let mut w: Vec<u8> = vec![];
    let r = api::write(&f.build(), p, &mut w);
    rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "rendering into memory failed".into());
    leak(w)
}
/// Whether the hunks have their lines of context and are shared where they must be, for any texts.
fn shape(v: &View, o: &[u8], m: &[u8], n: usize) {
    let (lines, lines_m) = (gen::split(o).len(), gen::split(m).len());
    let mut end = 0;
    for (i, h) in v.hunks.iter().enumerate() {
        let bad = |what: &str| -> ! {
            rt::violate("context", format!("hunk {} of the patch with {} lines of context from {} to {} {}: {:?}", i + 1, n, rt::esc(o), rt::esc(m), what, h))
        };
        let start = h.old.0 - (h.old.1 > 0) as usize;
        let mut lead = None;
        let mut run = 0;
        for l in &h.lines {
            if l.0 == b' ' {
                run += 1;
            } else {
                match lead {
                    None => lead = Some(run),
                    Some(_) if run > 0 && run > n.saturating_mul(2) => bad("joins edits whose contexts do not meet"),
                    _ => {}
                }
                run = 0;
            }
        }
        let Some(lead) = lead else { bad("changes nothing") };
        if lead > n || (lead < n && (i > 0 || start > 0)) {
            bad("does not begin with its lines of context");
        }
        let last = i + 1 == v.hunks.len();
        let (new, newlen) = h.new;
        let at_end = start + h.old.1 == lines && new - (newlen > 0) as usize + newlen == lines_m;
        if run > n || (run < n && !(last && at_end)) {
            bad("does not end with its lines of context");
        }
        if start < end {
            bad("begins within the hunk before");
        }
        end = start + h.old.1;
    }
}
/// Texts of any kind: only the shape of the patch is judged.
fn shapes() {
    let pr = gen::pair();
    let (o, m) = (leak(pr.o), leak(pr.m));
    let c = if coin(1, 2) { context().0 } else { gen::context() };
    let p = api::create(pr.fl, &api::DOpts { route: ch(32), ..api::DOpts::with_ctx(c) }, o, m);
    note(|| format!("texts {} and {} with context {:?}", rt::esc(o), rt::esc(m), c));
    let v = api::view(&p);
    ev(150, v.hunks.len() as u64);
    ev_bytes(151, o);
    ev_bytes(152, m);
    shape(&v, o, m, c.unwrap_or(3));
}
struct Client {
    base: Text,
    version: u64,
    wait: bool,
    pending: Option<(u64, Req)>,
    next: u64,
    left: u64,
    /// What it got through and has not taken back.
    past: Vec<Req>,
}
#[derive(Clone)]
struct Store {
    doc: Text,
    version: u64,
    done: Vec<(u64, bool)>,
}
fn world() {
    let mut f = Fresh { n: 0, fl: gen::flavour() };
    let mut l: Vec<Vec<u8>> = (0..1 + chz(30)).map(|_| f.line()).collect();
    if coin(1, 32) {
        probe(C::p_big_doc);
        let k = pick(&[100, 400, 1500]);
        l.extend((0..k).map(|i| format!("filler {}\n", i).into_bytes()));
    }
    let mut start = l.concat();
    if coin(1, 4) {
        start.extend_from_slice(b"the end");
        probe(C::p_no_newline);
    }
    let start = leak(start);
    note(|| format!("document {}", rt::esc(start)));
    let nc = 1 + chz(4);
    let mut client: Vec<Client> =
        (0..nc).map(|_| Client { base: start, version: 0, wait: false, pending: None, next: 1, left: 1 + ch(4), past: vec![] }).collect();
    let mut store = Store { doc: start, version: 0, done: vec![(0, false); nc] };
    let mut disk = store.clone();
    let mut net: Net<Msg> = Net::new(nc + 1);
    for c in 0..nc {
        net.timer(c + 1, 1 + ch(100), Msg::Work);
    }
    let mut steps = 0u64;
    while let Some((from, to, m)) = next(&mut net) {
        steps += 1;
        if steps == 150 || net.now() > 100_000 * MS {
            net.heal();
        }
        rt::check_ok(steps < 6000, "progress", || "the clients did not get their edits through after the network healed".into());
        match m {
            Msg::Work => {
                let c = &mut client[to - 1];
                if let Some((id, r)) = c.pending {
                    net.send(to, 0, Msg::Patch(id, r));
                } else if c.wait || (c.left > 0 && coin(1, 4)) {
                    net.send(to, 0, Msg::Fetch);
                } else if c.left > 0 {
                    compose(c, &mut f, to);
                }
                if c.left > 0 || c.pending.is_some() {
                    net.timer(to, 20 + ch(300), Msg::Work);
                }
            }
            Msg::Fetch => net.send(0, from, Msg::Doc(store.version, store.doc)),
            Msg::Doc(v, t) => {
                let c = &mut client[to - 1];
                if v >= c.version {
                    (c.version, c.base) = (v, t);
                    c.wait = false;
                } else {
                    fault(C::f_stale_sync);
                }
            }
            Msg::Patch(id, r) => {
                if !net.healed && coin(1, 20) {
                    fault(C::f_crash);
                    fault(C::f_node_restart);
                    store = disk.clone();
                }
                let got = deliver(f.fl, &r, store.doc, from);
                let (last, was) = store.done[from - 1];
                if id < last {
                    fault(C::f_stale_patch);
                } else {
                    if id > last {
                        if let Ok(d) = &got {
                            store.doc = leak(d.clone());
                            store.version += 1;
                        }
                        store.done[from - 1] = (id, got.is_ok());
                        if net.healed || coin(3, 4) {
                            disk = store.clone();
                        }
                    } else if was == got.is_ok() && was {
                        probe(C::p_dup_applied);
                    }
                    // an acknowledgement states what is on disk
                    if disk.done[from - 1].0 == id {
                        net.send(0, from, Msg::Ack(id, disk.done[from - 1].1));
                    } else {
                        disk = store.clone();
                    }
                }
            }
            Msg::Ack(id, ok) => {
                let c = &mut client[to - 1];
                if let Some((x, r)) = c.pending.filter(|p| p.0 == id) {
                    ev(153, x << 1 | ok as u64);
                    note(|| format!("client {} learns that its patch {} was {}", to, x, if ok { "applied" } else { "refused" }));
                    c.pending = None;
                    if ok {
                        c.left -= 1;
                        c.past.push(r);
                        if coin(1, 2) {
                            c.wait = true;
                        } else if c.base == r.before {
                            // goes on from its own version
                            c.base = r.after;
                        }
                    } else {
                        c.wait = true;
                    }
                }
            }
        }
        if client.iter().all(|c| c.left == 0) {
            break;
        }
    }
    ev_bytes(154, store.doc);
    probe(C::p_converged);
}
fn next(net: &mut Net<Msg>) -> Option<(usize, usize, Msg)> {
    net.next()
}
fn compose(c: &mut Client, f: &mut Fresh, me: usize) {
    if !c.past.is_empty() && coin(1, 4) {
        let r = c.past.swap_remove(chz(c.past.len()));
        let (b, n) = (gen::split(r.after), gen::split(r.before));
        let (g, _) = groups(&edits(&b, &n), r.ctx, b.len());
        // without lines to look for a hunk is only a position
        if g.iter().all(|g| g.old.0 < g.old.1) && !n.is_empty() {
            probe(C::p_undo);
            let p: &'static P<'static> = match api::parse(f.fl, r.text) {
                Ok(p) => Box::leak(Box::new(p)),
                Err(e) => rt::violate("unreadable", format!("{} is rejected: {}", rt::esc(r.text), e)),
            };
            let q = Req { text: send(Box::leak(Box::new(api::reverse(p)))), before: r.after, after: r.before, ..r };
            note(|| format!("client {} takes back {}", me, rt::esc(r.text)));
            c.pending = Some((c.next, q));
            c.next += 1;
            return;
        }
    }
    let (o, ctx) = context();
    let base = c.base;
    let after = leak(edit(f, base, ctx, ctx == 0));
    if after.is_empty() {
        return;
    }
    let Some((r, _)) = request(f.fl, o, ctx, base, after) else {
        return;
    };
    let (b, n) = (gen::split(base), gen::split(after));
    if groups(&edits(&b, &n), ctx, b.len()).0.iter().any(|g| g.old.0 == g.old.1) {
        return;
    }
    note(|| format!("client {} makes {} of {} with {} lines of context", me, rt::esc(after), rt::esc(base), ctx));
    c.pending = Some((c.next, r));
    c.next += 1;
}
fn deliver(fl: Fl, r: &Req, doc: Text, from: usize) -> Result<Vec<u8>, usize> {
    let p: P<'static> = match api::parse(fl, r.text) {
        Ok(p) => p,
        Err(e) => rt::violate("unreadable", format!("{} is rejected: {}", rt::esc(r.text), e)),
    };
    let got = api::apply(&p, doc);
    ev(155, got.is_ok() as u64);
    note(|| format!("the patch {} of client {} meets {}: {}", rt::esc(r.text), from, rt::esc(doc), show(&got)));
    probe(if got.is_ok() { C::p_apply_ok } else { C::p_apply_err });
    match (judge(r, doc), &got) {
        (Verdict::Open, _) => {}
        (Verdict::Fits(want), Ok(d)) if want == *d => {}
        // one hunk for both edits then, or two
        (Verdict::Fits(_), Err(_)) if r.touching => {}
        (Verdict::Refused(n), Err(m)) if n == *m || r.touching => {}
        (Verdict::Fits(want), _) => rt::violate(
            if got.is_ok() { "misplaced" } else { "refused" },
            format!("none of the lines that {} guards has changed in {}, the result must be {} and is {}", rt::esc(r.text), rt::esc(doc), rt::esc(&want), show(&got)),
        ),
        (Verdict::Refused(n), _) => rt::violate(
            "unguarded",
            format!("the lines that hunk {} of {} guards ({} around its edits) are not those of {} any more, and the result is {}", n, rt::esc(r.text), r.ctx, rt::esc(doc), show(&got)),
        ),
    }
    got
}
