//! C08: authors of separate regions exchange patches over an unreliable network; every replica must
//! end with the same text, and repeated deliveries must bounce.
use crate::api::{self, leak, Fl, FOpts, P};
use crate::model;
use crate::net::{Net, MS};
use crate::rt::{self, between, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;
use crate::worlds::courier::show;
use diffy::PatchFormatter;

pub fn c08() {
    rt::phase(world);
}
#[derive(Clone, Copy)]
enum Msg {
    Patch(usize, usize),
    Ack(usize, usize, usize),
    Retry(usize),
}
struct Item {
    text: &'static [u8],
    bounces: bool,
}
struct Replica {
    doc: Vec<u8>,
    applied: Vec<usize>,
    disk: (Vec<u8>, Vec<usize>),
}
fn fresh(n: &mut u32, fl: Fl) -> Vec<u8> {
    *n += 1;
    let mut v = match ch(5) {
        0 => format!("line {}", n).into_bytes(),
        4 => crate::gen::similar_nth(*n as u64).into_bytes(),
        1 => format!("  \u{2603}{}", n).into_bytes(),
        2 => format!("- {}", n).into_bytes(),
        _ => format!("{}\r", n).into_bytes(),
    };
    if fl == Fl::B && coin(1, 4) {
        v.push(0xff);
    }
    v.push(b'\n');
    v
}
fn world() {
    let fl = gen_flavour();
    let mut n = 0;
    let na = 1 + chz(4);
    // long stretches nobody edits
    let filler = if coin(1, 32) { pick(&[60, 300, 1200]) } else { 0 };
    if filler > 0 {
        probe(C::p_big_doc);
    }
    let pad = |v: &mut Vec<Vec<u8>>, s: usize| {
        if filler > 0 && coin(2, 3) {
            let n = v.len() / 2;
            let k = 1 + chz(filler);
            v.splice(n..n, (0..k).map(|i| format!("filler {} {}\n", s, i).into_bytes()));
        }
    };
    let ctx: Vec<usize> = (0..na).map(|_| pick(&[3, 1, 2, 5])).collect();
    let gap = ctx.iter().copied().max().unwrap();
    // document = region, separator lines, region, ...; separators are as long as the longest context
    let mut regions: Vec<Vec<Vec<u8>>> = vec![];
    let mut seps: Vec<Vec<Vec<u8>>> = vec![(0..chz(gap + 2)).map(|_| fresh(&mut n, fl)).collect()];
    for i in 0..na {
        regions.push((0..chz(9)).map(|_| fresh(&mut n, fl)).collect());
        let k = if i + 1 < na { gap + chz(3) } else { chz(gap + 2) };
        seps.push((0..k).map(|_| fresh(&mut n, fl)).collect());
        pad(seps.last_mut().unwrap(), i);
    }
    if regions.iter().flatten().count() + seps.iter().flatten().count() == 0 {
        return;
    }
    let assemble = |r: &[Vec<Vec<u8>>]| -> Vec<u8> {
        let mut v = seps[0].concat();
        for (i, x) in r.iter().enumerate() {
            v.extend(x.concat());
            v.extend(seps[i + 1].concat());
        }
        v
    };
    let base = assemble(&regions);
    let mut finals = regions.clone();
    // every author works on a private copy in which only its own region changes
    let mut items: Vec<Vec<Item>> = vec![];
    for a in 0..na {
        let mut mine = regions.clone();
        let mut list = vec![];
        for _ in 0..1 + chz(3) {
            let before = leak(assemble(&mine));
            let r = &mut mine[a];
            for _ in 0..1 + chz(3) {
                let k = r.len();
                let at = chz(k + 1);
                match ch(4) {
                    0 => r.insert(at, fresh(&mut n, fl)),
                    1 if k > 0 => {
                        r.remove(at.min(k - 1));
                    }
                    2 if k > 0 => r[at.min(k - 1)] = fresh(&mut n, fl),
                    _ => {
                        for _ in 0..1 + chz(3) {
                            r.insert(at, fresh(&mut n, fl));
                        }
                    }
                }
            }
            let after = leak(assemble(&mine));
            let d = api::DOpts::with_ctx(Some(ctx[a]));
            let p = api::create(fl, &d, before, after);
            let v = api::view(&p);
            // a hunk without old lines states a position and nothing else: out of scope
            if v.hunks.iter().any(|h| h.old.1 == 0) {
                return;
            }
            let bounces = v.hunks.iter().any(|h| {
                h.lines.iter().any(|l| l.0 == b'-')
                    || (h.lines.first().map(|l| l.0) == Some(b' ') && h.lines.last().map(|l| l.0) == Some(b' '))
            });
            let mut w: Vec<u8> = vec![];
            let r = api::write(&PatchFormatter::new(), &p, &mut w);
            rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "rendering into memory failed".into());
            list.push(Item { text: leak(w), bounces });
        }
        finals[a] = mine[a].clone();
        items.push(list);
    }
    let want = assemble(&finals);
    note(|| format!("{} authors, base {}, expected end {}", na, rt::esc(&base), rt::esc(&want)));
    let nr = 1 + chz(3);
    let mut reps: Vec<Replica> =
        (0..nr).map(|_| Replica { doc: base.clone(), applied: vec![0; na], disk: (base.clone(), vec![0; na]) }).collect();
    // nodes: authors 0..na, replicas na..na+nr
    let mut net: Net<Msg> = Net::new(na + nr);
    let mut acked = vec![vec![0usize; na]; nr];
    for a in 0..na {
        net.timer(a, 1 + ch(300), Msg::Retry(a));
    }
    let mut steps = 0;
    while let Some((_, to, m)) = net.next() {
        steps += 1;
        if steps == 150 {
            net.heal();
        }
        rt::check_ok(steps < 4000, "progress", || "replicas did not catch up after the network healed".into());
        match m {
            Msg::Retry(a) => {
                let mut open = false;
                for r in 0..nr {
                    let k = acked[r][a];
                    if k < items[a].len() {
                        open = true;
                        // sometimes the author pipelines everything it has, sometimes it repeats old ones
                        let last = if coin(1, 2) { items[a].len() - 1 } else { k };
                        for i in k..=last {
                            net.send(a, na + r, Msg::Patch(a, i));
                        }
                    }
                    if k > 0 && coin(1, 6) {
                        fault(C::f_msg_dup);
                        net.send(a, na + r, Msg::Patch(a, k - 1));
                    }
                }
                if open {
                    net.timer(a, 700, Msg::Retry(a));
                }
            }
            Msg::Ack(r, a, k) => acked[r][a] = acked[r][a].max(k),
            Msg::Patch(a, i) => {
                let r = to - na;
                if coin(1, 20) && !net.healed {
                    // the replica crashes and restarts from its disk
                    fault(C::f_crash);
                    fault(C::f_node_restart);
                    let d = reps[r].disk.clone();
                    reps[r].doc = d.0;
                    reps[r].applied = d.1;
                }
                deliver(&mut reps[r], r, a, i, &items[a][i], fl);
                if reps[r].applied[a] > i {
                    // durable before it is acknowledged
                    if coin(3, 4) || net.healed {
                        reps[r].disk = (reps[r].doc.clone(), reps[r].applied.clone());
                        net.send(to, a, Msg::Ack(r, a, reps[r].applied[a]));
                    }
                }
                if steps > 300 && net.now() > 100_000 * MS {
                    net.heal();
                }
            }
        }
    }
    for (r, x) in reps.iter().enumerate() {
        ev_bytes(91, &x.doc);
        if x.doc != want {
            rt::violate("diverged", format!("replica {} ends with {} instead of {} (base {})", r, rt::esc(&x.doc), rt::esc(&want), rt::esc(&base)));
        }
    }
    probe(C::p_converged);
    let _ = (between(0, 0), FOpts::DEFAULT);
    let _ = model::NO_NL;
}
fn deliver(x: &mut Replica, r: usize, a: usize, i: usize, it: &Item, fl: Fl) {
    ev(90, (r as u64) << 32 | (a as u64) << 16 | i as u64);
    if i > x.applied[a] {
        return; // wait for the earlier ones of this author
    }
    let p: P<'static> = match api::parse(fl, it.text) {
        Ok(p) => p,
        Err(e) => rt::violate("unreadable", format!("{} is rejected: {}", rt::esc(it.text), e)),
    };
    if i + 1 < x.applied[a] {
        return; // superseded by a later patch of its author
    }
    let got = api::apply(&p, &x.doc);
    if i < x.applied[a] {
        if !it.bounces {
            return;
        }
        probe(C::p_dup_rejected);
        note(|| format!("replica {} sees patch {} of author {} again", r, i, a));
        if got.is_ok() {
            probe(C::p_dup_applied);
            rt::violate(
                "applied-twice",
                format!("{} applied a second time to {} gives {}", rt::esc(it.text), rt::esc(&x.doc), show(&got)),
            );
        }
        return;
    }
    note(|| format!("replica {} applies patch {} of author {}", r, i, a));
    match got {
        Ok(d) => {
            x.doc = d;
            x.applied[a] += 1;
        }
        Err(n) => rt::violate(
            "refused",
            format!("{} cannot be applied to {} (error at hunk {})", rt::esc(it.text), rt::esc(&x.doc), n),
        ),
    }
}
fn gen_flavour() -> Fl {
    crate::gen::flavour()
}
