//! C09: a journal of patches on a disk that loses its unsynced tail; recovery by undo and redo.
use crate::api::{self, leak, Fl, P};
use crate::gen::{self, Lines};
use crate::model;
use crate::rt::{self, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;
use crate::worlds::courier::{show, store};

pub fn c09() {
    rt::phase(world);
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(&(h as u32).to_le_bytes());
    v.extend_from_slice(b);
    v
}
/// Complete records from the start of the journal; stops at the first torn one.
fn records(mut b: &[u8]) -> Vec<&[u8]> {
    let mut out = vec![];
    while b.len() >= 8 {
        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if b.len() < 8 + n || frame(&b[8..8 + n])[..8] != b[..8] {
            break;
        }
        out.push(&b[8..8 + n]);
        b = &b[8 + n..];
    }
    out
}
fn world() {
    let fl = gen::flavour();
    let st = gen::style();
    let mut l: Lines = if coin(1, 32) {
        probe(C::p_big_doc);
        gen::bulk(&mut gen::Sub::new(), pick(&[100, 400, 2500]), pick(&[2, 10, 100_000]))
    } else {
        gen::doc_lines(fl, st, 24)
    };
    let mut nl = !coin(1, 4);
    let mut versions: Vec<&'static [u8]> = vec![leak(gen::join(&l, nl))];
    let mut journal: Vec<u8> = vec![];
    let mut synced = 0usize;
    let mut durable = 0usize; // versions whose connecting records are surely durable
    let mut reversed: Vec<bool> = vec![];
    let mut stored: Vec<api::View> = vec![];
    let steps = 1 + chz(6);
    for i in 0..steps {
        if l.is_empty() && coin(1, 2) {
            l = gen::doc_lines(fl, st, 10);
        } else if coin(1, 12) {
            l = vec![];
        } else {
            gen::mutate(fl, st, &mut l);
        }
        if coin(1, 5) {
            nl = !nl;
        }
        let (o, m) = (versions[i], leak(gen::join(&l, nl)));
        let d = if coin(1, 4) { gen::dopts() } else { api::DOpts::with_ctx(gen::context()) };
        let mut p = api::create(fl, &d, o, m);
        if coin(1, 3) {
            // the author adds function contexts or leaves out file names
            let mut v = api::view(&p);
            gen::decorate(&mut v, fl);
            if coin(1, 4) {
                gen::idle(&mut v, o);
            }
            if let Ok(q) = api::parse(fl, leak(model::render(&v, &api::FOpts::DEFAULT))) {
                p = q;
            }
        }
        let p: &'static P<'static> = Box::leak(Box::new(p));
        let back: &'static P<'static> = Box::leak(Box::new(api::reverse(p)));
        let again = api::reverse(back);
        if api::view(&again) != api::view(p) || !api::eq(&again, p) {
            rt::violate("reverse-twice", format!("reversing {:?} twice gives {:?}", api::view(p), api::view(&again)));
        }
        // some journals keep undo records
        let rev = coin(1, 3);
        let rec = store(if rev { back } else { p }, 64 + o.len() + m.len());
        stored.push(api::view(if rev { back } else { p }));
        reversed.push(rev);
        journal.extend(frame(&rec));
        versions.push(m);
        ev_bytes(100, m);
        note(|| format!("version {} {} (record {} bytes, undo record: {})", i + 1, rt::esc(m), rec.len(), rev));
        if coin(2, 3) {
            synced = journal.len();
            durable = i + 1;
        }
    }
    // crash: everything synced survives, and some prefix of the rest
    fault(C::f_crash);
    let keep = synced + chz(journal.len() - synced + 1);
    if keep < journal.len() {
        fault(C::f_lost_unsynced);
    }
    let disk: &'static [u8] = leak(journal[..keep].to_vec());
    let recs = records(disk);
    rt::check_ok(recs.len() >= durable, "harness", || "journal lost a synced record".into());
    if disk.len() > recs.iter().map(|r| r.len() + 8).sum::<usize>() {
        fault(C::f_torn_write);
        probe(C::p_journal_torn);
    }
    fault(C::f_node_restart);
    let utf8 = recs.iter().all(|r| api::is_utf8(r)) && versions.iter().all(|v| api::is_utf8(v));
    let n = recs.len();
    let fl = if utf8 { gen::flavour() } else { Fl::B };
    let mut fwd: Vec<&'static P<'static>> = vec![];
    let mut bwd: Vec<&'static P<'static>> = vec![];
    for (i, r) in recs.iter().enumerate() {
        let p: &'static P<'static> = match api::parse(fl, r) {
            Ok(p) => Box::leak(Box::new(p)),
            Err(e) => rt::violate("unreadable", format!("record {} of the journal: {}: {}", i, rt::esc(r), e)),
        };
        let v = api::view(p);
        if v != stored[i] {
            rt::violate("record", format!("record {} of the journal reads as {:?} instead of {:?}: {}", i, v, stored[i], rt::esc(r)));
        }
        let q: &'static P<'static> = Box::leak(Box::new(api::reverse(p)));
        if reversed[i] {
            fwd.push(q);
            bwd.push(p);
        } else {
            fwd.push(p);
            bwd.push(q);
        }
    }
    // one surviving version, then a walk that visits every other one
    let mut at = chz(n + 1);
    let mut doc: Vec<u8> = versions[at].to_vec();
    let mut plan: Vec<usize> = vec![];
    for _ in 0..ch(6) {
        plan.push(chz(n + 1));
    }
    plan.push(0);
    plan.push(n);
    if coin(1, 2) {
        plan.push(0);
    }
    for target in plan {
        while at != target {
            let up = at < target;
            let p = if up { fwd[at] } else { bwd[at - 1] };
            let next = if up { at + 1 } else { at - 1 };
            probe(if up { C::p_redo } else { C::p_undo });
            let r = api::apply(p, &doc);
            if r.as_deref() != Ok(versions[next]) {
                rt::violate(
                    if up { "redo" } else { "undo" },
                    format!(
                        "version {} -> {}: {} applied to {} gives {} instead of {}",
                        at,
                        next,
                        rt::esc(&api::to_bytes(p)),
                        rt::esc(&doc),
                        show(&r),
                        rt::esc(versions[next])
                    ),
                );
            }
            doc = r.unwrap();
            at = next;
            ev(101, at as u64);
        }
    }
}
