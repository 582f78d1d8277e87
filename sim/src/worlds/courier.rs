//! C03: an author saves a patch on an unreliable disk and sends it through relays to readers.
use crate::api::{self, leak, Fl, P};
use crate::gen;
use crate::net::{save, Net, SaveResult, Saved};
use crate::rt::{self, ch, chz, coin, ev_bytes, fault, note, probe, Caught, SimPanic};
use crate::stats::C;
use diffy::PatchFormatter;
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Saves until the store acknowledges; crashes and errors lead to another attempt.
pub fn store(p: &P<'_>, hint: usize) -> Vec<u8> {
    for attempt in 0.. {
        let form = ch(4);
        let r = save(attempt >= 5, hint, |w| match form {
            // the caller renders into memory first
            3 => {
                raw_write(w, &api::to_bytes(p))
            }
            2 if matches!(p, P::S(_)) => {
                raw_write(w, &api::to_text(p).unwrap())
            }
            // blank context lines with or without their leading space
            f => match api::write(&PatchFormatter::new().suppress_blank_empty(f == 0), p, w).0 {
                Ok(Ok(())) => SaveResult::Ok,
                Ok(Err(_)) => SaveResult::Err,
                Err(Caught::Injected) => SaveResult::Panicked,
                Err(Caught::Bug(m)) => rt::violate("panic", m),
            },
        });
        match r {
            Saved::Acked(b) => return b,
            Saved::Failed => note(|| format!("save attempt {} failed", attempt)),
            Saved::Crashed { durable } => {
                note(|| format!("crash while saving; {} bytes are left and discarded", durable.len()));
                fault(C::f_node_restart);
            }
        }
    }
    unreachable!()
}

/// The caller's own write of bytes it rendered before.
fn raw_write(w: &mut dyn Write, b: &[u8]) -> SaveResult {
    match catch_unwind(AssertUnwindSafe(|| w.write_all(b))) {
        Ok(Ok(())) => SaveResult::Ok,
        Ok(Err(_)) => SaveResult::Err,
        Err(e) if e.is::<SimPanic>() => SaveResult::Panicked,
        Err(e) => resume_unwind(e),
    }
}

#[derive(Clone)]
enum Msg {
    Data(usize, &'static [u8]),
    Ack(usize),
    Retry(usize),
}

pub fn c03() {
    rt::phase(world);
}
fn world() {
    let x = gen::made_upto(70_000);
    let (o, m) = (x.o, x.m);
    let utf8 = api::is_utf8(o) && api::is_utf8(m);
    note(|| format!("{:?} {} -> {} with {:?}", x.fl, rt::esc(o), rt::esc(m), x.d));
    let hint = 64 + o.len() + m.len();
    // in a flavour the texts allow; a node chooses its own API
    let flavour = || if utf8 && !coin(1, 2) { Fl::S } else { Fl::B };
    let mut first: &'static [u8] = leak(store(&x.p, hint));
    if coin(1, 4) {
        // acknowledged, then the author crashes and continues from its disk
        fault(C::f_node_restart);
        probe(C::p_crash_after_ack);
        first = leak(first.to_vec());
    }
    check_copy(&x, flavour(), first, "the author");
    let nodes = 2 + chz(4);
    // node 0 is the author; node i gets its copy from node i-1; the last two are both fed by the last relay
    let feeds = |i: usize| -> Vec<usize> {
        if i + 2 == nodes - 1 && nodes > 3 {
            vec![i + 1, i + 2]
        } else if i + 1 < nodes && !(nodes > 3 && i + 1 == nodes - 1) {
            vec![i + 1]
        } else {
            vec![]
        }
    };
    let mut net: Net<Msg> = Net::new(nodes);
    let mut have: Vec<Option<&'static [u8]>> = vec![None; nodes];
    let mut acked = vec![false; nodes];
    have[0] = Some(first);
    for t in feeds(0) {
        net.timer(0, 1, Msg::Retry(t));
    }
    let mut steps = 0;
    while let Some((from, to, msg)) = net.next() {
        steps += 1;
        if steps > 60 && !net.healed {
            net.heal();
        }
        rt::check_ok(steps < 400, "harness", || "courier does not terminate".into());
        match msg {
            Msg::Retry(t) => {
                if !acked[t] {
                    if let Some(b) = have[to] {
                        net.send(to, t, Msg::Data(to, b));
                    }
                    net.timer(to, 400, Msg::Retry(t));
                }
            }
            Msg::Ack(who) => acked[who] = true,
            Msg::Data(src, b) => {
                let _ = from;
                if have[to].is_some() && !coin(1, 4) {
                    net.send(to, src, Msg::Ack(to));
                    continue;
                }
                let p = check_copy(&x, flavour(), b, "a node");
                probe(C::p_relay_hop);
                // relay: its own rendering of what it read, saved on its own disk
                let copy: &'static [u8] = leak(store(&p, hint));
                ev_bytes(31, copy);
                if have[to].is_none() {
                    have[to] = Some(copy);
                    for t in feeds(to) {
                        net.timer(to, 1, Msg::Retry(t));
                    }
                }
                net.send(to, src, Msg::Ack(to));
            }
        }
    }
    for (i, h) in have.iter().enumerate() {
        rt::check_ok(h.is_some(), "progress", || format!("node {} never got the patch although the network healed", i));
        check_copy(&x, flavour(), h.unwrap(), "a reader");
    }
}
fn check_copy(x: &gen::Made, fl: Fl, b: &'static [u8], who: &str) -> P<'static> {
    ev_bytes(30, b);
    if fl == Fl::S && !api::is_utf8(b) {
        rt::violate("rendering", format!("the patch of two UTF-8 texts was stored as {}", rt::esc(b)));
    }
    let p = match api::parse(fl, b) {
        Ok(p) => p,
        Err(e) => rt::violate("unreadable", format!("{} cannot read the acknowledged patch {}: {}", who, rt::esc(b), e)),
    };
    let v = api::view(&p);
    if v != x.view {
        rt::violate("unequal", format!("{} reads {:?} instead of {:?} from {}", who, v, x.view, rt::esc(b)));
    }
    if fl == x.fl {
        rt::check_ok(api::eq(&p, &x.p), "unequal", || format!("{}: the patch read back is not == the created one", who));
    }
    let r = api::apply(&p, x.o);
    if r.as_deref() != Ok(x.m) {
        rt::violate("apply", format!("{} applying {} to {} got {} instead of {}", who, rt::esc(b), rt::esc(x.o), show(&r), rt::esc(x.m)));
    }
    probe(C::p_reverse);
    let q: &'static P<'static> = Box::leak(Box::new(p));
    let back = api::reverse(q);
    let r = api::apply(&back, x.m);
    if r.as_deref() != Ok(x.o) {
        rt::violate(
            "reverse-apply",
            format!("{} applying the reverse of {} to {} got {} instead of {}", who, rt::esc(b), rt::esc(x.m), show(&r), rt::esc(x.o)),
        );
    }
    let _ = chz(1);
    q.clone()
}
pub fn show(r: &Result<Vec<u8>, usize>) -> String {
    match r {
        Ok(d) => rt::esc(d),
        Err(n) => format!("an error at hunk {}", n),
    }
}
