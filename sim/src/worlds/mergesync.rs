//! C10: clients synchronise one document with a server by three-way merges over a lossy network.
use crate::api::{self, Fl};
use crate::gen::{self, Lines};
use crate::model::{self, Chunk};
use crate::net::Net;
use crate::rt::{self, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;

pub fn c10() {
    rt::phase(|| match ch(8) {
        0 => follow(),
        1..=3 => sync(false),
        _ => sync(true),
    });
}

#[derive(Clone)]
enum Msg {
    Fetch(usize, u64),
    Doc(u64, u64, Vec<u8>),
    Push(usize, u64, u64, Vec<u8>),
    Ack(u64, u64),
    Stale(u64),
    Tick,
    Retry(u64),
}
#[derive(Clone)]
struct Saved {
    base_ver: u64,
    base: Vec<u8>,
    copy: Vec<u8>,
    in_flight: bool,
    own: Vec<(usize, Lines)>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Wait {
    No,
    Doc(u64),
    Ack(u64),
}
struct Client {
    s: Saved,
    disk: Saved,
    wait: Wait,
    pushed: Vec<u8>,
    edits: usize,
}
/// One merge as an application does it, judged against the reference.
fn merge(base: &[u8], copy: &[u8], theirs: &[u8], no_conflict: bool) -> Option<Result<Vec<u8>, Vec<u8>>> {
    let swap = coin(1, 4);
    let (x, y) = if swap { (theirs, copy) } else { (copy, theirs) };
    let utf8 = [base, x, y].iter().all(|b| api::is_utf8(b));
    let fl = if utf8 { gen::flavour() } else { Fl::B };
    let len = pick(&[None, Some(7), Some(0), Some(1), Some(3), Some(40), Some(8), None, pick_len()]);
    let style = pick(&[None, Some(true), Some(false)]);
    if len == Some(0) {
        probe(C::p_marker_zero);
    }
    let got = api::merge(fl, len, style, base, x, y);
    let c = model::chunks(base, x, y)?;
    let want = model::merged(&c, len.unwrap_or(7), style.unwrap_or(true));
    let conflicts = c.iter().filter(|c| matches!(c, Chunk::Conflict { .. })).count();
    note(|| format!("merge base {} ours {} theirs {}: {} conflicts", rt::esc(base), rt::esc(x), rt::esc(y), conflicts));
    let (ok, out) = match &got {
        Ok(b) => (true, b),
        Err(b) => (false, b),
    };
    ev_bytes(110 + ok as u64, out);
    if ok != (conflicts == 0) || *out != want {
        rt::violate(
            if ok && conflicts > 0 {
                "conflict-missed"
            } else if !ok && conflicts == 0 {
                "false-conflict"
            } else if ok {
                "merge-result"
            } else {
                "conflict-text"
            },
            format!(
                "merging {} (ours) and {} (theirs) with base {}, marker length {:?}, diff3 style {:?}: {} {} instead of {} {}",
                rt::esc(x),
                rt::esc(y),
                rt::esc(base),
                len,
                style,
                if ok { "clean" } else { "conflict" },
                rt::esc(out),
                if conflicts == 0 { "clean" } else { "conflict" },
                rt::esc(&want)
            ),
        );
    }
    if conflicts > 0 {
        rt::check_ok(!no_conflict, "harness", || "the reference sees a conflict of edits of separate regions".into());
        probe(C::p_merge_conflict);
        if c.iter().any(|c| {
            matches!(c, Chunk::Conflict { base, ours, theirs } if [base, ours, theirs].iter().any(|v| v.last().map_or(false, |l| l.last() != Some(&b'\n'))))
        }) {
            probe(C::p_merge_conflict_no_newline);
        }
        // the person resolves every conflict
        let mut r: Vec<u8> = vec![];
        for c in c {
            match c {
                Chunk::Clear(l) => r.extend(l.concat()),
                Chunk::Conflict { ours, theirs, .. } => match ch(3) {
                    0 => r.extend(ours.concat()),
                    1 => r.extend(theirs.concat()),
                    _ => r.extend(fresh(false)),
                },
            }
        }
        Some(Err(r))
    } else {
        probe(C::p_merge_ok);
        if copy != base && theirs != base {
            probe(C::p_merge_both_sides);
            if shared_edit(base, copy, theirs) {
                probe(C::p_merge_shared_edit);
            }
        }
        Some(got)
    }
}
/// Marker lengths around the limits a narrower counter or a fixed buffer would have.
fn pick_len() -> Option<usize> {
    match ch(40) {
        0 => Some(65_535 + chz(3)),
        n if n < 8 => Some(255 + chz(3)),
        n if n < 14 => Some(1023 + chz(3)),
        n if n < 20 => Some(127 + chz(3)),
        n => Some(8 + n as usize * 3),
    }
}
fn shared_edit(a: &[u8], o: &[u8], t: &[u8]) -> bool {
    let (a, t) = (gen::split(a), gen::split(t));
    gen::split(o).iter().any(|l| !a.contains(l) && t.contains(l))
}
fn fresh(binary: bool) -> Vec<u8> {
    // unique within the run
    let r = rt::run();
    r.serial += 1;
    let n = r.serial;
    let mut v = match ch(8) {
        0 | 1 => format!("line {}", n),
        6 | 7 => gen::similar_nth(n as u64),
        2 => format!("\u{2603} {}", n),
        3 => format!("<<<<<<< ours {}", n),
        4 => format!("======={}", n),
        _ => format!("\t{}\r", n),
    }
    .into_bytes();
    if binary && coin(1, 6) {
        v.push(0xfe);
    }
    v.push(b'\n');
    v
}
fn edit(l: &mut Lines, a: usize, e: usize, binary: bool) {
    let k = e - a;
    let at = a + chz(k + 1);
    match ch(6) {
        0 => l.insert(at, fresh(binary)),
        1 if k > 0 => {
            l.remove(at.min(e - 1));
        }
        2 if k > 0 => l[at.min(e - 1)] = fresh(binary),
        3 => {
            for _ in 0..1 + chz(3) {
                l.insert(at, fresh(binary));
            }
        }
        4 if k > 0 => {
            let s = at.min(e - 1);
            let n = (1 + chz(4)).min(e - s);
            l.drain(s..s + n);
            if coin(1, 2) {
                l.insert(s, fresh(binary));
            }
        }
        _ if k > 0 && e == l.len() => {
            // the final newline comes or goes
            let x = l.last_mut().unwrap();
            if x.last() == Some(&b'\n') {
                if x.len() > 1 {
                    x.pop();
                }
            } else {
                x.push(b'\n');
            }
        }
        _ => l.insert(at, fresh(binary)),
    }
    let n = l.len();
    for x in l.iter_mut().take(n.saturating_sub(1)) {
        if x.last() != Some(&b'\n') {
            x.push(b'\n');
        }
    }
}
fn to_lines(b: &[u8]) -> Lines {
    gen::split(b).iter().map(|x| x.to_vec()).collect()
}
fn sync(disjoint: bool) {
    rt::run().serial = 0;
    let binary = coin(1, 4);
    let nc = 2 + chz(3);
    // a document worked on in many places at once
    let many = if coin(1, 160) { 4 + chz(60) } else { 0 };
    let nregions = many + if disjoint { nc + chz(3) } else { 1 + chz(3) };
    // long stretches nobody edits
    let filler = if coin(1, 64) { pick(&[60, 300, 1200]) } else { 0 };
    if filler > 0 {
        probe(C::p_big_doc);
    }
    let mut seps: Vec<Lines> = vec![];
    let mut regions: Vec<Lines> = vec![];
    for i in 0..=nregions {
        let least = (i > 0 && i < nregions) as usize;
        seps.push((0..least + chz(2)).map(|_| fresh(binary)).collect());
        if filler > 0 && coin(2, 3) {
            let s = seps.last_mut().unwrap();
            s.extend((0..1 + chz(filler)).map(|k| format!("filler {} {}\n", i, k).into_bytes()));
        }
        if i < nregions {
            regions.push((0..chz(5)).map(|_| fresh(binary)).collect());
        }
    }
    let owner: Vec<usize> = (0..nregions).map(|i| if i < nc { i } else { chz(nc) }).collect();
    let assemble = |r: &[Lines]| -> Lines {
        let mut v = seps[0].clone();
        for (i, x) in r.iter().enumerate() {
            v.extend(x.iter().cloned());
            v.extend(seps[i + 1].iter().cloned());
        }
        v
    };
    let bounds = |l: &Lines, r: usize| -> Option<(usize, usize)> {
        let a = match seps[r].last() {
            Some(s) => l.iter().position(|x| x == s)? + 1,
            None => 0,
        };
        let e = match seps[r + 1].first() {
            Some(s) => l.iter().position(|x| x == s)?,
            None => l.len(),
        };
        if a <= e {
            Some((a, e))
        } else {
            None
        }
    };
    let mut doc: Vec<u8> = assemble(&regions).concat();
    // without a separator at the end the text may lack its final newline
    if seps[nregions].is_empty() && !regions[nregions - 1].is_empty() && coin(1, 3) {
        doc.pop();
        regions[nregions - 1].last_mut().unwrap().pop();
    }
    let mut version = 0u64;
    let s0 = Saved { base_ver: 0, base: doc.clone(), copy: doc.clone(), in_flight: false, own: vec![] };
    let mut cl: Vec<Client> = (0..nc)
        .map(|c| {
            let mut s = s0.clone();
            s.own = (0..nregions).filter(|r| owner[*r] == c).map(|r| (r, regions[r].clone())).collect();
            Client { s: s.clone(), disk: s, wait: Wait::No, pushed: vec![], edits: 1 + chz(4) + if many > 0 { chz(many + 1) } else { 0 } }
        })
        .collect();
    note(|| format!("{} clients, {} regions, separate owners: {}, base {}", nc, nregions, disjoint, rt::esc(&doc)));
    let srv = nc;
    let mut net: Net<Msg> = Net::new(nc + 1);
    let mut seq = 0u64;
    for c in 0..nc {
        net.timer(c, 1 + ch(100), Msg::Tick);
    }
    let mut steps = 0;
    while let Some((from, to, m)) = net.next() {
        steps += 1;
        if steps == 200 {
            net.heal();
        }
        if steps > 4000 {
            rt::violate("progress", format!("clients did not agree after the network healed; server holds {}", rt::esc(&doc)));
        }
        ev(112, steps << 8 | to as u64);
        match m {
            Msg::Fetch(c, q) => net.send(srv, c, Msg::Doc(q, version, doc.clone())),
            Msg::Push(c, q, v, d) => {
                if v == version {
                    version += 1;
                    doc = d;
                    note(|| format!("server accepts version {} from client {}: {}", version, c, rt::esc(&doc)));
                    if !net.healed && coin(1, 4) {
                        fault(C::f_ack_lost);
                    } else {
                        net.send(srv, c, Msg::Ack(q, version));
                    }
                } else {
                    fault(C::f_stale_sync);
                    net.send(srv, c, Msg::Stale(q));
                }
            }
            Msg::Tick => {
                let c = &mut cl[to];
                if !net.healed && coin(1, 10) {
                    fault(C::f_crash);
                    fault(C::f_node_restart);
                    note(|| format!("client {} restarts from its disk", to));
                    c.s = c.disk.clone();
                    c.wait = Wait::No;
                } else if c.edits > 0 && !(disjoint && c.s.in_flight) {
                    let mut l = to_lines(&c.s.copy);
                    if disjoint {
                        c.edits -= 1;
                        let i = chz(c.s.own.len());
                        let r = c.s.own[i].0;
                        let (a, e) = match bounds(&l, r) {
                            Some(b) => b,
                            None => rt::violate("lost-line", format!("a line nobody edits is missing in {}", rt::esc(&c.s.copy))),
                        };
                        edit(&mut l, a, e, binary);
                        let (a, e) = bounds(&l, r).unwrap();
                        c.s.own[i].1 = l[a..e].to_vec();
                        c.s.copy = l.concat();
                        note(|| format!("client {} edits region {}: {}", to, r, rt::esc(&l.concat())));
                    } else if coin(1, 3) && !l.is_empty() {
                        // a fix that circulates outside: the same edit in several copies
                        c.edits -= 1;
                        let x = pick_line(&l);
                        let mut f = fresh(binary);
                        if x.last() != Some(&b'\n') {
                            f.pop();
                        }
                        let after = coin(1, 2) && x.last() == Some(&b'\n');
                        for (i, c) in cl.iter_mut().enumerate() {
                            if i != to && coin(1, 3) {
                                continue;
                            }
                            let mut l = to_lines(&c.s.copy);
                            if let Some(p) = l.iter().position(|y| *y == x) {
                                if after {
                                    l.insert(p + 1, f.clone());
                                } else {
                                    l[p] = f.clone();
                                }
                                c.s.copy = l.concat();
                                note(|| format!("client {} takes the shared edit: {}", i, rt::esc(&c.s.copy)));
                            }
                        }
                    } else {
                        c.edits -= 1;
                        let n = l.len();
                        edit(&mut l, 0, n, binary);
                        c.s.copy = l.concat();
                        note(|| format!("client {} edits: {}", to, rt::esc(&c.s.copy)));
                    }
                    if coin(1, 3) {
                        cl[to].disk = cl[to].s.clone();
                    }
                }
                if cl.iter().all(|c| c.edits == 0 && c.wait == Wait::No && c.s.copy == doc && c.s.base == doc) {
                    break;
                }
                let c = &mut cl[to];
                let settled = c.edits == 0 && c.s.copy == doc && c.s.base == doc;
                if c.wait == Wait::No && !settled && (coin(1, 2) || net.healed) {
                    seq += 1;
                    c.wait = Wait::Doc(seq);
                    net.send(to, srv, Msg::Fetch(to, seq));
                    net.timer(to, 500, Msg::Retry(seq));
                }
                net.timer(to, 60 + ch(200), Msg::Tick);
            }
            Msg::Retry(q) => {
                let c = &mut cl[to];
                if c.wait == Wait::Doc(q) || c.wait == Wait::Ack(q) {
                    // no answer: start over by fetching, whether or not the push got through
                    seq += 1;
                    c.wait = Wait::Doc(seq);
                    net.send(to, srv, Msg::Fetch(to, seq));
                    net.timer(to, 500, Msg::Retry(seq));
                }
            }
            Msg::Doc(q, v, d) => {
                let c = &mut cl[to];
                if c.wait != Wait::Doc(q) || v < c.s.base_ver {
                    if v < c.s.base_ver {
                        fault(C::f_stale_sync);
                    }
                    continue;
                }
                let r = match merge(&c.s.base, &c.s.copy, &d, disjoint) {
                    Some(r) => r,
                    None => return, // lines moved or repeated: outside what this check covers
                };
                c.s.copy = match r {
                    Ok(m) | Err(m) => m,
                };
                c.s.base = d;
                c.s.base_ver = v;
                if c.s.copy == c.s.base {
                    c.wait = Wait::No;
                    c.s.in_flight = false;
                } else {
                    // durable before it leaves
                    c.s.in_flight = true;
                    c.disk = c.s.clone();
                    c.pushed = c.s.copy.clone();
                    seq += 1;
                    c.wait = Wait::Ack(seq);
                    net.send(to, srv, Msg::Push(to, seq, v, c.pushed.clone()));
                    net.timer(to, 500, Msg::Retry(seq));
                }
            }
            Msg::Ack(q, v) => {
                let c = &mut cl[to];
                if c.wait == Wait::Ack(q) {
                    c.s.base = c.pushed.clone();
                    c.s.base_ver = v;
                    c.s.in_flight = false;
                    c.wait = Wait::No;
                }
            }
            Msg::Stale(q) => {
                let c = &mut cl[to];
                if c.wait == Wait::Ack(q) {
                    c.wait = Wait::No;
                }
            }
        }
        let _ = from;
    }
    ev_bytes(113, &doc);
    if disjoint {
        let mut fin = regions.clone();
        for c in &cl {
            for (r, l) in &c.s.own {
                fin[*r] = l.clone();
            }
        }
        let want = assemble(&fin).concat();
        if doc != want {
            rt::violate("lost-edit", format!("after all syncs the server holds {} instead of {}", rt::esc(&doc), rt::esc(&want)));
        }
    }
    for (i, c) in cl.iter().enumerate() {
        rt::check_ok(c.s.copy == doc, "harness", || format!("client {} did not end with the server's text", i));
    }
    probe(C::p_converged);
}
fn pick_line(l: &Lines) -> Vec<u8> {
    l[chz(l.len())].clone()
}
/// A follower of any document, however repetitive: only one side ever changed since the version it
/// last saw, or both hold the same change.
fn follow() {
    let fl = gen::flavour();
    let st = gen::style();
    let mut l = if coin(1, 64) {
        probe(C::p_big_doc);
        gen::bulk(&mut gen::Sub::new(), pick(&[100, 400, 2000]), pick(&[2, 10, 100_000]))
    } else {
        gen::doc_lines(fl, st, 30)
    };
    let mut nl = !coin(1, 4);
    let mut base = gen::join(&l, nl);
    for _ in 0..1 + chz(5) {
        gen::mutate(fl, st, &mut l);
        if coin(1, 5) {
            nl = !nl;
        }
        let next = gen::join(&l, nl);
        let (x, y) = match ch(3) {
            0 => (&base, &next),
            1 => (&next, &base),
            _ => (&next, &next),
        };
        let len = pick(&[None, Some(0), Some(7), Some(usize::MAX), Some(isize::MAX as usize)]);
        let style = pick(&[None, Some(true), Some(false)]);
        let got = api::merge(fl, len, style, &base, x, y);
        if got.as_deref() != Ok(&next[..]) {
            rt::violate(
                "unchanged-side",
                format!("merging {} (ours) and {} (theirs) with base {} gives {:?}", rt::esc(x), rt::esc(y), rt::esc(&base), got.map(|b| rt::esc(&b)).map_err(|b| rt::esc(&b))),
            );
        }
        probe(C::p_merge_ok);
        ev_bytes(114, &next);
        if coin(1, 8) {
            // a lost update of the follower's own records: it merges again from the older base
            fault(C::f_ack_lost);
            continue;
        }
        base = next;
    }
}
