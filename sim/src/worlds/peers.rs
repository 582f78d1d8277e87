//! C13: two peers without a server work on one text of any kind and merge each other's versions.
use crate::api::{self, Fl};
use crate::gen::{self, Lines};
use crate::net::Net;
use crate::rt::{self, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;

pub fn c13() {
    rt::phase(world);
}
#[derive(Clone)]
enum Msg {
    /// The sender's version of a round.
    Version(usize, u64, &'static [u8]),
    Resend,
    Work,
}
#[derive(Clone, Copy)]
struct Durable {
    round: u64,
    base: &'static [u8],
    mine: Option<&'static [u8]>,
    theirs: Option<&'static [u8]>,
}
/// A merge without the words for "ours" and "theirs": clear text, and the sections of node 0 and node 1.
#[derive(Clone, PartialEq, Eq, Debug)]
enum Seg {
    Clear(Vec<u8>),
    Conflict([Vec<u8>; 2]),
}
fn marker(c: u8, n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![c; n];
    if !name.is_empty() {
        v.push(b' ');
        v.extend(name.bytes());
    }
    v.push(b'\n');
    v
}
/// Reads conflict output; None if it is not made of complete conflicts.
fn segments(t: &[u8], n: usize, diff3: bool, swapped: bool, base: &mut Vec<Vec<u8>>) -> Option<Vec<Seg>> {
    let (m0, m1, m2, m3) = (marker(b'<', n, "ours"), marker(b'|', n, "original"), marker(b'=', n, ""), marker(b'>', n, "theirs"));
    let mut v = vec![];
    let mut clear = vec![];
    let mut l = gen::split(t).into_iter();
    while let Some(x) = l.next() {
        if x != m0 {
            clear.extend_from_slice(x);
            continue;
        }
        if !clear.is_empty() {
            v.push(Seg::Clear(std::mem::take(&mut clear)));
        }
        let mut take = |end: &[u8]| -> Option<Vec<u8>> {
            let mut s = vec![];
            loop {
                let x = l.next()?;
                if x == end {
                    return Some(s);
                }
                s.extend_from_slice(x);
            }
        };
        let ours = take(if diff3 { &m1 } else { &m2 })?;
        if diff3 {
            base.push(take(&m2)?);
        }
        let theirs = take(&m3)?;
        v.push(Seg::Conflict(if swapped { [theirs, ours] } else { [ours, theirs] }));
    }
    if !clear.is_empty() {
        v.push(Seg::Clear(clear));
    }
    Some(v)
}
/// What a node makes of the two versions: the merge, and the text it continues with.
fn merge(node: usize, base: &'static [u8], v: [&'static [u8]; 2]) -> (bool, Vec<Seg>, Vec<Vec<u8>>) {
    let swapped = if node < 2 { node == 1 } else { coin(1, 2) };
    let (ours, theirs) = if swapped { (v[1], v[0]) } else { (v[0], v[1]) };
    let fl = if [base, v[0], v[1]].iter().all(|t| api::is_utf8(t)) { gen::flavour() } else { Fl::B };
    let style = pick(&[None, Some(true), Some(false)]);
    // markers that are no line of the texts
    let mut n = pick(&[9, 8, 7, 20, 300]);
    while [base, v[0], v[1]].iter().any(|t| [b'<', b'|', b'=', b'>'].iter().any(|c| t.windows(n).any(|w| w.iter().all(|x| x == c)))) {
        n += 1;
    }
    let got = api::merge(fl, Some(n), style, base, ours, theirs);
    let diff3 = style.unwrap_or(true);
    let mut b = vec![];
    let (clean, text) = match &got {
        Ok(t) => (true, t),
        Err(t) => (false, t),
    };
    ev_bytes(140 + clean as u64, text);
    note(|| format!("node {} merges {} (ours) and {} (theirs): {} {}", node, rt::esc(ours), rt::esc(theirs), if clean { "clean" } else { "conflict" }, rt::esc(text)));
    let s = if clean {
        if text.is_empty() { Some(vec![]) } else { Some(vec![Seg::Clear(text.clone())]) }
    } else {
        segments(text, n, diff3, swapped, &mut b)
    };
    if v[0] == v[1] || v[0] == base || v[1] == base {
        let want = if v[0] == base { v[1] } else { v[0] };
        rt::check_ok(clean && text == want, "one-side", || format!("only {} was made of {} or both sides made it, and the merge gives {}", rt::esc(want), rt::esc(base), rt::esc(text)));
    }
    if let Some(s) = s.as_ref().filter(|_| !clean) {
        let conflicts: Vec<_> = s.iter().filter_map(|s| if let Seg::Conflict(c) = s { Some(c) } else { None }).collect();
        for (k, s) in conflicts.iter().enumerate() {
            // the last lines of the texts may differ only in their line end, which a conflict does not show
            if k + 1 == conflicts.len() && [base, v[0], v[1]].iter().any(|t| t.last().is_some_and(|c| *c != b'\n')) {
                break;
            }
            rt::check_ok(s[0] != s[1], "equal-sides", || format!("both sides of a conflict in {} are the same", rt::esc(text)));
            rt::check_ok(b.get(k).is_none_or(|b| *b != s[0] && *b != s[1]), "unchanged-side", || format!("one side of a conflict in {} is the ancestor's", rt::esc(text)));
        }
        for (i, t) in v.iter().enumerate() {
            let x = s.iter().filter_map(|s| if let Seg::Conflict(c) = s { Some(&c[i]) } else { None });
            rt::check_ok(runs_of(t, x), "sections", || format!("the sections of the conflicts in {} are no runs of lines of {}", rt::esc(text), rt::esc(t)));
        }
        rt::check_ok(runs_of(base, b.iter()), "sections", || format!("the ancestor's sections of the conflicts in {} are no runs of lines of {}", rt::esc(text), rt::esc(base)));
    }
    match s {
        Some(s) if clean || s.iter().any(|s| matches!(s, Seg::Conflict(_))) => {
            match explained(base, v, &s, (!clean && diff3).then_some(&b)) {
                Some(ok) => {
                    probe(C::p_explained);
                    rt::check_ok(ok, "edits", || {
                        format!("{} is not what every edit of {} and of {} to {}, kept once, gives", rt::esc(text), rt::esc(v[0]), rt::esc(v[1]), rt::esc(base))
                    });
                }
                None => probe(C::p_unexplored),
            }
            (clean, s, b)
        }
        _ => rt::violate("conflict-text", format!("the conflicts in {} cannot be told apart with markers of length {}", rt::esc(text), n)),
    }
}
/// Whether the sections are runs of lines of the text, one after the other.
fn runs_of<'a>(text: &[u8], sections: impl Iterator<Item = &'a Vec<u8>>) -> bool {
    let mut t = text.to_vec();
    if t.last().is_some_and(|c| *c != b'\n') {
        t.push(b'\n');
    }
    let mut at = 0;
    for s in sections {
        if s.is_empty() {
            continue;
        }
        loop {
            if at + s.len() > t.len() {
                return false;
            }
            if t[at..].starts_with(s) {
                at += s.len();
                break;
            }
            at += t[at..].iter().position(|c| *c == b'\n').unwrap() + 1;
        }
    }
    true
}
/// Whether the result is what keeping every edit of both versions exactly once gives, for some way to read the
/// versions as edits of the base: every line of a version is kept, was in the base and was dropped by the other
/// version, or stands in a conflict, every line of the base that both kept is there, and no line is made up.
/// None if there are too many ways to read them.
fn explained(base: &[u8], v: [&[u8]; 2], s: &[Seg], originals: Option<&[Vec<u8>]>) -> Option<bool> {
    enum Tok<'a> {
        Line(&'a [u8]),
        Conflict([Vec<&'a [u8]>; 2], Option<Vec<&'a [u8]>>),
    }
    fn lines(t: &[u8]) -> Vec<&[u8]> {
        gen::split(t)
    }
    let mut m = vec![];
    let mut n = 0;
    for x in s {
        match x {
            Seg::Clear(t) => m.extend(lines(t).into_iter().map(Tok::Line)),
            Seg::Conflict(c) => {
                let o = originals.map(|o| lines(&o[n]));
                n += 1;
                m.push(Tok::Conflict([lines(&c[0]), lines(&c[1])], o));
            }
        }
    }
    let (o, a, b) = (lines(base), lines(v[0]), lines(v[1]));
    // a conflict puts a line end behind a last line without one
    let same = |x: &[&[u8]], y: &[&[u8]]| {
        x.len() == y.len()
            && x.iter().zip(y).all(|(p, q)| p == q || (p.last() != Some(&b'\n') && q.len() == p.len() + 1 && q.starts_with(p) && q.last() == Some(&b'\n')))
    };
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(0usize, 0usize, 0usize, 0usize)];
    while let Some(at) = todo.pop() {
        if !seen.insert(at) {
            continue;
        }
        if seen.len() > 30_000 {
            return None;
        }
        let (i, j, k, l) = at;
        if (i, j, k, l) == (o.len(), a.len(), b.len(), m.len()) {
            return Some(true);
        }
        let (x, y, z) = (o.get(i), a.get(j), b.get(k));
        // the most likely comes last
        if x.is_some() {
            todo.push((i + 1, j, k, l));
        }
        if x.is_some() && x == y {
            todo.push((i + 1, j + 1, k, l));
        }
        if x.is_some() && x == z {
            todo.push((i + 1, j, k + 1, l));
        }
        match m.get(l) {
            Some(Tok::Line(t)) => {
                let (y, z) = (y == Some(t), z == Some(t));
                if z {
                    todo.push((i, j, k + 1, l + 1));
                }
                if y {
                    todo.push((i, j + 1, k, l + 1));
                }
                if y && z {
                    todo.push((i, j + 1, k + 1, l + 1));
                    if x == Some(t) {
                        todo.push((i + 1, j + 1, k + 1, l + 1));
                    }
                }
            }
            Some(Tok::Conflict(c, w)) => {
                let (j2, k2) = (j + c[0].len(), k + c[1].len());
                if j2 <= a.len() && k2 <= b.len() && same(&a[j..j2], &c[0]) && same(&b[k..k2], &c[1]) {
                    match w {
                        Some(w) => {
                            let i2 = i + w.len();
                            if i2 <= o.len() && same(&o[i..i2], w) {
                                todo.push((i2, j2, k2, l + 1));
                            }
                        }
                        None => todo.push((i, j2, k2, l + 1)),
                    }
                }
            }
            None => {}
        }
    }
    Some(false)
}
/// The sections of one node, in full agreement with what the node at the other end does.
fn resolve(s: &[Seg], winner: usize) -> Vec<u8> {
    let mut v = vec![];
    for s in s {
        match s {
            Seg::Clear(t) => v.extend_from_slice(t),
            Seg::Conflict(c) => v.extend_from_slice(&c[winner]),
        }
    }
    v
}
fn work(fl: Fl, st: gen::Style, base: &[u8]) -> &'static [u8] {
    let nl = base.last() == Some(&b'\n') || base.is_empty();
    let mut l: Lines = gen::split(base).iter().map(|x| x.strip_suffix(b"\n").unwrap_or(x).to_vec()).collect();
    if l.len() > 200 {
        // few edits, so that documents grow slowly
        let mut r = gen::Sub::new();
        for _ in 0..r.next(9) {
            let at = r.next(l.len());
            let k = r.next(3);
            if k == 0 {
                l.remove(at);
            } else {
                let t = format!("l{}", r.next(20)).into_bytes();
                if k == 1 {
                    l.insert(at, t);
                } else {
                    l[at] = t;
                }
            }
        }
    } else if !coin(1, 8) {
        gen::mutate(fl, st, &mut l);
    }
    let nl = if coin(1, 6) { !nl } else { nl };
    api::leak(gen::join(&l, nl))
}
type Merged = (bool, Vec<Seg>, Vec<Vec<u8>>);
fn world() {
    let fl = gen::flavour();
    let st = gen::style();
    let l: Lines = if coin(1, 48) {
        probe(C::p_big_doc);
        gen::bulk(&mut gen::Sub::new(), pick(&[60, 300, 1500]), pick(&[2, 10, 100_000]))
    } else if coin(1, 3) {
        let blk = gen::doc_lines(fl, st, 4);
        (0..1 + chz(6)).flat_map(|_| blk.clone()).collect()
    } else {
        gen::doc_lines(fl, st, 20)
    };
    let start: &'static [u8] = api::leak(gen::join(&l, !coin(1, 4)));
    let rounds = 1 + ch(4);
    // node 2 only listens
    let d = Durable { round: 0, base: start, mine: None, theirs: None };
    let mut written: [Vec<&'static [u8]>; 2] = [vec![], vec![]];
    let mut node = [d; 3];
    let mut done: [Vec<(Merged, &'static [u8])>; 3] = [vec![], vec![], vec![]];
    let mut net: Net<Msg> = Net::new(3);
    note(|| format!("base {}", rt::esc(start)));
    for i in 0..3 {
        net.timer(i, 1 + ch(50), Msg::Work);
        net.timer(i, 400, Msg::Resend);
    }
    let mut steps = 0u64;
    while let Some((_, to, m)) = net.next() {
        steps += 1;
        if steps == 120 {
            net.heal();
        }
        if steps > 3000 {
            rt::violate("progress", "the peers did not finish after the network healed".into());
        }
        let n = &mut node[to];
        match m {
            Msg::Work => {
                if to < 2 && n.round < rounds && n.mine.is_none() {
                    let t = work(fl, st, n.base);
                    n.mine = Some(t);
                    written[to].push(t);
                    note(|| format!("node {} has {} in round {}", to, rt::esc(t), n.round));
                }
                if n.round < rounds {
                    net.timer(to, 30 + ch(100), Msg::Work);
                }
            }
            Msg::Resend => {
                if to < 2 {
                    // somebody may be behind
                    for (r, t) in written[to].iter().enumerate() {
                        if r + 1 >= written[to].len() || coin(1, 2) {
                            net.send(to, 1 - to, Msg::Version(to, r as u64, t));
                        }
                        net.send(to, 2, Msg::Version(to, r as u64, t));
                    }
                }
                let all = node.iter().all(|n| n.round == rounds);
                if !all {
                    net.timer(to, 200 + ch(200), Msg::Resend);
                }
            }
            Msg::Version(from, r, t) => {
                if r != n.round {
                    fault(C::f_stale_sync);
                } else if to == 2 {
                    if from == 0 {
                        n.mine = Some(t);
                    } else {
                        n.theirs = Some(t);
                    }
                } else {
                    n.theirs = Some(t);
                }
            }
        }
        let n = &mut node[to];
        let (Some(a), Some(b)) = (n.mine, n.theirs) else { continue };
        let v = if to == 1 { [b, a] } else { [a, b] };
        let mut got = merge(to, n.base, v);
        if !net.healed && coin(1, 8) {
            // the merge was not saved: it is made again after the restart
            fault(C::f_crash);
            fault(C::f_node_restart);
            got = merge(to, n.base, v);
        }
        let winner = n.round as usize % 2;
        let next = api::leak(resolve(&got.1, winner));
        for other in 0..3 {
            let Some((m, t)) = done[other].get(n.round as usize) else { continue };
            let b = !m.2.is_empty() && !got.2.is_empty() && m.2 != got.2;
            if m.0 != got.0 || m.1 != got.1 || b {
                rt::violate(
                    "disagreement",
                    format!(
                        "from base {} and the versions {} and {} node {} makes {} {:?} and node {} {} {:?}",
                        rt::esc(n.base),
                        rt::esc(v[0]),
                        rt::esc(v[1]),
                        other,
                        if m.0 { "a clean merge" } else { "conflicts" },
                        m.1,
                        to,
                        if got.0 { "a clean merge" } else { "conflicts" },
                        got.1
                    ),
                );
            }
            rt::check_ok(*t == next, "diverged", || format!("node {} goes on with {} and node {} with {}", other, rt::esc(t), to, rt::esc(next)));
        }
        probe(if got.0 { C::p_merge_ok } else { C::p_merge_conflict });
        if v[0] != n.base && v[1] != n.base {
            probe(C::p_merge_both_sides);
        }
        done[to].push((got, next));
        ev(142, (n.round << 2) | to as u64);
        *n = Durable { round: n.round + 1, base: next, mine: None, theirs: None };
        if node.iter().all(|n| n.round == rounds) {
            break;
        }
    }
    probe(C::p_converged);
}
