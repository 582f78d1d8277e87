//! C07: patches reach replicas late, twice, out of order and with skewed line numbers.
use crate::api::{self, leak, FOpts, P};
use crate::gen::{self, Lines};
use crate::model::{self, Out};
use crate::net::Net;
use crate::rt::{self, between, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;
use crate::worlds::courier::show;

pub fn c07() {
    rt::phase(world);
}
#[derive(Clone, Copy)]
struct Msg(usize);

fn skew(v: &mut api::View) {
    let k = v.hunks.len();
    if k == 0 {
        return;
    }
    fault(C::f_line_number_skew);
    match ch(4) {
        0 | 1 => {
            // all later hunks shift, as after an edit elsewhere
            let from = chz(k);
            let d = 1 + chz(12);
            for h in &mut v.hunks[from..] {
                h.new.0 += d;
                if coin(1, 2) {
                    h.old.0 += d;
                }
            }
        }
        2 => {
            let d = pick(&[1000, 100, 300, 70_000, u32::MAX as usize, usize::MAX / 4, usize::MAX / 2]);
            let from = chz(k);
            for h in &mut v.hunks[from..] {
                h.new.0 = h.new.0.saturating_add(d);
            }
        }
        _ => {
            // numbers of the original file copied over, or counted from somewhere else
            let mut at = chz(3);
            for h in &mut v.hunks {
                at += chz(8);
                h.new.0 = at;
                at += h.new.1;
            }
        }
    }
}
fn world() {
    let fl = gen::flavour();
    let st = gen::style();
    let bulk = coin(1, 24);
    let base: Lines = if bulk {
        probe(C::p_big_doc);
        let mut r = gen::Sub::new();
        let n = pick(&[150, 400, 1200, 3000]);
        let alphabet = pick(&[2, 5, 30, 1000, 100_000]);
        gen::bulk(&mut r, n, alphabet)
    } else if coin(1, 3) {
        // repeated blocks: many places match
        let blk = gen::doc_lines(fl, st, 5);
        let mut v = vec![];
        for _ in 0..between(2, 8) {
            v.extend(blk.iter().cloned());
            if coin(1, 2) {
                v.push(gen::line(fl, st));
            }
        }
        v
    } else {
        gen::doc_lines(fl, st, 24)
    };
    let nl = !coin(1, 5);
    // authors derive patches from the base or from each other's versions
    let np = 1 + chz(4);
    let mut versions: Vec<(Lines, bool)> = vec![(base, nl)];
    let mut patches: Vec<P<'static>> = vec![];
    for _ in 0..np {
        let (mut l, mut nl) = pick_version(&versions);
        let o = leak(gen::join(&l, nl));
        if versions.len() > 1 {
            fault(C::f_stale_patch);
        }
        for _ in 0..1 + chz(3) {
            gen::mutate_once(fl, st, &mut l);
        }
        if coin(1, 10) {
            nl = !nl;
        }
        let m = leak(gen::join(&l, nl));
        let ctx = pick(&[Some(3), Some(0), Some(1), Some(2), Some(8)]);
        if ctx == Some(0) {
            probe(C::p_context_zero);
        }
        let mut p = api::create(fl, &api::DOpts::with_ctx(ctx), o, m);
        let (idle, skewed) = (coin(1, 12), coin(1, 3));
        if idle || skewed {
            let mut v = api::view(&p);
            if idle {
                gen::idle(&mut v, o);
            }
            if skewed {
                skew(&mut v);
            }
            if let Ok(q) = api::parse(fl, leak(model::render(&v, &FOpts::DEFAULT))) {
                p = q;
            }
        }
        if coin(1, 6) {
            probe(C::p_reverse);
            let q: &'static P<'static> = Box::leak(Box::new(p));
            p = api::reverse(q);
        }
        versions.push((l, nl));
        patches.push(p);
    }
    let views: Vec<api::View> = patches.iter().map(api::view).collect();
    let nr = 1 + chz(3);
    let mut docs: Vec<Vec<u8>> = (0..nr)
        .map(|_| {
            let (mut l, nl) = if coin(1, 2) { versions[0].clone() } else { pick_version(&versions) };
            if bulk && coin(2, 3) {
                // a large part came or went elsewhere in the text
                let mut r = gen::Sub::new();
                let at = if coin(1, 2) { 0 } else { r.next(l.len() + 1) };
                let k = 1 + r.next(pick(&[30, 300, 2000]));
                if coin(2, 3) {
                    let b = gen::bulk(&mut r, k, pick(&[100_000, 5, 2]));
                    l.splice(at..at, b);
                } else {
                    let e = (at + k).min(l.len());
                    l.drain(at..e);
                }
            }
            if coin(1, 2) {
                for _ in 0..1 + chz(4) {
                    gen::mutate_once(fl, st, &mut l);
                }
            }
            gen::join(&l, nl)
        })
        .collect();
    let mut net: Net<Msg> = Net::new(nr + 1);
    for i in 0..np {
        for r in 0..nr {
            net.send(nr, r, Msg(i));
        }
    }
    let mut left = 40;
    while let Some((_, to, Msg(i))) = net.next() {
        left -= 1;
        if left == 0 {
            break;
        }
        let doc = &docs[to];
        let v = &views[i];
        note(|| format!("replica {} holding {} applies {}", to, rt::esc(doc), rt::esc(&model::render(v, &FOpts::DEFAULT))));
        let got = api::apply(&patches[i], doc);
        match &got {
            Ok(d) => {
                probe(C::p_apply_ok);
                ev_bytes(80, d);
            }
            Err(n) => {
                probe(C::p_apply_err);
                if *n > 1 {
                    probe(C::p_apply_refused_later_hunk);
                }
                ev(81, *n as u64);
            }
        }
        if let Some((outs, info)) = model::apply(v, doc) {
            if info.offset {
                probe(C::p_apply_offset);
            }
            if info.tie {
                probe(C::p_apply_tie);
            }
            if info.avoided {
                probe(C::p_patched_line_avoided);
            }
            if outs.len() > 1 {
                probe(C::p_apply_multi_outcome);
            }
            let o = match &got {
                Ok(d) => Out::Doc(d.clone()),
                Err(n) => Out::Fail(*n),
            };
            if !outs.contains(&o) {
                let want: Vec<String> = outs
                    .iter()
                    .map(|o| match o {
                        Out::Doc(d) => rt::esc(d),
                        Out::Fail(n) => format!("an error at hunk {}", n),
                    })
                    .collect();
                rt::violate(
                    "placement",
                    format!(
                        "applying {} to {} gives {}, expected {}",
                        rt::esc(&model::render(v, &FOpts::DEFAULT)),
                        rt::esc(doc),
                        show(&got),
                        want.join(" or ")
                    ),
                );
            }
        }
        rt::check_ok(api::view(&patches[i]) == *v, "patch-changed", || "applying a patch changed it".into());
        if let Ok(d) = got {
            docs[to] = d;
        }
    }
}
fn pick_version(v: &[(Lines, bool)]) -> (Lines, bool) {
    v[chz(v.len())].clone()
}
