//! C04: the writer or its device crashes after k bytes; somebody reads what is left.
use crate::api::{self, leak, Fl, FOpts, View};
use crate::gen;
use crate::model;
use crate::rt::{self, ch, chz, coin, ev, fault, note, pick, probe};
use crate::stats::C;
use crate::worlds::sink::{Fail, Sink};

pub fn c04() {
    rt::phase(world);
}
fn world() {
    let x = gen::made_or_parsed();
    let fo = FOpts { suppress: !coin(1, 4), ..FOpts::DEFAULT };
    let f = fo.build();
    let mut s = Sink::healthy();
    let r = api::write(&f, &x.p, &mut s);
    rt::check_ok(matches!(r.0, Ok(Ok(()))), "ack", || "writing to a healthy sink failed".into());
    let full: &'static [u8] = leak(s.got);
    let lay = model::render_layout(&x.view, &fo);
    let layout = if lay.bytes == full { Some(&lay) } else { None };
    note(|| format!("rendering {}", rt::esc(full)));
    let n = full.len();
    let mut cuts: Vec<usize> = vec![];
    if n <= 260 {
        cuts.extend(0..n);
    } else {
        let ends: Vec<usize> = (0..n).filter(|i| full[*i] == b'\n').collect();
        for _ in 0..70 {
            let c = match ch(3) {
                0 => chz(n),
                1 => pick(&ends) + chz(4),
                _ => pick(&ends).saturating_sub(chz(24)),
            };
            if c < n {
                cuts.push(c);
            }
        }
    }
    // some of the cuts are produced by a writer that really dies there
    let k = cuts.len();
    let dying: Vec<usize> = if k > 0 { (0..chz(4)).map(|_| chz(k)).collect() } else { vec![] };
    for (i, c) in cuts.into_iter().enumerate() {
        let left: &'static [u8] = if dying.contains(&i) {
            let mut s = Sink::failing(c, Fail::Panic);
            let _ = api::write(&f, &x.p, &mut s);
            fault(C::f_crash);
            rt::check_ok(full.starts_with(&s.got), "prefix", || format!("the dying writer left {}", rt::esc(&s.got)));
            leak(s.got)
        } else {
            &full[..c]
        };
        fault(C::f_torn_write);
        judge(&x.view, layout, full, left, Fl::B, x.o);
        if x.fl == Fl::S && api::is_utf8(left) {
            judge(&x.view, layout, full, left, Fl::S, x.o);
        }
    }
}
fn judge(orig: &View, lay: Option<&model::Layout>, full: &[u8], left: &'static [u8], fl: Fl, doc: &[u8]) {
    let k = left.len();
    let p = match api::parse(fl, left) {
        Err(_) => {
            probe(C::p_torn_rejected);
            ev(50, k as u64);
            return;
        }
        Ok(p) => p,
    };
    probe(C::p_torn_accepted);
    ev(51, k as u64);
    let v = api::view(&p);
    if let Err(e) = matches(orig, lay, full, k, &v) {
        rt::violate("misread", format!("cut after {} bytes: {} is read as {:?}: {}", k, rt::esc(left), v, e));
    }
    let _ = api::apply(&p, doc);
}
fn matches(o: &View, lay: Option<&model::Layout>, full: &[u8], k: usize, v: &View) -> Result<(), String> {
    let names = (v.orig.is_none() || v.orig == o.orig) && (v.modi.is_none() || v.modi == o.modi);
    if !names {
        return Err("a file name that was never written".into());
    }
    let n = v.hunks.len();
    if n > o.hunks.len() {
        return Err("hunks that were never written".into());
    }
    if n > 0 && (v.orig != o.orig || v.modi != o.modi) {
        return Err("a file name is missing".into());
    }
    if n == 0 {
        return Ok(());
    }
    for i in 0..n - 1 {
        if v.hunks[i] != o.hunks[i] {
            return Err(format!("hunk {} differs", i + 1));
        }
    }
    let (a, b) = (&o.hunks[n - 1], &v.hunks[n - 1]);
    if a == b {
        return Ok(());
    }
    let l = a.lines.len();
    if l == 0 || a.old != b.old || a.new != b.new || a.fctx != b.fctx || b.lines.len() != l || a.lines[..l - 1] != b.lines[..l - 1] {
        return Err(format!("hunk {} differs in more than its last line", n));
    }
    let (x, y) = (&a.lines[l - 1], &b.lines[l - 1]);
    if x.0 != y.0 {
        return Err("the last line changed its kind".into());
    }
    match lay {
        Some(lay) => {
            let (s, e) = lay.last[n - 1];
            if k < s || k > e {
                return Err(format!("hunk {} differs although the cut is not in its last line", n));
            }
            if y.1 != full[s..k] {
                return Err("the last line is not what was written of it".into());
            }
        }
        None => {
            let mut t = x.1.clone();
            t.push(b'\n');
            if !t.starts_with(&y.1) {
                return Err("the last line is not what was written of it".into());
            }
        }
    }
    Ok(())
}
