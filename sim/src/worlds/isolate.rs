//! C11: calls on shared objects by concurrent tasks and after long histories, against the same calls
//! made alone in a pristine process.  This world needs a process of its own for every run.
use crate::api::{self, leak, DOpts, FOpts, Fl, Share, P};
use crate::gen;
use crate::model;
use crate::rt::{self, between, ch, chz, coin, ev_bytes, fault, note, pick, probe, Caught, Choices, Outside};
use crate::stats::C;
use crate::sys;
use crate::worlds::sink::{Sink, KINDS, Fail};
use diffy::{DiffOptions, MergeOptions, Patch, PatchFormatter};
use std::io::{self, Write};
use std::marker::PhantomData;

// Whether a type is Send + Sync, decided without failing to compile when it is not.
struct Is<T: ?Sized>(PhantomData<T>);
trait No {
    const SHAREABLE: bool = false;
}
impl<T: ?Sized> No for Is<T> {}
impl<T: ?Sized + Send + Sync> Is<T> {
    const SHAREABLE: bool = true;
}

pub type B = &'static [u8];
#[derive(Clone)]
pub enum Op {
    Create { fl: Fl, d: DOpts, o: B, m: B },
    Parse { fl: Fl, t: B },
    Render { fl: Fl, t: B, fo: FOpts, form: u64 },
    Fail { fl: Fl, t: B, fo: FOpts, at: usize, fail: Fail },
    Reverse { fl: Fl, t: B },
    Apply { fl: Fl, t: B, doc: B },
    Merge { fl: Fl, len: Option<usize>, style: Option<bool>, a: B, x: B, y: B },
    /// The sink itself uses the library.
    Nested { fl: Fl, t: B, fo: FOpts, inner: Box<Op> },
}
/// Objects that all tasks use at once.
pub struct Objs {
    patch: Option<P<'static>>,
    fmt: PatchFormatter,
    dopts: DiffOptions,
    mopts: MergeOptions,
}

struct Calling<'a> {
    got: Vec<u8>,
    inner: &'a Op,
    results: Vec<u8>,
    done: bool,
}
impl Write for Calling<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = Outside::new();
        self.got.extend_from_slice(b);
        if !self.done {
            self.done = true;
            self.results = perform(self.inner, None, &mut None);
        }
        rt::yield_point();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The result of one call as bytes.  `area` is memory reused for the arguments.
pub fn perform(op: &Op, objs: Option<&Objs>, area: &mut Option<Vec<u8>>) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    // arguments in reused memory: same addresses, other contents
    let mut parts: Vec<(usize, usize)> = vec![];
    let args: Vec<B> = match op {
        Op::Create { o, m, .. } => vec![o, m],
        Op::Parse { t, .. } | Op::Render { t, .. } | Op::Fail { t, .. } | Op::Reverse { t, .. } | Op::Nested { t, .. } => vec![t],
        Op::Apply { t, doc, .. } => vec![t, doc],
        Op::Merge { a, x, y, .. } => vec![a, x, y],
    };
    if let Some(m) = area {
        m.clear();
        for a in &args {
            parts.push((m.len(), m.len() + a.len()));
            m.extend_from_slice(a);
        }
    }
    let mem: Option<&[u8]> = area.as_deref();
    let arg = |i: usize| -> &[u8] {
        match mem {
            Some(m) => &m[parts[i].0..parts[i].1],
            None => args[i],
        }
    };
    let with = |fl: Fl, f: &mut dyn FnMut(&P<'_>) -> Vec<u8>| -> Vec<u8> {
        if let Some(Objs { patch: Some(p), .. }) = objs {
            return f(p);
        }
        match api::parse(fl, arg(0)) {
            Ok(p) => f(&p),
            Err(e) => format!("rejected: {}", e).into_bytes(),
        }
    };
    match op {
        Op::Create { fl, d, .. } => {
            let p = match objs {
                Some(s) => api::create_with(*fl, &s.dopts, arg(0), arg(1)),
                None => api::create(*fl, d, arg(0), arg(1)),
            };
            out.extend(format!("{:?}\n", api::view(&p)).into_bytes());
            out.extend(api::to_bytes(&p));
        }
        Op::Parse { fl, .. } => match api::parse(*fl, arg(0)) {
            Ok(p) => out.extend(format!("{:?}", api::view(&p)).into_bytes()),
            Err(e) => out.extend(format!("rejected: {}", e).into_bytes()),
        },
        Op::Render { fl, fo, form, .. } => {
            let own = fo.build();
            let f = objs.map_or(&own, |s| &s.fmt);
            out = with(*fl, &mut |p| match form {
                0 => api::to_bytes(p),
                1 if matches!(p, P::S(_)) => {
                    let mut s = String::new();
                    let r = api::write_text(f, p, &mut s);
                    let mut v = format!("{}\n", matches!(r.0, Ok(Ok(())))).into_bytes();
                    v.extend(s.into_bytes());
                    v
                }
                _ => {
                    let mut k = Sink::legal();
                    let r = api::write(f, p, &mut k);
                    let mut v = format!("{:?}\n", r.0.map(|x| x.map_err(|e| e.kind())).ok()).into_bytes();
                    v.extend(k.got);
                    v
                }
            });
        }
        Op::Fail { fl, fo, at, fail, .. } => {
            let own = fo.build();
            let f = objs.map_or(&own, |s| &s.fmt);
            out = with(*fl, &mut |p| {
                let mut k = Sink::failing(*at, *fail);
                let r = api::write(f, p, &mut k);
                if matches!(r.0, Err(Caught::Injected)) {
                    probe(C::p_panic_reuse);
                }
                let mut v = match r.0 {
                    Ok(x) => format!("{:?}\n", x.map_err(|e| e.kind())),
                    Err(_) => "panicked\n".into(),
                }
                .into_bytes();
                v.extend(k.got);
                v
            });
        }
        Op::Reverse { fl, .. } => {
            out = with(*fl, &mut |p| {
                let r = api::reverse(p);
                let mut v = format!("{:?}\n", api::view(&r)).into_bytes();
                v.extend(api::to_bytes(&r));
                v
            })
        }
        Op::Apply { fl, .. } => {
            out = with(*fl, &mut |p| match api::apply(p, arg(1)) {
                Ok(d) => d,
                Err(n) => {
                    probe(C::p_err_in_history);
                    format!("error at {}", n).into_bytes()
                }
            })
        }
        Op::Merge { fl, len, style, .. } => {
            let r = match objs {
                Some(s) => api::merge_with(*fl, &s.mopts, arg(0), arg(1), arg(2)),
                None => api::merge(*fl, *len, *style, arg(0), arg(1), arg(2)),
            };
            match r {
                Ok(d) => {
                    out.extend_from_slice(b"clean\n");
                    out.extend(d);
                }
                Err(d) => {
                    out.extend_from_slice(b"conflict\n");
                    out.extend(d);
                }
            }
        }
        Op::Nested { fl, fo, inner, .. } => {
            let own = fo.build();
            let f = objs.map_or(&own, |s| &s.fmt);
            out = with(*fl, &mut |p| {
                let mut k = Calling { got: vec![], inner, results: vec![], done: false };
                let r = api::write(f, p, &mut k);
                let mut v = format!("{:?}\n", r.0.map(|x| x.map_err(|e| e.kind())).ok()).into_bytes();
                v.extend(k.got);
                v.push(0);
                v.extend(k.results);
                v
            });
        }
    }
    out
}

fn utf8(fl: Fl, v: &[B]) -> Fl {
    if v.iter().all(|b| api::is_utf8(b)) {
        fl
    } else {
        Fl::B
    }
}
/// Inputs come from a small pool so that calls share texts.  No code of diffy runs here.
pub struct Pool {
    pub texts: Vec<B>,
    pub patches: Vec<B>,
}
/// The same text with two lines or two digits or letters exchanged.
fn twin(t: &[u8]) -> Vec<u8> {
    probe(C::p_twin_text);
    if coin(1, 8) {
        // a line and one with the same hash under some common function
        let s = String::from_utf8_lossy(t).into_owned();
        if let Some(v) = gen::collide(&s) {
            return v.into_bytes();
        }
    }
    if coin(1, 2) {
        let mut l: Vec<&[u8]> = gen::split(t);
        let n = l.len().saturating_sub((t.last() != Some(&b'\n')) as usize);
        if n > 1 {
            let i = chz(n);
            let j = if coin(1, 2) { (i + 1) % n } else { chz(n) };
            l.swap(i, j);
        }
        return l.concat();
    }
    let mut v = t.to_vec();
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphanumeric()).collect();
    if !at.is_empty() {
        let i = at[chz(at.len())];
        v[i] = if v[i].is_ascii_digit() { b'0' + ch(10) as u8 } else { b'a' + ch(26) as u8 };
    }
    v
}
pub fn pool() -> Pool {
    let mut texts: Vec<B> = vec![];
    for _ in 0..1 + chz(3) {
        let fl = gen::flavour();
        let st = gen::style();
        let mut l = if coin(1, 6) {
            let n = if coin(1, 12) { 500 } else { between(20, 120) };
            (0..n).map(|i| format!("row {}", i).into_bytes()).collect()
        } else {
            gen::doc_lines(fl, st, 20)
        };
        texts.push(leak(gen::join(&l, !coin(1, 4))));
        for _ in 0..1 + chz(2) {
            gen::mutate(fl, st, &mut l);
            texts.push(leak(gen::join(&l, !coin(1, 4))));
        }
    }
    // other texts of the same length and largely the same content
    for _ in 0..chz(4) {
        let t = pick(&texts);
        texts.push(leak(twin(t)));
    }
    let mut patches: Vec<B> = vec![];
    for i in 0..1 + chz(3) {
        let (a, b) = (pick(&texts), pick(&texts));
        let mut v = model::diff(a, b, pick(&[3, 1, 0, 10]));
        v.orig = Some(gen::filename().into_bytes());
        v.modi = Some(gen::filename().into_bytes());
        let _ = i;
        gen::decorate(&mut v, utf8(Fl::S, &[a, b]));
        let mut t = model::render(&v, &FOpts::DEFAULT);
        if coin(1, 4) {
            crate::worlds::damage::damage_text(&mut t);
        }
        patches.push(leak(t));
        if coin(1, 4) {
            let t = pick(&patches);
            patches.push(leak(twin(t)));
        }
    }
    Pool { texts, patches }
}
pub fn op(p: &Pool, depth: u32) -> Op {
    let fl = gen::flavour();
    let t = pick(&p.patches);
    let fo = gen::fopts();
    match ch(if depth == 0 { 16 } else { 14 }) {
        0..=3 => {
            let (o, m) = (pick(&p.texts), pick(&p.texts));
            Op::Create { fl: utf8(fl, &[o, m]), d: gen::dopts(), o, m }
        }
        4 => Op::Parse { fl: utf8(fl, &[t]), t },
        5 | 6 => Op::Render { fl: utf8(fl, &[t]), t, fo, form: ch(3) },
        7 => Op::Fail { fl: utf8(fl, &[t]), t, fo, at: chz(t.len() + 1), fail: KINDS[chz(KINDS.len())] },
        8 => Op::Reverse { fl: utf8(fl, &[t]), t },
        9 | 10 => {
            let doc = pick(&p.texts);
            Op::Apply { fl: utf8(fl, &[t, doc]), t, doc }
        }
        11..=13 => {
            let (a, x, y) = (pick(&p.texts), pick(&p.texts), pick(&p.texts));
            Op::Merge { fl: utf8(fl, &[a, x, y]), len: pick(&[None, Some(7), Some(0), Some(3)]), style: pick(&[None, Some(true), Some(false)]), a, x, y }
        }
        _ => Op::Nested { fl: utf8(fl, &[t]), t, fo, inner: Box::new(op(p, 1)) },
    }
}
fn objs(op: &Op) -> Objs {
    let mut o = Objs { patch: None, fmt: PatchFormatter::new(), dopts: DiffOptions::new(), mopts: MergeOptions::new() };
    match op {
        Op::Create { d, .. } => o.dopts = d.build(),
        Op::Merge { len, style, .. } => o.mopts = api::merge_opts(*len, *style, t_route(op)),
        Op::Parse { .. } => {}
        Op::Render { fl, t, .. } | Op::Fail { fl, t, .. } | Op::Reverse { fl, t } | Op::Apply { fl, t, .. } | Op::Nested { fl, t, .. } => {
            if let Op::Render { fo, .. } | Op::Fail { fo, .. } | Op::Nested { fo, .. } = op {
                o.fmt = fo.build();
            }
            o.patch = api::parse(*fl, t).ok();
        }
    }
    o
}
fn t_route(op: &Op) -> u64 {
    match op {
        Op::Merge { a, x, y, .. } => (a.len() + 5 * x.len() + 3 * y.len()) as u64,
        _ => 0,
    }
}
/// Objects used before, with their settings changed to those of `op`.
fn reset(kept: Option<(Objs, bool)>, op: &Op) -> (Objs, bool) {
    let (mut o, mut color) = match kept {
        Some(k) => k,
        None => (Objs { patch: None, fmt: PatchFormatter::new(), dopts: DiffOptions::new(), mopts: MergeOptions::new() }, false),
    };
    match op {
        Op::Create { d, .. } => d.reset(&mut o.dopts),
        Op::Merge { len, style, .. } => api::merge_reset(&mut o.mopts, *len, *style),
        Op::Render { fo, .. } | Op::Fail { fo, .. } | Op::Nested { fo, .. } => {
            o.fmt = fo.reset(o.fmt, color);
            color = fo.color;
        }
        _ => {}
    }
    (o, color)
}
pub fn describe(op: &Op) -> String {
    match op {
        Op::Create { fl, d, o, m } => format!("create {:?} {:?} {} {}", fl, d, rt::esc(o), rt::esc(m)),
        Op::Parse { fl, t } => format!("parse {:?} {}", fl, rt::esc(t)),
        Op::Render { fl, t, fo, form } => format!("render {:?} {:?} form {} {}", fl, fo, form, rt::esc(t)),
        Op::Fail { fl, t, fo, at, fail } => format!("write {:?} {:?} {} to a sink failing with {:?} after {} bytes", fl, fo, rt::esc(t), fail, at),
        Op::Reverse { fl, t } => format!("reverse {:?} {}", fl, rt::esc(t)),
        Op::Apply { fl, t, doc } => format!("apply {:?} {} to {}", fl, rt::esc(t), rt::esc(doc)),
        Op::Merge { fl, len, style, a, x, y } => {
            format!("merge {:?} {:?} {:?} base {} ours {} theirs {}", fl, len, style, rt::esc(a), rt::esc(x), rt::esc(y))
        }
        Op::Nested { fl, t, fo, inner } => format!("write {:?} {:?} {} to a sink that calls: {}", fl, fo, rt::esc(t), describe(inner)),
    }
}

/// The result of the call made alone, first thing, in a process of its own.
fn oracle(op: &Op) -> Vec<u8> {
    let op: &'static Op = Box::leak(Box::new(op.clone()));
    elsewhere(&|| describe(op), move || perform(op, None, &mut None))
}
/// What `f` gives in a process of its own that starts from the state this one is in.
fn elsewhere(what: &dyn Fn() -> String, f: impl FnOnce() -> Vec<u8> + Send + 'static) -> Vec<u8> {
    let (v, st) = forked(|| {
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::phase(f)));
        match v {
            Ok(mut v) => {
                v.insert(0, b'=');
                v
            }
            Err(_) => {
                let (c, m) = rt::run().viol.clone().unwrap_or(("harness".into(), "oracle".into()));
                format!("!{}\n{}", c, m).into_bytes()
            }
        }
    });
    match v.first() {
        Some(b'=') => v[1..].to_vec(),
        Some(b'!') => {
            let t = String::from_utf8_lossy(&v[1..]).into_owned();
            let (c, m) = t.split_once('\n').unwrap_or((&t, ""));
            rt::violate(c, format!("{}: {}", what(), m));
        }
        _ => rt::violate("crash", format!("the process died (status {:#x}) in {}", st, what())),
    }
}
/// Runs `f` in a forked process: what it gives, and how the process ended.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> (Vec<u8>, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        rt::check_ok(sys::pipe(fds.as_mut_ptr()) == 0, "harness", || "pipe".into());
    }
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        let r = rt::run();
        r.trace = None;
        r.rng_env = rt::mix(r.rng_env ^ 0x0c1e);
        r.surroundings = rt::mix(r.rng_env);
        r.ch = Choices::random(rt::mix(r.rng_env));
        r.limit = rt::STEP_LIMIT;
        r.max_switches = 0;
        let v = f();
        let mut i = 0;
        while i < v.len() {
            let n = unsafe { sys::write(fds[1], v[i..].as_ptr(), v.len() - i) };
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
        unsafe { sys::_exit(0) }
    }
    rt::check_ok(pid > 0, "harness", || "fork".into());
    let mut v = vec![];
    let mut st = 0;
    unsafe {
        sys::close(fds[1]);
        let mut b = [0u8; 65536];
        loop {
            let n = sys::read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        sys::close(fds[0]);
        while sys::waitpid(pid, &mut st, 0) < 0 && *sys::__errno_location() == 4 {}
    }
    (v, st)
}
/// Hundreds of different calls, made in one order here and in another order in a second process: every
/// call must give the same in both.
fn long() {
    probe(C::p_long_history);
    let n = pick(&[20, 100, 300, 500]);
    let mut ops: Vec<Op> = vec![];
    while ops.len() < n {
        let p = pool();
        for _ in 0..1 + chz(30) {
            ops.push(op(&p, 0));
        }
    }
    let ops: &'static Vec<Op> = Box::leak(Box::new(ops));
    // reversed, or rotated, so that whichever of two calls came first comes last
    let by = chz(ops.len());
    let order: Vec<usize> = if coin(1, 2) { (0..ops.len()).rev().collect() } else { (0..ops.len()).map(|i| (i + by) % ops.len()).collect() };
    let o = order.clone();
    let there = elsewhere(&|| format!("a history of {} calls", ops.len()), move || {
        let mut v = vec![];
        for i in o {
            v.extend_from_slice(&rt::digest(&perform(&ops[i], None, &mut None)).to_le_bytes());
        }
        v
    });
    let here: Vec<Vec<u8>> = rt::phase(move || ops.iter().map(|x| perform(x, None, &mut None)).collect());
    for (k, i) in order.iter().enumerate() {
        let d = rt::digest(&here[*i]);
        ev_bytes(121, &d.to_le_bytes());
        if there[k * 8..k * 8 + 8] != d.to_le_bytes() {
            rt::violate(
                "interference",
                format!("{} as call {} of a history gives {} but something else as call {} of the same calls in another order", describe(&ops[*i]), i + 1, rt::esc(&here[*i]), k + 1),
            );
        }
    }
}

struct World {
    ops: Vec<Op>,
    want: Vec<Vec<u8>>,
    objs: Vec<Objs>,
}
fn judge(w: &World, i: usize, got: &[u8], how: &str) {
    ev_bytes(120, got);
    if got != w.want[i] {
        rt::violate(
            "interference",
            format!("{} {} gives {} but alone {}", describe(&w.ops[i]), how, rt::esc(got), rt::esc(&w.want[i])),
        );
    }
}
pub fn c11() {
    let names = [
        (Is::<Patch<'static, str>>::SHAREABLE, "Patch<str>"),
        (Is::<Patch<'static, [u8]>>::SHAREABLE, "Patch<[u8]>"),
        (Is::<PatchFormatter>::SHAREABLE, "PatchFormatter"),
        (Is::<DiffOptions>::SHAREABLE, "DiffOptions"),
        (Is::<MergeOptions>::SHAREABLE, "MergeOptions"),
    ];
    for (ok, n) in names {
        rt::check_ok(ok, "not-shareable", || format!("{} is not Send + Sync", n));
    }
    if coin(1, 24) {
        return long();
    }
    let p = pool();
    let ops: Vec<Op> = (0..1 + chz(6)).map(|_| op(&p, 0)).collect();
    let mut want = vec![];
    for o in &ops {
        note(|| format!("call {}: {}", want.len(), describe(o)));
        want.push(oracle(o));
    }
    let w: &'static mut World = Box::leak(Box::new(World { ops, want, objs: vec![] }));
    let concurrent = coin(2, 3);
    if concurrent || coin(1, 2) {
        let q = Share(w as *mut World);
        let sh = rt::phase(move || {
            let w: &World = unsafe { &*q.get() };
            w.ops.iter().map(objs).collect::<Vec<_>>()
        });
        w.objs = sh;
    }
    let w: &'static World = w;
    let s = Share(w);
    if concurrent {
        rt::run().can_stall = coin(1, 3);
        let n = 2 + chz(3);
        let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
        // some schedules let all tasks make the same call at once
        let same = if coin(1, 2) { Some(chz(w.ops.len())) } else { None };
        for _ in 0..n {
            let plan: Vec<(usize, bool)> = (0..1 + chz(4)).map(|_| (same.unwrap_or_else(|| chz(w.ops.len())), coin(1, 2))).collect();
            v.push(Box::new(move || {
                let w = s.get();
                for (i, shared) in plan {
                    note(|| format!("call {} (shared objects: {})", i, shared));
                    let o = if shared { w.objs.get(i) } else { None };
                    let got = perform(&w.ops[i], o, &mut None);
                    probe(C::p_concurrent_ops);
                    judge(w, i, &got, "among concurrent calls");
                }
            }));
        }
        rt::tasks(v);
    } else {
        rt::phase(move || {
            let w = s.get();
            let mut area = if coin(1, 2) { Some(Vec::with_capacity(1 << 17)) } else { None };
            let n = pick(&[3, 10, 40, 120]);
            // one set of objects whose settings are changed from call to call
            let mut kept: Option<(Objs, bool)> = None;
            for k in 0..n {
                if coin(1, 12) {
                    churn(k);
                }
                let i = chz(w.ops.len());
                let mut o = if area.is_none() && coin(1, 2) { w.objs.get(i) } else { None };
                if o.is_none() && coin(1, 2) {
                    kept = Some(reset(kept.take(), &w.ops[i]));
                    o = kept.as_ref().map(|k| &k.0);
                }
                let got = perform(&w.ops[i], o, &mut area);
                judge(w, i, &got, &format!("as call {} of a history", k + 1));
            }
        });
    }
}
/// Calls on texts nobody else uses; their results are not of interest.
fn churn(k: usize) {
    fault(C::f_hash_seed);
    let n = pick(&[5, 50, 300]);
    let a: Vec<u8> = (0..n).flat_map(|i| format!("churn {} {}\n", k, i).into_bytes()).collect();
    let b: Vec<u8> = (0..n).flat_map(|i| format!("churn {} {}\n", k, i / 2 * 3).into_bytes()).collect();
    let p = api::create(gen::flavour(), &DOpts::plain(), &a, &b);
    let _ = api::apply(&p, &b);
    let _ = api::merge(Fl::B, None, None, &a, &b, &a);
}
