//! The public API of diffy, entered through the simulator.  A panic of diffy is a violation everywhere.
use crate::rt::{self, Caught, Cost};
use crate::stats::C;
use diffy::{ConflictStyle, DiffOptions, Line, MergeOptions, Patch, PatchFormatter};
use std::fmt;
use std::io;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fl {
    S,
    B,
}
#[derive(Clone)]
pub enum P<'a> {
    S(Patch<'a, str>),
    B(Patch<'a, [u8]>),
}
/// Lets tasks share objects whether or not the library marks them Sync (that is judged separately).
#[derive(Clone, Copy)]
pub struct Share<T>(pub T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T: Copy> Share<T> {
    pub fn get(&self) -> T {
        self.0
    }
}

/// A route on which the names are leaked to outlive the options object.
pub const ROUTE_LEAKS: u64 = 16;
/// Options of a creation.  `route` is the way the options object is brought to these settings; it must not matter.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DOpts {
    pub ctx: Option<usize>,
    pub orig: Option<String>,
    pub modi: Option<String>,
    pub route: u64,
}
impl DOpts {
    pub fn plain() -> Self {
        DOpts { ctx: None, orig: None, modi: None, route: 0 }
    }
    pub fn with_ctx(ctx: Option<usize>) -> Self {
        DOpts { ctx, ..DOpts::plain() }
    }
    pub fn names(&self) -> (&str, &str) {
        (self.orig.as_deref().unwrap_or("original"), self.modi.as_deref().unwrap_or("modified"))
    }
    pub fn build(&self) -> DiffOptions {
        let mut o = if self.route & 1 == 0 { DiffOptions::new() } else { DiffOptions::default() };
        if self.route & 2 != 0 {
            // settings that are replaced afterwards
            if self.ctx.is_some() {
                o.set_context_len(1);
            }
            if self.orig.is_some() {
                o.set_original_filename("stale \"a");
            }
            if self.modi.is_some() {
                o.set_modified_filename("stale\tb".to_string());
            }
        }
        self.set(&mut o);
        o
    }
    fn set(&self, o: &mut DiffOptions) {
        for step in [[0, 1, 2], [2, 1, 0], [1, 2, 0], [0, 2, 1]][(self.route >> 2 & 3) as usize] {
            match (step, &self.orig, &self.modi) {
                (0, _, _) => {
                    if let Some(c) = self.ctx {
                        o.set_context_len(c);
                    }
                }
                (1, Some(n), _) if self.route & ROUTE_LEAKS != 0 => {
                    o.set_original_filename(st(leak(n.clone().into_bytes())));
                }
                (1, Some(n), _) => {
                    o.set_original_filename(n.clone());
                }
                (2, _, Some(n)) if self.route & ROUTE_LEAKS != 0 => {
                    o.set_modified_filename(st(leak(n.clone().into_bytes())));
                }
                (2, _, Some(n)) => {
                    o.set_modified_filename(n.clone());
                }
                _ => {}
            }
        }
    }
    /// Brings an object that was used with other settings to these.
    pub fn reset(&self, o: &mut DiffOptions) {
        let (a, b) = self.names();
        let all = DOpts { ctx: Some(self.ctx.unwrap_or(3)), orig: Some(a.into()), modi: Some(b.into()), route: self.route };
        all.set(o);
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FOpts {
    pub color: bool,
    pub msg: bool,
    pub suppress: bool,
    pub route: u64,
}
impl FOpts {
    pub const DEFAULT: FOpts = FOpts { color: false, msg: true, suppress: true, route: 0 };
    pub fn is_default(&self) -> bool {
        FOpts { route: 0, ..*self } == FOpts::DEFAULT
    }
    pub fn build(&self) -> PatchFormatter {
        let mut f = if self.route & 1 == 0 { PatchFormatter::new() } else { PatchFormatter::default() };
        if self.route & 2 != 0 {
            f = f.suppress_blank_empty(!self.suppress).missing_newline_message(!self.msg);
        }
        let all = self.route & 6 != 0;
        for step in [[0, 1, 2], [2, 1, 0], [1, 2, 0], [1, 0, 2]][(self.route >> 3 & 3) as usize] {
            f = match step {
                0 if self.color => f.with_color(),
                1 if all || !self.msg => f.missing_newline_message(self.msg),
                2 if all || !self.suppress => f.suppress_blank_empty(self.suppress),
                _ => f,
            };
        }
        f
    }
    /// Brings a formatter that was used with other settings to these; colour cannot be taken back.
    pub fn reset(&self, f: PatchFormatter, had_color: bool) -> PatchFormatter {
        if had_color && !self.color {
            return self.build();
        }
        let f = f.missing_newline_message(self.msg).suppress_blank_empty(self.suppress);
        if self.color {
            f.with_color()
        } else {
            f
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct HView {
    pub old: (usize, usize),
    pub new: (usize, usize),
    pub fctx: Option<Vec<u8>>,
    pub lines: Vec<(u8, Vec<u8>)>,
}
/// What the public accessors say about a patch.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct View {
    pub orig: Option<Vec<u8>>,
    pub modi: Option<Vec<u8>>,
    pub hunks: Vec<HView>,
}

pub fn bug<R>(what: &str, r: (Result<R, Caught>, Cost)) -> (R, Cost) {
    match r {
        (Ok(v), c) => (v, c),
        (Err(Caught::Bug(m)), _) => rt::violate("panic", format!("{} panicked: {}", what, m)),
        (Err(Caught::Injected), _) => rt::violate("harness", format!("stray injected panic in {}", what)),
    }
}
fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    bug(what, rt::enter(f)).0
}
pub fn st(b: &[u8]) -> &str {
    std::str::from_utf8(b).expect("harness: text flavour needs UTF-8")
}
pub fn is_utf8(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}
pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

pub fn create_with<'a>(fl: Fl, opts: &DiffOptions, o: &'a [u8], m: &'a [u8]) -> P<'a> {
    match fl {
        Fl::S => {
            let (o, m) = (st(o), st(m));
            P::S(call("create_patch", || opts.create_patch(o, m)))
        }
        Fl::B => P::B(call("create_patch_bytes", || opts.create_patch_bytes(o, m))),
    }
}
pub fn create<'a>(fl: Fl, d: &DOpts, o: &'a [u8], m: &'a [u8]) -> P<'a> {
    rt::probe(match fl {
        Fl::S => C::p_text_api,
        Fl::B => C::p_byte_api,
    });
    if *d == DOpts::plain() {
        return match fl {
            Fl::S => {
                let (o, m) = (st(o), st(m));
                P::S(call("create_patch", || diffy::create_patch(o, m)))
            }
            Fl::B => P::B(call("create_patch_bytes", || diffy::create_patch_bytes(o, m))),
        };
    }
    create_with(fl, &d.build(), o, m)
}
pub fn parse(fl: Fl, b: &[u8]) -> Result<P<'_>, String> {
    match fl {
        Fl::S => {
            let s = st(b);
            call("Patch::from_str", || Patch::from_str(s)).map(P::S).map_err(|e| e.to_string())
        }
        Fl::B => call("Patch::from_bytes", || Patch::from_bytes(b)).map(P::B).map_err(|e| e.to_string()),
    }
}
/// Ok(text) or the number of the hunk named by the error.
pub fn apply(p: &P<'_>, doc: &[u8]) -> Result<Vec<u8>, usize> {
    let r = match p {
        P::S(p) => {
            let d = st(doc);
            call("apply", || diffy::apply(d, p)).map(String::into_bytes)
        }
        P::B(p) => call("apply_bytes", || diffy::apply_bytes(doc, p)),
    };
    r.map_err(|e| hunk_number(&e))
}
pub fn hunk_number(e: &diffy::ApplyError) -> usize {
    let s = e.to_string();
    let d: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(0)
}
pub fn reverse<'a>(p: &'a P<'a>) -> P<'a> {
    match p {
        P::S(p) => P::S(call("reverse", || p.reverse())),
        P::B(p) => P::B(call("reverse", || p.reverse())),
    }
}
pub fn eq(a: &P<'_>, b: &P<'_>) -> bool {
    match (a, b) {
        (P::S(a), P::S(b)) => call("==", || a == b),
        (P::B(a), P::B(b)) => call("==", || a == b),
        _ => view(a) == view(b),
    }
}
pub fn to_bytes(p: &P<'_>) -> Vec<u8> {
    match p {
        P::S(p) => call("to_bytes", || subject::to_bytes_str(p)),
        P::B(p) => call("to_bytes", || subject::to_bytes_bytes(p)),
    }
}
pub fn to_text(p: &P<'_>) -> Option<Vec<u8>> {
    match p {
        P::S(p) => {
            let mut s = String::new();
            let r = call("to_string", || subject::display_default(p, &mut s));
            crate::check!(r.is_ok(), "text-error", "to_string of a patch failed on a String");
            Some(s.into_bytes())
        }
        P::B(_) => None,
    }
}
/// One write into a caller's byte sink; Err(Injected) when the sink panicked.
pub fn write(f: &PatchFormatter, p: &P<'_>, w: &mut dyn io::Write) -> (Result<io::Result<()>, Caught>, Cost) {
    let r = match p {
        P::S(p) => rt::enter(|| subject::write_str(f, p, w)),
        P::B(p) => rt::enter(|| subject::write_bytes(f, p, w)),
    };
    if let (Err(Caught::Bug(m)), _) = &r {
        rt::violate("panic", format!("write_patch_into panicked: {}", m));
    }
    r
}
pub fn write_text(f: &PatchFormatter, p: &P<'_>, w: &mut dyn fmt::Write) -> (Result<fmt::Result, Caught>, Cost) {
    let r = match p {
        P::S(p) => rt::enter(|| subject::display_str(f, p, w)),
        P::B(_) => rt::violate("harness", "byte patch has no text form".into()),
    };
    if let (Err(Caught::Bug(m)), _) = &r {
        rt::violate("panic", format!("Display of a patch panicked: {}", m));
    }
    r
}
pub fn merge_opts(len: Option<usize>, diff3: Option<bool>, route: u64) -> MergeOptions {
    let mut o = if route & 1 == 0 { MergeOptions::new() } else { MergeOptions::default() };
    let style = |d: bool| if d { ConflictStyle::Diff3 } else { ConflictStyle::Merge };
    if route & 2 != 0 {
        // settings that are replaced afterwards
        if len.is_some() {
            o.set_conflict_marker_length(11);
        }
        if let Some(d) = diff3 {
            o.set_conflict_style(style(!d));
        }
    }
    if let (Some(d), true) = (diff3, route & 4 != 0) {
        o.set_conflict_style(style(d));
    }
    if let Some(n) = len {
        o.set_conflict_marker_length(n);
    }
    if let (Some(d), true) = (diff3, route & 4 == 0) {
        o.set_conflict_style(style(d));
    }
    o
}
/// Brings an object that was used with other settings to these.
pub fn merge_reset(o: &mut MergeOptions, len: Option<usize>, diff3: Option<bool>) {
    o.set_conflict_marker_length(len.unwrap_or(7));
    o.set_conflict_style(if diff3.unwrap_or(true) { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
}
pub fn merge_with(fl: Fl, o: &MergeOptions, a: &[u8], x: &[u8], y: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    match fl {
        Fl::S => {
            let (a, x, y) = (st(a), st(x), st(y));
            call("merge", || o.merge(a, x, y)).map(String::into_bytes).map_err(String::into_bytes)
        }
        Fl::B => call("merge_bytes", || o.merge_bytes(a, x, y)),
    }
}
pub fn merge(fl: Fl, len: Option<usize>, diff3: Option<bool>, a: &[u8], x: &[u8], y: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    if len.is_none() && diff3.is_none() {
        return match fl {
            Fl::S => {
                let (a, x, y) = (st(a), st(x), st(y));
                call("merge", || diffy::merge(a, x, y)).map(String::into_bytes).map_err(String::into_bytes)
            }
            Fl::B => call("merge_bytes", || diffy::merge_bytes(a, x, y)),
        };
    }
    let route = a.len() + 3 * x.len() + 7 * y.len();
    merge_with(fl, &merge_opts(len, diff3, route as u64), a, x, y)
}

/// The accessors of a range must agree with each other.
fn range(r: diffy::HunkRange, bad: &mut Option<String>) -> (usize, usize) {
    let (s, n, e) = (r.start(), r.len(), r.end());
    if e.wrapping_sub(s) != n || r.range() != (s..e) || r.is_empty() != (n == 0) {
        *bad = Some(format!("a range of {} lines from {} ends at {}, is {:?}, empty: {}", n, s, e, r.range(), r.is_empty()));
    }
    (s, n)
}
fn view_of<T: ToOwned + AsRef<[u8]> + ?Sized>(p: &Patch<'_, T>, bad: &mut Option<String>) -> View {
    View {
        orig: p.original().map(|x| x.as_ref().to_vec()),
        modi: p.modified().map(|x| x.as_ref().to_vec()),
        hunks: p
            .hunks()
            .iter()
            .map(|h| HView {
                old: range(h.old_range(), bad),
                new: range(h.new_range(), bad),
                fctx: h.function_context().map(|x| x.as_ref().to_vec()),
                lines: h
                    .lines()
                    .iter()
                    .map(|l| match l {
                        Line::Context(x) => (b' ', x.as_ref().to_vec()),
                        Line::Delete(x) => (b'-', x.as_ref().to_vec()),
                        Line::Insert(x) => (b'+', x.as_ref().to_vec()),
                    })
                    .collect(),
            })
            .collect(),
    }
}
pub fn view(p: &P<'_>) -> View {
    let mut bad = None;
    let v = match p {
        P::S(p) => call("accessors", || view_of(p, &mut bad)),
        P::B(p) => call("accessors", || view_of(p, &mut bad)),
    };
    if let Some(m) = bad {
        rt::violate("accessors", m);
    }
    v
}
