//! C01, C02: a patch written by concurrent tasks into sinks that misbehave.
use crate::api::{self, Share, P};
use crate::gen::{self, Made};
use crate::model;
use crate::rt::{self, ch, chz, coin, ev_bytes, fault, note, pick, probe, Caught, Outside, SimPanic};
use crate::stats::C;
use diffy::PatchFormatter;
use std::fmt;
use std::io::{self, ErrorKind, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fail {
    Kind(ErrorKind),
    Os(i32),
    Zero,
    Panic,
    Text,
}
pub const KINDS: &[Fail] = &[
    Fail::Kind(ErrorKind::Other),
    Fail::Kind(ErrorKind::BrokenPipe),
    Fail::Os(28),
    Fail::Zero,
    Fail::Panic,
    Fail::Kind(ErrorKind::WouldBlock),
    Fail::Kind(ErrorKind::TimedOut),
    Fail::Kind(ErrorKind::PermissionDenied),
    Fail::Kind(ErrorKind::UnexpectedEof),
    Fail::Kind(ErrorKind::InvalidData),
    Fail::Kind(ErrorKind::WriteZero),
    Fail::Kind(ErrorKind::ConnectionReset),
    Fail::Kind(ErrorKind::OutOfMemory),
    Fail::Kind(ErrorKind::InvalidInput),
    Fail::Kind(ErrorKind::NotFound),
    Fail::Kind(ErrorKind::AddrInUse),
    Fail::Kind(ErrorKind::AddrNotAvailable),
    Fail::Kind(ErrorKind::AlreadyExists),
    Fail::Kind(ErrorKind::ArgumentListTooLong),
    Fail::Kind(ErrorKind::ConnectionAborted),
    Fail::Kind(ErrorKind::ConnectionRefused),
    Fail::Kind(ErrorKind::Deadlock),
    Fail::Kind(ErrorKind::DirectoryNotEmpty),
    Fail::Kind(ErrorKind::ExecutableFileBusy),
    Fail::Kind(ErrorKind::FileTooLarge),
    Fail::Kind(ErrorKind::HostUnreachable),
    Fail::Kind(ErrorKind::IsADirectory),
    Fail::Kind(ErrorKind::NetworkDown),
    Fail::Kind(ErrorKind::NetworkUnreachable),
    Fail::Kind(ErrorKind::NotADirectory),
    Fail::Kind(ErrorKind::NotConnected),
    Fail::Kind(ErrorKind::NotSeekable),
    Fail::Kind(ErrorKind::QuotaExceeded),
    Fail::Kind(ErrorKind::ReadOnlyFilesystem),
    Fail::Kind(ErrorKind::ResourceBusy),
    Fail::Kind(ErrorKind::StaleNetworkFileHandle),
    Fail::Kind(ErrorKind::StorageFull),
    Fail::Kind(ErrorKind::TooManyLinks),
    Fail::Kind(ErrorKind::Unsupported),
    Fail::Kind(ErrorKind::CrossesDevices),
    Fail::Kind(ErrorKind::InvalidFilename),
    Fail::Os(5), // EIO
    Fail::Os(9), // EBADF
    Fail::Os(11), // EAGAIN
    Fail::Os(12), // ENOMEM
    Fail::Os(27), // EFBIG
    Fail::Os(30), // EROFS
    Fail::Os(32), // EPIPE
    Fail::Os(110), // ETIMEDOUT
    Fail::Os(122), // EDQUOT
    Fail::Os(116), // ESTALE
    Fail::Os(6), // ENXIO
    Fail::Os(105), // ENOBUFS
];
impl Fail {
    pub fn kind(&self) -> ErrorKind {
        match self {
            Fail::Kind(k) => *k,
            Fail::Os(n) => io::Error::from_raw_os_error(*n).kind(),
            Fail::Zero => ErrorKind::WriteZero,
            _ => ErrorKind::Other,
        }
    }
}
/// A byte device: legal misbehaviour at a rate, and at most one fatal failure at a byte offset.
pub struct Sink {
    pub got: Vec<u8>,
    pub calls: u64,
    pub faults: u64,
    pub failed: bool,
    pub after: u64,
    rate: u64,
    max_faults: u64,
    fail: Option<(usize, Fail)>,
}
impl Sink {
    pub fn healthy() -> Self {
        Sink { got: vec![], calls: 0, faults: 0, failed: false, after: 0, rate: 0, max_faults: 0, fail: None }
    }
    /// Only what a correct writer must tolerate.
    pub fn legal() -> Self {
        Sink { rate: pick(&[0, 1, 4, 16, 60]), max_faults: 1 + ch(400), ..Self::healthy() }
    }
    pub fn failing(at: usize, f: Fail) -> Self {
        Sink { fail: Some((at, f)), ..Self::legal() }
    }
}
fn stall() {
    fault(C::f_sink_stall);
    rt::advance(1_000_000 * (1 + ch(5000)));
    rt::yield_point();
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = Outside::new();
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.failed {
            self.after += 1;
            return Err(ErrorKind::Other.into());
        }
        rt::yield_point();
        let mut n = b.len();
        if self.rate > 0 && self.faults < self.max_faults && coin(self.rate, 64) {
            self.faults += 1;
            match ch(4) {
                0 | 1 => {
                    n = 1 + chz(n);
                    if n < b.len() {
                        fault(C::f_short_write);
                    }
                }
                2 => {
                    fault(C::f_interrupt);
                    return Err(match ch(3) {
                        0 => ErrorKind::Interrupted.into(),
                        1 => io::Error::from_raw_os_error(4), // EINTR
                        _ => io::Error::new(ErrorKind::Interrupted, "simulated"),
                    });
                }
                _ => stall(),
            }
        }
        if let Some((at, f)) = self.fail {
            if self.got.len() + n > at {
                n = at - self.got.len();
                if n == 0 {
                    self.failed = true;
                    note(|| format!("sink fails with {:?} after {} bytes", f, at));
                    match f {
                        Fail::Panic => {
                            fault(C::f_sink_panic);
                            drop(_o);
                            std::panic::resume_unwind(Box::new(SimPanic));
                        }
                        Fail::Zero => {
                            fault(C::f_write_zero);
                            return Ok(0);
                        }
                        Fail::Os(e) => {
                            fault(if matches!(e, 28 | 122) { C::f_device_full } else { C::f_write_error });
                            return Err(io::Error::from_raw_os_error(e));
                        }
                        k => {
                            fault(C::f_write_error);
                            return Err(io::Error::new(k.kind(), "simulated"));
                        }
                    }
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    /// Scattered writes are gathered by the device: the number it accepted may end anywhere.
    fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all = {
            let _o = Outside::new();
            b.iter().flat_map(|s| s.iter().copied()).collect::<Vec<u8>>()
        };
        self.write(&all)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// What diffy itself sees when the caller buffers in front of the device.
pub struct Probe<W: Write> {
    pub w: W,
    pub got: Vec<u8>,
    pub failed: Option<ErrorKind>,
    pub after: u64,
}
impl<W: Write> Write for Probe<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = Outside::new();
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed.is_some() {
            self.after += 1;
        }
        match self.w.write(b) {
            Ok(0) => {
                self.failed = Some(ErrorKind::WriteZero);
                Ok(0)
            }
            Ok(n) => {
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Err(e) => {
                if e.kind() != ErrorKind::Interrupted {
                    self.failed = Some(e.kind());
                }
                Err(e)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.w.flush()
    }
}
/// A text sink.
pub struct Text {
    pub got: String,
    pub failed: bool,
    pub after: u64,
    fail: Option<(usize, bool)>,
}
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _o = Outside::new();
        if s.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        rt::yield_point();
        if let Some((at, panic)) = self.fail {
            if self.got.len() + s.len() > at {
                let mut n = at - self.got.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
                self.failed = true;
                note(|| format!("text sink fails (panic: {}) after {} bytes", panic, at));
                if panic {
                    fault(C::f_text_sink_panic);
                    drop(_o);
                    std::panic::resume_unwind(Box::new(SimPanic));
                }
                fault(C::f_text_sink_error);
                return Err(fmt::Error);
            }
        }
        self.got.push_str(s);
        Ok(())
    }
}

struct Shared {
    x: Made,
    f: PatchFormatter,
    plain: Vec<u8>,
    full: Vec<u8>,
    color: bool,
    default_opts: bool,
}
fn prepare() -> &'static Shared {
    let x = gen::made_or_parsed();
    let mut fo = gen::fopts();
    if fo.color && model::has_esc(&x.view) {
        fo.color = false;
    }
    if fo.color {
        probe(C::p_color);
    }
    let f = fo.build();
    let plain = model::render(&x.view, &fo);
    // the colour sequences are the library's choice: take them from an undisturbed write
    let mut s = Sink::healthy();
    let (r, _) = api::write(&f, &x.p, &mut s);
    rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || "writing to a healthy sink failed".into());
    note(|| format!("patch with options {:?}, {} bytes", fo, plain.len()));
    let full = s.got;
    let default_opts = fo.is_default();
    let sh = Shared { x, f, plain, full, color: fo.color, default_opts };
    same(&sh, &sh.full, "an undisturbed write");
    Box::leak(Box::new(sh))
}
fn same(s: &Shared, got: &[u8], what: &str) {
    let g = if s.color { model::strip_color(got) } else { got.to_vec() };
    if g != s.plain {
        let n = g.iter().zip(&s.plain).take_while(|(a, b)| a == b).count();
        rt::violate(
            "rendering",
            format!("{} delivered {} instead of {} (first difference at byte {})", what, rt::esc(&g), rt::esc(&s.plain), n),
        );
    }
    if !s.full.is_empty() && got != s.full.as_slice() {
        rt::violate("rendering", format!("{} delivered {} but an undisturbed write {}", what, rt::esc(got), rt::esc(&s.full)));
    }
}
fn healthy_write(s: &Shared) {
    let form = ch(6);
    let text = matches!(s.x.p, P::S(_));
    match form {
        4 if text => {
            let mut t = Text { got: String::new(), failed: false, after: 0, fail: None };
            let (r, _) = api::write_text(&s.f, &s.x.p, &mut t);
            rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || "writing to a healthy text sink failed".into());
            probe(C::p_text_api);
            ev_bytes(11, t.got.as_bytes());
            same(s, t.got.as_bytes(), "the text form");
        }
        5 if s.default_opts => {
            let b = api::to_bytes(&s.x.p);
            same(s, &b, "to_bytes");
            if let Some(t) = api::to_text(&s.x.p) {
                same(s, &t, "to_string");
            }
            ev_bytes(12, &b);
        }
        2 | 3 => {
            probe(C::p_buffered_sink);
            let cap = pick(&[1, 2, 7, 64, 8192]);
            let mut p = Probe { w: io::BufWriter::with_capacity(cap, Sink::legal()), got: vec![], failed: None, after: 0 };
            let (r, _) = api::write(&s.f, &s.x.p, &mut p);
            rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || format!("a tolerable sink was reported as failed: {:?}", r.ok()));
            same(s, &p.got, "a buffered write");
            let r = p.w.flush();
            rt::check_ok(r.is_ok(), "harness", || "flush".into());
            let got = &p.w.get_ref().got;
            ev_bytes(13, got);
            same(s, got, "a buffered write after flush");
        }
        _ => {
            let mut k = Sink::legal();
            let (r, _) = api::write(&s.f, &s.x.p, &mut k);
            rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || format!("a tolerable sink was reported as failed: {:?}", r.ok()));
            ev_bytes(14, &k.got);
            same(s, &k.got, "write_patch_into");
        }
    }
}
pub fn c01() {
    let s = Share(rt::phase(prepare));
    let g = s.get();
    let changed = g.x.view.hunks.iter().any(|h| h.lines.iter().any(|l| l.0 != b' '));
    rt::check_ok(!(g.color && changed && g.full == g.plain), "colour", || "colour was asked for but the output has none".into());
    let n = 1 + chz(3);
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..n {
        v.push(Box::new(move || {
            for _ in 0..1 + chz(3) {
                healthy_write(s.get());
            }
        }));
    }
    rt::tasks(v);
}

fn prefix(s: &Shared, got: &[u8]) {
    if !s.full.starts_with(got) {
        rt::violate("prefix", format!("a failed sink holds {} which is no prefix of {}", rt::esc(got), rt::esc(&s.full)));
    }
}
fn offset(len: usize) -> usize {
    match ch(4) {
        0 => chz(len.min(12) + 1),
        1 => len - chz(len.min(12) + 1),
        _ => chz(len + 1),
    }
}
fn outcome(r: Result<io::Result<()>, Caught>, fired: bool, want: Fail, got: &[u8], after: u64, s: &Shared) {
    let shown = match &r {
        Ok(Ok(())) => "success".to_string(),
        Ok(Err(e)) => format!("error {:?}", e.kind()),
        Err(_) => "panic".into(),
    };
    rt::ev(20, fired as u64);
    ev_bytes(21, got);
    if !fired {
        rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || format!("the sink did not fail but the write reported {}", shown));
        same(s, got, "a write whose failure point was not reached");
        return;
    }
    let ok = match (&r, want) {
        (Err(Caught::Injected), Fail::Panic) => true,
        (Ok(Err(e)), f) if f != Fail::Panic => e.kind() == f.kind(),
        _ => false,
    };
    rt::check_ok(ok, "unreported", || format!("the sink failed with {:?} but the write reported {}", want, shown));
    rt::check_ok(after == 0, "after-failure", || format!("{} writes reached the sink after it failed with {:?}", after, want));
    prefix(s, got);
}
fn failing_write(s: &Shared) {
    let len = s.full.len();
    let at = offset(len);
    let text = matches!(s.x.p, P::S(_));
    match ch(5) {
        3 if text => {
            let panic = coin(1, 4);
            let mut t = Text { got: String::new(), failed: false, after: 0, fail: Some((at, panic)) };
            let (r, _) = api::write_text(&s.f, &s.x.p, &mut t);
            ev_bytes(22, t.got.as_bytes());
            if !t.failed {
                rt::check_ok(matches!(r, Ok(Ok(()))), "ack", || "the text sink did not fail but the write did".into());
                return same(s, t.got.as_bytes(), "a text write whose failure point was not reached");
            }
            let ok = match &r {
                Err(Caught::Injected) => panic,
                Ok(Err(_)) => !panic,
                _ => false,
            };
            rt::check_ok(ok, "unreported", || format!("the text sink failed (panic: {}) but the write did not report it", panic));
            rt::check_ok(t.after == 0, "after-failure", || format!("{} writes reached the text sink after it failed", t.after));
            prefix(s, t.got.as_bytes());
        }
        4 => {
            probe(C::p_buffered_sink);
            let cap = pick(&[1, 2, 7, 64, 8192]);
            let f = KINDS[chz(KINDS.len())];
            let mut p =
                Probe { w: io::BufWriter::with_capacity(cap, Sink::failing(at, f)), got: vec![], failed: None, after: 0 };
            let (r, _) = api::write(&s.f, &s.x.p, &mut p);
            let panicked = matches!(r, Err(Caught::Injected));
            if panicked {
                rt::check_ok(f == Fail::Panic, "harness", || "panic".into());
                prefix(s, &p.got);
            } else {
                // a panicking device that was not reached counts as not failed
                let fired = p.failed.is_some();
                let want = match p.failed {
                    Some(k) => Fail::Kind(k),
                    None => f,
                };
                let got = p.got.clone();
                outcome(r, fired, want, &got, p.after, s);
            }
            let _ = p.w.into_parts();
        }
        _ => {
            let f = KINDS[chz(KINDS.len())];
            let mut k = Sink::failing(at, f);
            let (r, _) = api::write(&s.f, &s.x.p, &mut k);
            let (got, fired, after) = (k.got, k.failed, k.after);
            outcome(r, fired, f, &got, after, s);
        }
    }
}
pub fn c02() {
    let s = Share(rt::phase(prepare));
    let n = 1 + chz(3);
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for i in 0..n {
        v.push(Box::new(move || {
            let s = s.get();
            if i > 0 && coin(1, 3) {
                return healthy_write(s);
            }
            for _ in 0..1 + chz(4) {
                failing_write(s);
            }
            healthy_write(s);
            probe(C::p_retry_ok);
        }));
    }
    rt::tasks(v);
}
