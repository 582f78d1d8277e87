//! Swarm generators: every draw goes through the run's choices, 0 is always the simplest alternative.
use crate::api::{self, leak, DOpts, FOpts, Fl, HView, View, P};
use crate::model;
use crate::rt::{between, ch, chz, coin, mix, pick, probe};
use crate::stats::C;

pub type Lines = Vec<Vec<u8>>;

/// A private stream for bulk data, seeded by one choice.
pub struct Sub(u64);
impl Sub {
    pub fn new() -> Self {
        Sub(ch(1 << 40))
    }
    pub fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        ((mix(self.0) as u128 * n as u128) >> 64) as usize
    }
}

pub fn flavour() -> Fl {
    if coin(1, 2) {
        Fl::B
    } else {
        Fl::S
    }
}

const CODE: &[&str] = &[
    "{", "}", "", "    return x;", "fn f() {", "    let x = 1;", "    x += 1;", "}", "", "    if x {", "    }", "// end", "\t", " ",
];
const NASTY: &[&str] = &[
    "--- a", "+++ b", "@@ -1 +1 @@", "@@ -1,2 +3,4 @@ fn", "\\ No newline at end of file", "-", "+", " ", "@", "@@", "- ", "+ ", "-- x",
    "++ y", "\r", "a\r", "diff --git a b", "\\", "\"", "\t", "\u{e9}\u{2603}", "\u{1f600}", "<<<<<<< ours", "=======", ">>>>>>> theirs",
    "||||||| original", "-0,0 +0,0", "\u{feff}x", "a\u{301}", "\u{2028}", "\u{85}", "\x0b\x0c", "\0", "%s {} {0}",
];

/// Different lines that careless comparisons take for equal: by case, white space or normalisation, by
/// their ends only, or by a common hash function cut to 32 bits (FNV-1a, FNV-1, CRC-32, Adler-32, sdbm, Jenkins, rotate
/// and xor, ELF, Murmur 3, SipHash with fixed keys, FxHash, times 31, times 33).
const ALIKE: &[&str] = &[
    "foo", "Foo", "FOO", "foo ", " foo", "foo\t", "foo\r", "fo o", "fo  o", "fo\to", "\tfoo", "foo\0", "\u{feff}foo", "fo\u{f6}", "foo\u{308}",
    "foo\u{200b}", "foo\u{a0}", "foo\u{2028}", "oof", "ofo", "stra\u{df}e", "strasse", "STRASSE", "1", "01", "1.0", "+1", "",
];
const COLLIDING: &[(&str, &str)] = &[
    ("mGPjGBm", "MHOZBek"), ("UAbWcaE", "PkFhPmp"), ("9pWujm5", "MYSXwpC"), ("SgtAStM", "oW4qUkN"), ("B5ubBe6", "taVb23j"), ("ZTpc7Wm", "5Cm1SYH"),
    ("i2tOwCT", "hHPlVVT"), ("TKvKETb", "WXJIvUN"), ("S6X5Ft5", "ms8cx8x"), ("tUb1a5C", "SvX9FVS"), ("6ZMbNzJ", "xQHOBk8"), ("p7HxdmG", "v0nExVH"),
    ("aNCpU7x", "MNCs6VS"), ("rVX7fFV", "jWx7fFP"), ("PSjAjqU", "1Ck1m9u"), ("9WzPeVy", "jIXosu9"), ("IHL2kDxHJC5jGTcJ", "IhXGYpPUCCY0f0O7"),
    ("FwQNQYhuDxTj1lYC", "V3T6befjL.WLcYt."), ("3sDx1EmZDf4spt1x", "vOv9AXM6m8_ANzib"), ("kS50x4l", "JWMv74n"), ("OfRoPFf", "N6PIuqr"),
    ("LRlLd1Q", "YL2YAgs"), ("RQ5mwke", "n7EjuUk"), ("5WJzcfC", "2PvwIvt"), ("6LSHxA2", "bWUsTSv"), ("XeS6Rrq", "ahgNm5e"), ("zWy3IrZ", "lqT6HLX"),
    ("AaAa", "BBBB"), ("AaBB", "BBAa"), ("EzEz", "FYFY"), ("EzFY", "FYEz"), ("abcd", "dcba"), ("abab", "baba"),
];
fn similar(fl: Fl) -> Vec<u8> {
    match ch(8) {
        0..=2 => pick(ALIKE).as_bytes().to_vec(),
        3 | 4 => {
            let (a, b) = pick(COLLIDING);
            if coin(1, 2) { a } else { b }.as_bytes().to_vec()
        }
        5 if fl == Fl::B => pick(&[&b"x\xff"[..], b"x\xfe", b"x\xef\xbf\xbd", b"x\xc3", b"x\xc3\xa9", b"X\xff", b"\xff", b"\xed\xa0\x80"]).to_vec(),
        6 if coin(1, 16) => {
            // equal under any polynomial hash that wraps at 64 bits
            let flip = ch(2) as u32;
            (0..2048u32).map(|i| if (i.count_ones() + flip) % 2 == 0 { b'a' } else { b'b' }).collect()
        }
        _ => {
            // long lines that differ in one place
            let n = pick(&[17, 33, 64, 65, 129, 260, 1030]);
            let mut v = vec![b'.'; n];
            let at = pick(&[0, 8, n / 2, n - 9, n - 1, 15, 16]);
            v[at] = pick(b"ab.");
            v
        }
    }
}
/// The text with one half of a colliding pair replaced by the other.
pub fn collide(t: &str) -> Option<String> {
    let (a, b) = COLLIDING.iter().find(|(a, _)| t.contains(a))?;
    Some(t.replacen(a, b, 1))
}
/// The n-th line of a family in which no two are equal and many are alike.
pub fn similar_nth(n: u64) -> String {
    let k = (n / 14) as usize;
    match n % 14 {
        0 => format!("row {}", k),
        1 => format!("Row {}", k),
        2 => format!("row {} ", k),
        3 => format!(" row {}", k),
        4 => format!("row  {}", k),
        5 => format!("row\t{}", k),
        6 => format!("row {}\r", k),
        7 => format!("row {}\u{a0}", k),
        8 => format!("row 0{}", k),
        9 => format!("{:.>80}", k),
        10 => format!("{:.>81}", k),
        m => {
            let (a, b) = COLLIDING[k % COLLIDING.len()];
            let t = k / COLLIDING.len();
            match m {
                11 => format!("{}{:.>2$}", a, "", t),
                12 => format!("{}{:.>2$}", b, "", t),
                _ => format!("row 00{}", k),
            }
        }
    }
}

fn word(fl: Fl) -> Vec<u8> {
    let n = chz(9);
    match fl {
        Fl::B if coin(1, 2) => (0..n).map(|_| ch(256) as u8).filter(|b| *b != b'\n').collect(),
        _ => {
            let mut s = String::new();
            for _ in 0..n {
                s.push(match ch(8) {
                    0..=5 => (b'a' + ch(26) as u8) as char,
                    6 => char::from_u32(0x20 + ch(0x60) as u32).unwrap_or('x'),
                    _ => char::from_u32(0xa0 + ch(0x3000) as u32).unwrap_or('\u{e9}'),
                });
            }
            s.into_bytes()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Tiny,
    Numbered,
    Code,
    Nasty,
    Words,
    Similar,
}
pub fn style() -> Style {
    pick(&[Style::Tiny, Style::Numbered, Style::Code, Style::Nasty, Style::Words, Style::Tiny, Style::Similar])
}
/// One line without terminator.
pub fn line(fl: Fl, st: Style) -> Vec<u8> {
    match st {
        Style::Tiny => pick(&["a", "b", "c", ""]).as_bytes().to_vec(),
        Style::Numbered => format!("line {}", ch(1000)).into_bytes(),
        Style::Code => pick(CODE).as_bytes().to_vec(),
        Style::Nasty => pick(NASTY).as_bytes().to_vec(),
        Style::Words => word(fl),
        Style::Similar => similar(fl),
    }
}
pub fn doc_lines(fl: Fl, st: Style, max: usize) -> Lines {
    let n = match ch(8) {
        0 => chz(3.min(max) + 1),
        1..=5 => chz(12.min(max) + 1),
        _ => chz(max + 1),
    };
    (0..n).map(|_| line(fl, st)).collect()
}
/// Joins lines; every line is terminated except possibly the last.
pub fn join(l: &[Vec<u8>], final_nl: bool) -> Vec<u8> {
    let mut v = vec![];
    for (i, x) in l.iter().enumerate() {
        v.extend_from_slice(x);
        if i + 1 < l.len() || final_nl {
            v.push(b'\n');
        }
    }
    v
}
pub fn split(b: &[u8]) -> Vec<&[u8]> {
    b.split_inclusive(|c| *c == b'\n').collect()
}
pub fn mutate(fl: Fl, st: Style, l: &mut Lines) {
    match ch(16) {
        15 => {
            probe(C::p_full_rewrite);
            *l = doc_lines(fl, st, 12);
            return;
        }
        14 => {
            l.clear();
            return;
        }
        _ => {}
    }
    for _ in 0..1 + chz(4) {
        mutate_once(fl, st, l);
    }
}
pub fn mutate_once(fl: Fl, st: Style, l: &mut Lines) {
    let n = l.len();
    let at = chz(n + 1);
    match ch(7) {
        0 => l.insert(at, line(fl, st)),
        1 if n > 0 => {
            l.remove(at.min(n - 1));
        }
        2 if n > 0 => l[at.min(n - 1)] = line(fl, st),
        3 => {
            for _ in 0..1 + chz(4) {
                l.insert(at, line(fl, st));
            }
        }
        4 if n > 0 => {
            let a = at.min(n - 1);
            let k = (1 + chz(5)).min(n - a);
            l.drain(a..a + k);
        }
        5 if n > 0 => {
            // copy a block elsewhere
            let a = at.min(n - 1);
            let k = (1 + chz(4)).min(n - a);
            let blk: Lines = l[a..a + k].to_vec();
            let to = chz(l.len() + 1);
            for (i, x) in blk.into_iter().enumerate() {
                l.insert(to + i, x);
            }
        }
        6 if n > 1 => {
            // move a line
            let x = l.remove(at.min(n - 1));
            let to = chz(l.len() + 1);
            l.insert(to, x);
        }
        _ => l.push(line(fl, st)),
    }
}
pub struct Pair {
    pub fl: Fl,
    pub st: Style,
    pub o: Vec<u8>,
    pub m: Vec<u8>,
}
pub fn pair() -> Pair {
    pair_upto(2500)
}
pub fn pair_upto(max: usize) -> Pair {
    let fl = flavour();
    let st = style();
    if coin(1, 64) {
        let n = match ch(256) {
            0..=219 => 600,
            220..=252 => 2500,
            _ => 70_000,
        };
        return big_pair(fl, n.min(max));
    }
    let lo = doc_lines(fl, st, 40);
    let mut lm = lo.clone();
    mutate(fl, st, &mut lm);
    let o = join(&lo, !coin(1, 4));
    let m = join(&lm, !coin(1, 4));
    note_doc(&o);
    note_doc(&m);
    Pair { fl, st, o, m }
}
fn note_doc(b: &[u8]) {
    if !b.is_empty() && *b.last().unwrap() != b'\n' {
        probe(C::p_no_newline);
    }
    if std::str::from_utf8(b).is_err() {
        probe(C::p_non_utf8);
    }
}
/// Up to `max` lines drawn from `alphabet` different ones.
pub fn bulk(r: &mut Sub, n: usize, alphabet: usize) -> Lines {
    (0..n).map(|_| format!("l{}", r.next(alphabet)).into_bytes()).collect()
}
/// A document of up to `max` lines from one choice, and an edited copy.
pub fn big_pair(fl: Fl, max: usize) -> Pair {
    probe(C::p_big_doc);
    if max > 65_536 {
        probe(C::p_giant_doc);
    }
    let mut r = Sub::new();
    let n = max - r.next(max / 16 + 1) - if coin(1, 2) { r.next(max / 2 + 1) } else { 0 };
    // more different lines than 16 bits can tell apart, in half of the giant texts
    let distinct = max > 65_536 && coin(1, 2);
    let alphabet = if distinct { 1 << 30 } else { [2, 4, 16, 100_000, 1 << 30][chz(5)] };
    let lo = bulk(&mut r, n, alphabet);
    let mut lm = lo.clone();
    match ch(8) {
        // mostly different texts
        0 if max <= 3000 => {
            let every = 1 + r.next(5);
            for (i, l) in lm.iter_mut().enumerate() {
                if i % (every + 1) != 0 {
                    *l = format!("r{}", r.next(alphabet)).into_bytes();
                }
            }
        }
        // a block at the start is rewritten
        2 | 3 if distinct => {
            probe(C::p_distinct_lines);
            let at = r.next(n.saturating_sub(60_000).max(1));
            let k = 1 + r.next(1500);
            for l in lm.iter_mut().skip(at).take(k) {
                l[0] = b'r';
            }
        }
        // one large block
        1 => {
            let at = r.next(n + 1);
            let k = 1 + r.next(max.min(1500));
            if coin(1, 2) {
                let b = bulk(&mut r, k, alphabet);
                lm.splice(at..at, b);
            } else {
                lm.drain(at..(at + k).min(n));
            }
        }
        m => {
            let edits = 1 + r.next(if m == 2 { 600 } else { 30 });
            for _ in 0..edits {
                let k = lm.len();
                if k == 0 {
                    break;
                }
                let at = r.next(k);
                match r.next(4) {
                    0 => {
                        lm.remove(at);
                    }
                    1 => lm.insert(at, format!("n{}", r.next(alphabet)).into_bytes()),
                    2 => lm[at] = format!("c{}", r.next(alphabet)).into_bytes(),
                    _ => {
                        let e = (at + r.next(20)).min(k);
                        lm.drain(at..e);
                    }
                }
            }
        }
    }
    let mut lo = lo;
    if coin(1, 4) {
        // a long line, new or old
        let k = 1 + r.next([300, 20_000, 100_000][chz(3)]);
        let l = vec![b'x'; k];
        match ch(3) {
            0 => lm.push(l),
            1 => lo.push(l),
            _ => {
                let mut y = l.clone();
                y.push(b'y');
                lo.insert(0, l);
                lm.insert(0, y);
            }
        }
    }
    Pair { fl, st: Style::Numbered, o: join(&lo, true), m: join(&lm, !coin(1, 4)) }
}

pub fn filename() -> String {
    if coin(1, 128) {
        // a very long one
        probe(C::p_long_name);
        let unit = pick(&["dir/", "x", "\u{2603}", "a b", "\"", "a\\", "\n", "x\ty"]);
        let n = pick(&[64, 300, 5000, 70_000]);
        return unit.repeat(n / unit.len() + 1);
    }
    match ch(8) {
        0 => "a/file.txt".into(),
        1 => "".into(),
        2 => pick(&["dir/my file", "h\u{e9}llo \u{2603}", " lead", "trail ", "a  b", "-", "+++ x", "@@ -1 +1 @@", "/dev/null"]).into(),
        3 => pick(&["tab\there", "new\nline", "nul\0x", "cr\rx", "quo\"te", "back\\slash", "\\n", "\"", "\\", "\n", "\t", "\"q\"", "a\\"]).into(),
        _ => {
            let mut s = String::new();
            for _ in 0..1 + chz(6) {
                s.push(match ch(12) {
                    0..=3 => (b'a' + ch(26) as u8) as char,
                    4 => '\n',
                    5 => '\t',
                    6 => '\0',
                    7 => '\r',
                    8 => '"',
                    9 => '\\',
                    10 => pick(&['n', 't', '0', 'r', ' ', '/']),
                    _ => char::from_u32(1 + ch(0x2fff) as u32).unwrap_or('\u{e9}'),
                });
            }
            s
        }
    }
}
pub fn context() -> Option<usize> {
    let c = match ch(10) {
        0..=2 => None,
        3 | 4 => Some(0),
        5 => Some(1),
        6 => Some(2),
        7 => Some(between(3, 12)),
        8 => Some(1000),
        _ => Some(pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 32])),
    };
    if c == Some(0) {
        probe(C::p_context_zero);
    }
    c
}
pub fn dopts() -> DOpts {
    let (mut orig, mut modi) = (None, None);
    if coin(1, 2) {
        let which = ch(6);
        orig = if which != 1 { Some(filename()) } else { None };
        modi = if which != 2 { Some(filename()) } else { None };
    }
    for n in [&orig, &modi].into_iter().flatten() {
        if n.bytes().any(|c| b"\n\t\0\r\"\\".contains(&c)) {
            probe(C::p_filename_escaped);
        }
    }
    DOpts { ctx: context(), orig, modi, route: ch(32) }
}
pub fn fopts() -> FOpts {
    FOpts { color: coin(1, 3), msg: !coin(1, 4), suppress: !coin(1, 3), route: ch(32) }
}
pub fn function_context(fl: Fl) -> Vec<u8> {
    match ch(5) {
        0 => b"fn main() {".to_vec(),
        1 => vec![],
        2 => pick(&["  indented", " ", "@@ x", "a @@ b", "\t", "x ", "h\u{e9}", "a\rb", "\r"]).as_bytes().to_vec(),
        _ => word(fl).into_iter().filter(|b| *b != b'\n').collect(),
    }
}

/// A patch to work with: freshly created, or as read from a decorated text.
#[derive(Clone)]
pub struct Made {
    pub p: P<'static>,
    pub view: View,
    pub fl: Fl,
    pub o: &'static [u8],
    pub m: &'static [u8],
    pub d: DOpts,
}
pub fn made() -> Made {
    made_upto(2500)
}
pub fn made_upto(max: usize) -> Made {
    let pr = pair_upto(max);
    let d = dopts();
    let (o, m) = (leak(pr.o), leak(pr.m));
    let p = api::create(pr.fl, &d, o, m);
    let view = api::view(&p);
    if view.hunks.is_empty() {
        probe(C::p_patch_empty);
    }
    if view.hunks.len() > 1 {
        probe(C::p_multi_hunk);
    }
    Made { p, view, fl: pr.fl, o, m, d }
}
/// Adds a hunk that changes nothing: without any lines, or with context lines of the old text `o` only.
pub fn idle(v: &mut View, o: &[u8]) {
    let l = split(o);
    let k = chz(v.hunks.len() + 1);
    // the next unused line of both sides
    let after = |r: (usize, usize)| r.0 + r.1.max(1);
    let (a, b) = if k == 0 { (1, 1) } else { (after(v.hunks[k - 1].old), after(v.hunks[k - 1].new)) };
    let end = match v.hunks.get(k) {
        Some(h) if h.old.1 == 0 => h.old.0 + 1,
        Some(h) => h.old.0,
        None => l.len() + 1,
    };
    if a > end {
        return;
    }
    probe(C::p_idle_hunk);
    let skip = chz(end - a + 1);
    let n = chz((end - a - skip).min(3) + 1);
    let (a, b) = (a + skip, b + skip);
    let lines = l[a - 1..a - 1 + n].iter().map(|x| (b' ', x.to_vec())).collect();
    let (old, new) = if n == 0 { ((a - 1, 0), (b - 1, 0)) } else { ((a, n), (b, n)) };
    v.hunks.insert(k, HView { old, new, fctx: None, lines });
}
pub fn decorate(v: &mut View, fl: Fl) {
    for h in v.hunks.iter_mut() {
        if coin(1, 2) {
            probe(C::p_function_context);
            h.fctx = Some(function_context(fl));
        }
    }
    if coin(1, 4) {
        // the same edits with insertions and deletions in another order, as other tools write them
        probe(C::p_foreign_order);
        for h in v.hunks.iter_mut() {
            let mut i = 0;
            while i < h.lines.len() {
                let k = h.lines[i..].iter().take_while(|l| l.0 != b' ').count();
                let block = h.lines[i..i + k].to_vec();
                let mut del = block.iter().filter(|l| l.0 == b'-').peekable();
                let mut ins = block.iter().filter(|l| l.0 == b'+').peekable();
                for x in h.lines[i..i + k].iter_mut() {
                    let d = ins.peek().is_none() || (del.peek().is_some() && coin(1, 2));
                    *x = if d { del.next().unwrap().clone() } else { ins.next().unwrap().clone() };
                }
                i += k + 1;
            }
        }
    }
    match ch(5) {
        1 => v.orig = None,
        2 => v.modi = None,
        3 => {
            v.orig = None;
            v.modi = None;
        }
        _ => return,
    }
    probe(C::p_missing_header);
}
/// A third of the patches come from parsing a text with function contexts or missing file names.
pub fn made_or_parsed() -> Made {
    let mut x = made();
    if coin(1, 3) {
        let mut v = x.view.clone();
        decorate(&mut v, x.fl);
        let t = leak(model::render(&v, &FOpts::DEFAULT));
        if let Ok(p) = api::parse(x.fl, t) {
            x.view = api::view(&p);
            x.p = p;
        }
    }
    if coin(1, 6) {
        probe(C::p_reverse);
        let p: &'static P<'static> = Box::leak(Box::new(x.p.clone()));
        x.p = api::reverse(p);
        x.view = api::view(&x.p);
        std::mem::swap(&mut x.o, &mut x.m);
    }
    x
}
