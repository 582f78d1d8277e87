//! C05: a stored patch is damaged by its storage or by careless tools, then read, re-rendered,
//! reversed and applied.
use crate::api::{self, leak, Fl, FOpts, View, P};
use crate::gen::{self, Made};
use crate::model;
use crate::rt::{self, between, ch, chz, coin, ev, ev_bytes, fault, note, pick, probe};
use crate::stats::C;

pub fn c05() {
    rt::phase(world);
}

const NUMBERS: &[&str] = &[
    "0", "1", "2", "18446744073709551615", "18446744073709551614", "18446744073709551616", "9223372036854775807", "9223372036854775808",
    "4294967296", "1000000", "99999999999999999999999", "007", "+5", "-1", "", "1,0",
];

fn lines_of(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect()
}
fn at(n: usize) -> usize {
    chz(n)
}
/// One act of damage.
pub fn damage(b: &mut Vec<u8>, text: bool) {
    let n = b.len();
    if n == 0 {
        fault(C::f_byte_damage);
        b.extend_from_slice(pick(&["@@ -1 +1 @@\n", "--- x\n", "\n", "x", "@@ "]).as_bytes());
        return;
    }
    let block = |n: usize| {
        let a = chz(n);
        let k = match ch(3) {
            0 => 1,
            1 => 1 + chz(8),
            _ => 1 + chz(64),
        };
        (a, (a + k).min(n))
    };
    match ch(18) {
        16 => mangle(b, text),
        0 => {
            fault(C::f_bit_flip);
            let i = at(n);
            // keep texts readable as texts most of the time
            let bit = if text { ch(7) } else { ch(8) };
            b[i] ^= 1 << bit;
        }
        1 => {
            fault(C::f_byte_damage);
            let i = at(n);
            b[i] = if coin(1, 2) { pick(b"\n@-+ \\\"\t,0123456789\r\0 ") } else { ch(if text { 128 } else { 256 }) as u8 };
        }
        2 => {
            fault(C::f_block_lost);
            let (a, e) = block(n);
            b.drain(a..e);
        }
        3 => {
            fault(C::f_block_zeroed);
            let (a, e) = block(n);
            b[a..e].fill(0);
        }
        4 => {
            fault(C::f_block_dup);
            let (a, e) = block(n);
            let x = b[a..e].to_vec();
            let to = if coin(1, 2) { e } else { at(n) };
            b.splice(to..to, x);
        }
        5 => {
            fault(C::f_block_swap);
            let (a, e) = block(n);
            let x: Vec<u8> = b.drain(a..e).collect();
            let to = chz(b.len() + 1);
            b.splice(to..to, x);
        }
        6 => {
            fault(C::f_truncate);
            b.truncate(at(n));
        }
        7 | 8 => {
            let mut l = lines_of(b);
            let i = at(l.len());
            match ch(4) {
                0 => {
                    fault(C::f_line_lost);
                    l.remove(i);
                }
                1 => {
                    fault(C::f_line_dup);
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                2 => {
                    fault(C::f_line_swap);
                    let j = at(l.len());
                    l.swap(i, j);
                }
                _ => {
                    fault(C::f_line_dup);
                    let x = l[i].clone();
                    let j = chz(l.len() + 1);
                    l.insert(j, x);
                }
            }
            *b = l.concat();
        }
        9 | 10 => {
            // a number in a header is replaced
            let l = lines_of(b);
            let hs: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with(b"@@ ")).collect();
            if hs.is_empty() {
                return;
            }
            let i = pick(&hs);
            let h = &l[i];
            let mut spans = vec![];
            let mut j = 0;
            while j < h.len() {
                if h[j].is_ascii_digit() {
                    let s = j;
                    while j < h.len() && h[j].is_ascii_digit() {
                        j += 1;
                    }
                    spans.push((s, j));
                } else {
                    j += 1;
                }
            }
            if spans.is_empty() {
                return;
            }
            let (s, e) = pick(&spans);
            let r = if coin(1, 2) {
                fault(C::f_huge_number);
                pick(NUMBERS).to_string()
            } else {
                fault(C::f_digit_damage);
                format!("{}", ch(60))
            };
            let mut nh = h[..s].to_vec();
            nh.extend(r.into_bytes());
            nh.extend_from_slice(&h[e..]);
            let mut l = l;
            l[i] = nh;
            *b = l.concat();
        }
        11 => {
            fault(C::f_concat);
            let mut x = if coin(1, 2) { b.clone() } else { model::render(&gen::made().view, &FOpts::DEFAULT) };
            if text && !api::is_utf8(&x) {
                x = b.clone();
            }
            if coin(1, 2) {
                b.extend(x);
            } else {
                x.extend_from_slice(b);
                *b = x;
            }
        }
        12 => {
            fault(C::f_unicode_damage);
            let s = pick(&["\u{e9}", "\u{2603}", "\u{1f600}", "\u{feff}", "\u{2028}"]);
            let mut i = at(n + 1);
            while text && i < n && (b[i] & 0xc0) == 0x80 {
                i += 1;
            }
            b.splice(i..i, s.bytes());
        }
        13 => {
            // lines of diff tools
            fault(C::f_concat);
            let mut l = lines_of(b);
            let i = if coin(1, 2) { 0 } else { chz(l.len() + 1) };
            let x = pick(&[
                "diff --git a/x b/x\n", "index 123..456 100644\n", "Index: x\n", "\\ No newline at end of file\n", "@@ -0,0 +0,0 @@\n", "--- \"x\\ty\"\n",
                "+++ x\t2020-01-01\n", "--- \"\\q\"\n", "@@ -1 +1 @@ x @@ y\n", "@\n", "@@\n", "\n", "From: x\n", "--- \n", "+++ \"a\n", "\\\n",
                "@@ -1,0 +1,0 @@\n", "@@ -18446744073709551615,0 +18446744073709551615,0 @@\n", "--- \"\n", "--- \"\"\n", "\\ No newline at end of file",
                "@@ -+1 ++1 @@\n-a\n+b\n", "--- a\rb\n", "+++ \"a\\\"\n",
            ]);
            l.insert(i, x.as_bytes().to_vec());
            *b = l.concat();
        }
        _ => {
            // consistent damage: a hunk line lost, added or altered, and the counts adjusted by a tool
            let l = lines_of(b);
            if let Some(v) = rehunk(&l) {
                fault(C::f_line_lost);
                *b = v;
            }
        }
    }
}
/// What mail programs, editors and checkouts do to a whole file, or to a part of it.
fn mangle(b: &mut Vec<u8>, text: bool) {
    fault(C::f_mangled);
    let l = lines_of(b);
    let (from, to) = if coin(1, 2) { (0, l.len()) } else { let a = chz(l.len()); (a, a + 1 + chz(l.len() - a)) };
    let how = ch(10);
    let mut out = vec![];
    for (i, x) in l.iter().enumerate() {
        if i < from || i >= to {
            out.extend_from_slice(x);
            continue;
        }
        let (body, nl): (&[u8], &[u8]) = match x.strip_suffix(b"\n") {
            Some(y) => (y, b"\n"),
            None => (x, b""),
        };
        let trimmed = |y: &[u8]| -> Vec<u8> {
            let n = y.iter().rposition(|c| !b" \t\r".contains(c)).map_or(0, |k| k + 1);
            y[..n].to_vec()
        };
        let y: Vec<u8> = match how {
            0 => [body, if nl.is_empty() { b"" } else { b"\r" }].concat(),
            1 => body.strip_suffix(b"\r").unwrap_or(body).to_vec(),
            2 => trimmed(body),
            3 => body.iter().flat_map(|c| if *c == b'\t' { b"    ".to_vec() } else { vec![*c] }).collect(),
            4 => [b"> ".as_slice(), body].concat(),
            5 => [b" ".as_slice(), body].concat(),
            6 => {
                let k = body.iter().position(|c| !b" \t".contains(c)).unwrap_or(body.len());
                body[k..].to_vec()
            }
            7 => {
                // hard wrapped
                let mut k = 8 + chz(72);
                while text && k < body.len() && (body[k] & 0xc0) == 0x80 {
                    k += 1;
                }
                if k < body.len() { [&body[..k], b"\n", &body[k..]].concat() } else { body.to_vec() }
            }
            8 => body.iter().map(|c| if *c == 0 { b' ' } else { *c }).collect(),
            _ => body.to_vec(),
        };
        out.extend_from_slice(&y);
        // the other way to end a line, or none
        out.extend_from_slice(if how == 9 && !nl.is_empty() { b"\r" } else { nl });
    }
    if coin(1, 8) {
        let mark = b"\xef\xbb\xbf".to_vec();
        out.splice(0..0, mark);
    }
    *b = out;
}
/// Edits the body of one hunk and recounts its header.
fn rehunk(l: &[Vec<u8>]) -> Option<Vec<u8>> {
    let hs: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with(b"@@ ")).collect();
    if hs.is_empty() {
        return None;
    }
    let k = chz(hs.len());
    let (s, e) = (hs[k], hs.get(k + 1).copied().unwrap_or(l.len()));
    let mut body: Vec<Vec<u8>> = l[s + 1..e].to_vec();
    for _ in 0..1 + chz(3) {
        let n = body.len();
        match ch(5) {
            0 if n > 0 => {
                body.remove(at(n));
            }
            1 => {
                let i = chz(n + 1);
                body.insert(i, pick(&["+x\n", "-x\n", " x\n", "\n", " \n", "+\n", "-\n", "\\ No newline at end of file\n", "\\ No newline at end of file garbage\n", "+--- y\n"]).as_bytes().to_vec());
            }
            2 if n > 0 => {
                let i = at(n);
                body[i][0] = pick(b" -+");
                if body[i].len() == 1 {
                    body[i].push(b'\n');
                }
            }
            3 if n > 1 => {
                let (i, j) = (at(n), at(n));
                body.swap(i, j);
            }
            _ => body.clear(),
        }
    }
    let a = body.iter().filter(|x| matches!(x[0], b' ' | b'-' | b'\n')).count();
    let b = body.iter().filter(|x| matches!(x[0], b' ' | b'+' | b'\n')).count();
    let (x, y) = if coin(1, 3) { (ch(50), ch(50)) } else { (between(1, 400) as u64 + 100 * k as u64, between(1, 400) as u64 + 100 * k as u64) };
    let mut out: Vec<u8> = l[..s].concat();
    out.extend(format!("@@ -{},{} +{},{} @@{}\n", x, a, y, b, pick(&["", " f", " ", "x", " @@"])).into_bytes());
    out.extend(body.concat());
    out.extend(l[e..].concat());
    Some(out)
}
pub fn base_text() -> (Made, Vec<u8>) {
    let x = gen::made();
    let mut v = x.view.clone();
    if coin(1, 3) {
        gen::decorate(&mut v, x.fl);
    }
    let b = model::render(&v, &FOpts { suppress: !coin(1, 4), ..FOpts::DEFAULT });
    (x, b)
}
fn world() {
    let (x, mut b) = base_text();
    let text = x.fl == Fl::S;
    for _ in 0..between(0, 4) {
        damage(&mut b, text);
        if b.len() > 60000 {
            break;
        }
    }
    let b = leak(b);
    note(|| format!("damaged patch {}", rt::esc(b)));
    ev_bytes(60, b);
    let pb = api::parse(Fl::B, b);
    let utf8 = api::is_utf8(b);
    let ps = if utf8 { Some(api::parse(Fl::S, b)) } else { None };
    if let Some(ps) = &ps {
        match (&pb, ps) {
            (Ok(p), Ok(q)) => {
                let (v, w) = (api::view(p), api::view(q));
                if v != w {
                    rt::violate("parsers-differ", format!("{}: bytes see {:?}, text sees {:?}", rt::esc(b), v, w));
                }
            }
            (Err(_), Err(_)) => {}
            (a, c) => rt::violate(
                "parsers-differ",
                format!("{}: byte parser: {:?}, text parser: {:?}", rt::esc(b), a.as_ref().map(|_| "accepted"), c.as_ref().map(|_| "accepted")),
            ),
        }
    }
    ev(61, pb.is_ok() as u64);
    let docs: Vec<Vec<u8>> = {
        let mut l: Vec<Vec<u8>> = gen::split(x.o).iter().map(|l| l.strip_suffix(b"\n").unwrap_or(l).to_vec()).collect();
        gen::mutate(x.fl, gen::style(), &mut l);
        vec![x.o.to_vec(), x.m.to_vec(), gen::join(&l, true), vec![]]
    };
    for (p, fl) in [(pb, Fl::B), (ps.unwrap_or(Err(String::new())), Fl::S)] {
        let p = match p {
            Ok(p) => p,
            Err(_) => {
                probe(C::p_damage_rejected);
                continue;
            }
        };
        probe(C::p_damage_accepted);
        judge(b, p, fl, &docs);
    }
}
fn judge(b: &'static [u8], p: P<'static>, fl: Fl, docs: &[Vec<u8>]) {
    let v: View = api::view(&p);
    if let Err(e) = model::explain(b, &v) {
        rt::violate("misrepresented", format!("{} accepted as {:?}: {}", rt::esc(b), v, e));
    }
    let p: &'static P<'static> = Box::leak(Box::new(p));
    let t = leak(api::to_bytes(p));
    if let Some(s) = api::to_text(p) {
        rt::check_ok(s == t, "text-and-bytes", || format!("to_string {} but to_bytes {}", rt::esc(&s), rt::esc(t)));
    }
    reread(t, &v, p, fl, "re-rendered");
    let r = api::reverse(p);
    let rv = api::view(&r);
    if rv != model::reverse(&v) {
        rt::violate("reverse", format!("the reverse of {:?} is {:?}", v, rv));
    }
    let rt_ = leak(api::to_bytes(&r));
    reread(rt_, &rv, &r, fl, "reversed and rendered");
    for d in docs {
        for q in [p, &r] {
            if fl == Fl::S && !api::is_utf8(d) {
                continue;
            }
            match api::apply(q, d) {
                Ok(x) => {
                    probe(C::p_damage_applied);
                    ev_bytes(62, &x);
                }
                Err(n) => ev(63, n as u64),
            }
        }
    }
}
fn reread(t: &'static [u8], v: &View, p: &P<'static>, fl: Fl, what: &str) {
    match api::parse(fl, t) {
        Err(e) => rt::violate("rerender", format!("{:?} {} as {} is rejected: {}", v, what, rt::esc(t), e)),
        Ok(q) => {
            let w = api::view(&q);
            if w != *v || !api::eq(&q, p) {
                rt::violate("rerender", format!("{:?} {} as {} reads back as {:?}", v, what, rt::esc(t), w));
            }
        }
    }
}
/// Damage to texts made without the help of diffy (see isolate.rs).
pub fn damage_text(b: &mut Vec<u8>) {
    let n = b.len();
    if n == 0 {
        return;
    }
    fault(C::f_byte_damage);
    match ch(3) {
        0 => {
            let i = at(n);
            b[i] = pick(b"\n@-+ \\\"\t,0123456789");
        }
        1 => b.truncate(at(n)),
        _ => {
            let mut l = lines_of(b);
            let i = at(l.len());
            l.remove(i);
            *b = l.concat();
        }
    }
}
