//! Reference models, written from the documented format and from the property statements, not from
//! the code: a renderer, a reader's account of a patch text, application, and a three-way merge.
use crate::api::{FOpts, HView, View};
use std::collections::BTreeSet;

pub const NO_NL: &[u8] = b"\\ No newline at end of file";

// ---------------------------------------------------------------- rendering

fn special(b: u8) -> Option<u8> {
    Some(match b {
        b'\n' => b'n',
        b'\t' => b't',
        0 => b'0',
        b'\r' => b'r',
        b'"' => b'"',
        b'\\' => b'\\',
        _ => return None,
    })
}
pub fn render_name(n: &[u8]) -> Vec<u8> {
    if !n.iter().any(|b| special(*b).is_some()) {
        return n.to_vec();
    }
    let mut v = vec![b'"'];
    for b in n {
        match special(*b) {
            Some(e) => v.extend_from_slice(&[b'\\', e]),
            None => v.push(*b),
        }
    }
    v.push(b'"');
    v
}
fn range(r: (usize, usize)) -> String {
    if r.1 == 1 {
        format!("{}", r.0)
    } else {
        format!("{},{}", r.0, r.1)
    }
}
/// Where the text of the last line of each hunk lies in the rendering.
pub struct Layout {
    pub bytes: Vec<u8>,
    /// per hunk: (start of the last line's text, end of that text including its newline)
    pub last: Vec<(usize, usize)>,
    /// per hunk: end of everything belonging to the hunk
    pub hunk_end: Vec<usize>,
    pub header_end: usize,
}
pub fn render_layout(p: &View, f: &FOpts) -> Layout {
    let mut v = vec![];
    if let Some(n) = &p.orig {
        v.extend_from_slice(b"--- ");
        v.extend(render_name(n));
        v.push(b'\n');
    }
    if let Some(n) = &p.modi {
        v.extend_from_slice(b"+++ ");
        v.extend(render_name(n));
        v.push(b'\n');
    }
    let header_end = v.len();
    let mut last = vec![];
    let mut hunk_end = vec![];
    for h in &p.hunks {
        v.extend(format!("@@ -{} +{} @@", range(h.old), range(h.new)).into_bytes());
        if let Some(c) = &h.fctx {
            v.push(b' ');
            v.extend_from_slice(c);
        }
        v.push(b'\n');
        let mut pos = (v.len(), v.len());
        for (k, t) in &h.lines {
            if !(f.suppress && *k == b' ' && t == b"\n") {
                v.push(*k);
            }
            let a = v.len();
            v.extend_from_slice(t);
            if t.last() != Some(&b'\n') {
                v.push(b'\n');
                pos = (a, v.len());
                if f.msg {
                    v.extend_from_slice(NO_NL);
                    v.push(b'\n');
                }
            } else {
                pos = (a, v.len());
            }
        }
        last.push(pos);
        hunk_end.push(v.len());
    }
    Layout { bytes: v, last, hunk_end, header_end }
}
pub fn render(p: &View, f: &FOpts) -> Vec<u8> {
    render_layout(p, f).bytes
}
/// Removes SGR escape sequences (the content must not contain ESC itself).
pub fn strip_color(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1;
            }
            if b.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}
pub fn has_esc(p: &View) -> bool {
    let f = |b: &[u8]| b.contains(&0x1b);
    p.orig.as_deref().map_or(false, f)
        || p.modi.as_deref().map_or(false, f)
        || p.hunks.iter().any(|h| h.fctx.as_deref().map_or(false, f) || h.lines.iter().any(|l| f(&l.1)))
}
pub fn reverse(p: &View) -> View {
    View {
        orig: p.modi.clone(),
        modi: p.orig.clone(),
        hunks: p
            .hunks
            .iter()
            .map(|h| HView {
                old: h.new,
                new: h.old,
                fctx: h.fctx.clone(),
                lines: h
                    .lines
                    .iter()
                    .map(|(k, t)| {
                        (
                            match k {
                                b'-' => b'+',
                                b'+' => b'-',
                                _ => b' ',
                            },
                            t.clone(),
                        )
                    })
                    .collect(),
            })
            .collect(),
    }
}

// ---------------------------------------------------------------- what a patch text states

fn number(b: &[u8]) -> Option<usize> {
    let b = b.strip_prefix(b"+").unwrap_or(b);
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: usize = 0;
    for c in b {
        v = v.checked_mul(10)?.checked_add((c - b'0') as usize)?;
    }
    Some(v)
}
fn read_range(b: &[u8]) -> Option<(usize, usize)> {
    match b.iter().position(|c| *c == b',') {
        Some(i) => Some((number(&b[..i])?, number(&b[i + 1..])?)),
        None => Some((number(b)?, 1)),
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn read_name(line: &[u8]) -> Option<Vec<u8>> {
    let end = line.iter().position(|c| *c == b'\t').or_else(|| line.iter().position(|c| *c == b'\n'))?;
    let t = &line[..end];
    if t.len() >= 2 && t[0] == b'"' && t[t.len() - 1] == b'"' {
        let mut v = vec![];
        let mut i = 1;
        while i < t.len() - 1 {
            if t[i] == b'\\' {
                i += 1;
                v.push(match t[..t.len() - 1].get(i)? {
                    b'n' => b'\n',
                    b't' => b'\t',
                    b'0' => 0,
                    b'r' => b'\r',
                    b'"' => b'"',
                    b'\\' => b'\\',
                    _ => return None,
                });
            } else if special(t[i]).is_some() {
                return None;
            } else {
                v.push(t[i]);
            }
            i += 1;
        }
        Some(v)
    } else if t.iter().any(|c| special(*c).is_some()) {
        None
    } else {
        Some(t.to_vec())
    }
}
/// Accounts for every line of `text` after its preamble by the accepted patch `v`.
pub fn explain(text: &[u8], v: &View) -> Result<(), String> {
    let lines: Vec<&[u8]> = text.split_inclusive(|c| *c == b'\n').collect();
    let starts = |l: &[u8], p: &str| l.starts_with(p.as_bytes());
    let mut i = 0;
    while i < lines.len() && !starts(lines[i], "--- ") && !starts(lines[i], "+++ ") && !starts(lines[i], "@@ ") {
        i += 1;
    }
    let (mut o, mut m) = (None, None);
    while i < lines.len() && (starts(lines[i], "--- ") || starts(lines[i], "+++ ")) {
        let n = read_name(&lines[i][4..]).ok_or_else(|| format!("line {} does not state a file name", i + 1))?;
        let slot = if starts(lines[i], "--- ") { &mut o } else { &mut m };
        if slot.is_some() {
            return Err(format!("line {}: second file name of its kind", i + 1));
        }
        *slot = Some(n);
        i += 1;
    }
    if o != v.orig || m != v.modi {
        return Err(format!("file names: text states {:?}/{:?}, patch has {:?}/{:?}", o, m, v.orig, v.modi));
    }
    let mut prev: Option<&HView> = None;
    for (n, h) in v.hunks.iter().enumerate() {
        let l = *lines.get(i).ok_or_else(|| format!("hunk {} is not in the text", n + 1))?;
        let rest = l.strip_prefix(b"@@ -").ok_or_else(|| format!("hunk {}: no header at line {}", n + 1, i + 1))?;
        let e = find(rest, b" @@").ok_or_else(|| format!("hunk {}: unterminated header", n + 1))?;
        let mid = find(&rest[..e], b" ").ok_or_else(|| format!("hunk {}: bad header", n + 1))?;
        let new = rest[mid + 1..e].strip_prefix(b"+").ok_or_else(|| format!("hunk {}: bad header", n + 1))?;
        if read_range(&rest[..mid]) != Some(h.old) || read_range(new) != Some(h.new) {
            return Err(format!("hunk {}: header line {} states other ranges than -{:?} +{:?}", n + 1, i + 1, h.old, h.new));
        }
        let tail = &rest[e + 3..];
        let tail = tail.strip_suffix(b"\n").unwrap_or(tail);
        let want = tail.strip_prefix(b" ");
        if want != h.fctx.as_deref() {
            return Err(format!("hunk {}: text states function context {:?}, patch has {:?}", n + 1, want, h.fctx));
        }
        i += 1;
        for (j, (k, t)) in h.lines.iter().enumerate() {
            let l = *lines.get(i).ok_or_else(|| format!("hunk {} line {} is not in the text", n + 1, j + 1))?;
            let (tk, tt): (u8, &[u8]) = match l[0] {
                b'\n' => (b' ', l),
                b' ' | b'-' | b'+' => (l[0], &l[1..]),
                _ => return Err(format!("text line {} is no hunk line", i + 1)),
            };
            i += 1;
            let mut tt = tt;
            if lines.get(i).map_or(false, |x| x.starts_with(NO_NL)) {
                tt = tt.strip_suffix(b"\n").ok_or("marker after an unterminated line")?;
                i += 1;
            }
            if tk != *k || tt != t.as_slice() {
                return Err(format!("hunk {} line {} differs from the text", n + 1, j + 1));
            }
        }
        let a = h.lines.iter().filter(|l| l.0 != b'+').count();
        let b = h.lines.iter().filter(|l| l.0 != b'-').count();
        if a != h.old.1 || b != h.new.1 {
            return Err(format!("hunk {} has {}/{} lines, its header states {}/{}", n + 1, a, b, h.old.1, h.new.1));
        }
        if let Some(p) = prev {
            if p.old.0 as u128 + p.old.1 as u128 > h.old.0 as u128 || p.new.0 as u128 + p.new.1 as u128 > h.new.0 as u128 {
                return Err(format!("hunks {} and {} overlap or are out of order", n, n + 1));
            }
        }
        prev = Some(h);
    }
    if i != lines.len() {
        return Err(format!("text lines from {} on are not accounted for", i + 1));
    }
    Ok(())
}

// ---------------------------------------------------------------- application

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Doc(Vec<u8>),
    Fail(usize),
}
#[derive(Default, Clone, Copy, Debug)]
pub struct ApplyInfo {
    pub offset: bool,
    pub tie: bool,
    pub avoided: bool,
}
/// Every outcome permitted for applying `p` to `doc`; None when there are too many ties to follow.
pub fn apply(p: &View, doc: &[u8]) -> Option<(Vec<Out>, ApplyInfo)> {
    type Img<'a> = Vec<(&'a [u8], bool)>;
    let mut info = ApplyInfo::default();
    let mut states: Vec<Img> = vec![doc.split_inclusive(|c| *c == b'\n').map(|l| (l, false)).collect()];
    let mut outs = vec![];
    for (n, h) in p.hunks.iter().enumerate() {
        let pre: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1.as_slice()).collect();
        let post: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'-').map(|l| l.1.as_slice()).collect();
        let want: i128 = if h.new.1 == 0 { h.new.0 as i128 } else { h.new.0 as i128 - 1 };
        let mut next: Vec<Img> = vec![];
        for img in &states {
            let want = want.clamp(0, img.len() as i128);
            let mut best = i128::MAX;
            let mut at = vec![];
            for q in 0..=img.len() {
                if q + pre.len() > img.len() {
                    break;
                }
                let w = &img[q..q + pre.len()];
                if !w.iter().map(|x| x.0).eq(pre.iter().copied()) {
                    continue;
                }
                if w.iter().any(|x| x.1) {
                    info.avoided = true;
                    continue;
                }
                let d = (q as i128 - want).abs();
                if d < best {
                    best = d;
                    at.clear();
                }
                if d == best {
                    at.push(q);
                }
            }
            if at.is_empty() {
                if !outs.contains(&Out::Fail(n + 1)) {
                    outs.push(Out::Fail(n + 1));
                }
                continue;
            }
            info.offset |= best > 0;
            info.tie |= at.len() > 1;
            for q in at {
                let mut x = img[..q].to_vec();
                x.extend(post.iter().map(|l| (*l, true)));
                x.extend_from_slice(&img[q + pre.len()..]);
                if !next.contains(&x) {
                    next.push(x);
                }
            }
        }
        if next.len() > 64 {
            return None;
        }
        states = next;
        if states.is_empty() {
            break;
        }
    }
    for s in states {
        let d: Vec<u8> = s.iter().flat_map(|x| x.0.iter().copied()).collect();
        if !outs.contains(&Out::Doc(d.clone())) {
            outs.push(Out::Doc(d));
        }
    }
    Some((outs, info))
}

// ---------------------------------------------------------------- three-way merge

pub enum Chunk<'a> {
    /// The same on both sides, or changed on one side only.
    Clear(Vec<&'a [u8]>),
    Conflict { base: Vec<&'a [u8]>, ours: Vec<&'a [u8]>, theirs: Vec<&'a [u8]> },
}
fn unique(v: &[&[u8]]) -> bool {
    let mut s = v.to_vec();
    s.sort_unstable();
    s.windows(2).all(|w| w[0] != w[1])
}
fn same_order(a: &[&[u8]], b: &[&[u8]]) -> bool {
    let (sa, sb): (BTreeSet<&[u8]>, BTreeSet<&[u8]>) = (a.iter().copied().collect(), b.iter().copied().collect());
    a.iter().filter(|l| sb.contains(*l)).eq(b.iter().filter(|l| sa.contains(*l)))
}
/// diff3 of documents in which every line occurs once and common lines keep their order; None for others.
pub fn chunks<'a>(base: &'a [u8], ours: &'a [u8], theirs: &'a [u8]) -> Option<Vec<Chunk<'a>>> {
    let (a, o, t) = (crate::gen::split(base), crate::gen::split(ours), crate::gen::split(theirs));
    if ![&a, &o, &t].iter().all(|v| unique(v)) || !same_order(&a, &o) || !same_order(&a, &t) || !same_order(&o, &t) {
        return None;
    }
    let (so, st): (BTreeSet<&[u8]>, BTreeSet<&[u8]>) = (o.iter().copied().collect(), t.iter().copied().collect());
    let mut cuts: Vec<Option<&[u8]>> = a.iter().copied().filter(|l| so.contains(l) && st.contains(l)).map(Some).collect();
    cuts.push(None);
    let mut out = vec![];
    let (mut i, mut j, mut k) = (0, 0, 0);
    for c in cuts {
        let end = |v: &[&[u8]], from: usize| match c {
            Some(l) => from + v[from..].iter().position(|x| *x == l).expect("stable line order"),
            None => v.len(),
        };
        let (ie, je, ke) = (end(&a, i), end(&o, j), end(&t, k));
        let (ca, co, ct) = (&a[i..ie], &o[j..je], &t[k..ke]);
        if co == ct || ca == ct {
            out.push(Chunk::Clear(co.to_vec()));
        } else if ca == co {
            out.push(Chunk::Clear(ct.to_vec()));
        } else {
            out.push(Chunk::Conflict { base: ca.to_vec(), ours: co.to_vec(), theirs: ct.to_vec() });
        }
        if let Some(l) = c {
            out.push(Chunk::Clear(vec![l]));
        }
        i = ie + 1;
        j = je + 1;
        k = ke + 1;
    }
    Some(out)
}
/// The merge output; markers always stand on a line of their own.
pub fn merged(c: &[Chunk], marker: usize, diff3_style: bool) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for c in c {
        match c {
            Chunk::Clear(l) => out.extend(l.concat()),
            Chunk::Conflict { base, ours, theirs } => {
                marker_line(&mut out, b'<', marker, " ours");
                out.extend(ours.concat());
                if diff3_style {
                    marker_line(&mut out, b'|', marker, " original");
                    out.extend(base.concat());
                }
                marker_line(&mut out, b'=', marker, "");
                out.extend(theirs.concat());
                marker_line(&mut out, b'>', marker, " theirs");
            }
        }
    }
    out
}
fn marker_line(out: &mut Vec<u8>, c: u8, n: usize, label: &str) {
    if !out.is_empty() && out.last() != Some(&b'\n') {
        out.push(b'\n');
    }
    out.extend(std::iter::repeat(c).take(n));
    out.extend_from_slice(label.as_bytes());
    out.push(b'\n');
}

// ---------------------------------------------------------------- a plain differ (for inputs only)

pub fn diff(a: &[u8], b: &[u8], ctx: usize) -> View {
    let (x, y) = (crate::gen::split(a), crate::gen::split(b));
    let (n, m) = (x.len(), y.len());
    let mut t = vec![vec![0u32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if x[i] == y[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    // (kind, line, old index, new index)
    let mut e: Vec<(u8, &[u8], usize, usize)> = vec![];
    let (mut i, mut j) = (0, 0);
    while i < n || j < m {
        if i < n && j < m && x[i] == y[j] {
            e.push((b' ', x[i], i, j));
            i += 1;
            j += 1;
        } else if i < n && (j == m || t[i + 1][j] >= t[i][j + 1]) {
            e.push((b'-', x[i], i, j));
            i += 1;
        } else {
            e.push((b'+', y[j], i, j));
            j += 1;
        }
    }
    let mut hunks: Vec<HView> = vec![];
    let mut k = 0;
    while k < e.len() {
        if e[k].0 == b' ' {
            k += 1;
            continue;
        }
        let s = k.saturating_sub(ctx);
        let mut last = k;
        let mut q = k + 1;
        while q < e.len() && q - last <= 2 * ctx + 1 {
            if e[q].0 != b' ' {
                last = q;
            }
            q += 1;
        }
        let end = (last + 1 + ctx).min(e.len());
        let part = &e[s..end];
        let ol = part.iter().filter(|l| l.0 != b'+').count();
        let nl = part.iter().filter(|l| l.0 != b'-').count();
        hunks.push(HView {
            old: (part[0].2 + (ol > 0) as usize, ol),
            new: (part[0].3 + (nl > 0) as usize, nl),
            fctx: None,
            lines: part.iter().map(|l| (l.0, l.1.to_vec())).collect(),
        });
        k = end;
    }
    View { orig: None, modi: None, hunks }
}
