//! Reference models and independent checkers. Nothing here is derived from the library's code:
//! they are the unified-diff format, edit distance, patch application and three-way merge as a
//! user would define them.
use diffy::{Line, Patch};
use std::collections::{HashMap, HashSet};

pub fn lines(t: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    for (i, &b) in t.iter().enumerate() {
        if b == b'\n' {
            v.push(&t[s..=i]);
            s = i + 1;
        }
    }
    if s < t.len() {
        v.push(&t[s..]);
    }
    v
}

pub fn show(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 400 {
        s.push_str(&format!("...[{} bytes]", b.len()));
    }
    s
}

// ------------------------------------------------------------------ views
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HV {
    pub os: usize,
    pub ol: usize,
    pub ns: usize,
    pub nl: usize,
    pub fc: Option<Vec<u8>>,
    pub lines: Vec<(u8, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PV {
    pub orig: Option<Vec<u8>>,
    pub modi: Option<Vec<u8>>,
    pub hunks: Vec<HV>,
}

pub fn view<T: AsRef<[u8]> + ToOwned + ?Sized>(p: &Patch<'_, T>) -> PV {
    PV {
        orig: p.original().map(|o| o.as_ref().to_vec()),
        modi: p.modified().map(|o| o.as_ref().to_vec()),
        hunks: p
            .hunks()
            .iter()
            .map(|h| HV {
                os: h.old_range().start(),
                ol: h.old_range().len(),
                ns: h.new_range().start(),
                nl: h.new_range().len(),
                fc: h.function_context().map(|c| c.as_ref().to_vec()),
                lines: h
                    .lines()
                    .iter()
                    .map(|l| match l {
                        Line::Context(x) => (b' ', x.as_ref().to_vec()),
                        Line::Delete(x) => (b'-', x.as_ref().to_vec()),
                        Line::Insert(x) => (b'+', x.as_ref().to_vec()),
                    })
                    .collect(),
            })
            .collect(),
    }
}

impl HV {
    pub fn pre(&self) -> impl Iterator<Item = &Vec<u8>> {
        self.lines.iter().filter(|l| l.0 != b'+').map(|l| &l.1)
    }
    pub fn post(&self) -> impl Iterator<Item = &Vec<u8>> {
        self.lines.iter().filter(|l| l.0 != b'-').map(|l| &l.1)
    }
}

pub fn reversed(p: &PV) -> PV {
    PV {
        orig: p.modi.clone(),
        modi: p.orig.clone(),
        hunks: p
            .hunks
            .iter()
            .map(|h| HV {
                os: h.ns,
                ol: h.nl,
                ns: h.os,
                nl: h.ol,
                fc: h.fc.clone(),
                lines: h
                    .lines
                    .iter()
                    .map(|(k, l)| {
                        (
                            match k {
                                b'-' => b'+',
                                b'+' => b'-',
                                k => *k,
                            },
                            l.clone(),
                        )
                    })
                    .collect(),
            })
            .collect(),
    }
}

/// Is `p` a truthful description of the difference between `old` and `new`?
pub fn truthful(p: &PV, old: &[u8], new: &[u8]) -> Result<(), String> {
    let (o, n) = (lines(old), lines(new));
    if old == new && !p.hunks.is_empty() {
        return Err("equal texts but the patch has hunks".into());
    }
    let (mut po, mut pn) = (0usize, 0usize);
    for (hi, h) in p.hunks.iter().enumerate() {
        let e = |m: String| format!("hunk #{}: {m} (old {},{} new {},{})", hi + 1, h.os, h.ol, h.ns, h.nl);
        let so = if h.ol > 0 {
            h.os.checked_sub(1).ok_or_else(|| e("old range starts at line 0 but is not empty".into()))?
        } else {
            h.os
        };
        let sn = if h.nl > 0 {
            h.ns.checked_sub(1).ok_or_else(|| e("new range starts at line 0 but is not empty".into()))?
        } else {
            h.ns
        };
        if so < po || sn < pn {
            return Err(e("overlaps the previous hunk or is out of order".into()));
        }
        if so - po != sn - pn || so > o.len() || sn > n.len() || o[po..so] != n[pn..sn] {
            return Err(e("text between hunks differs or the line numbers are wrong".into()));
        }
        let (mut i, mut j) = (so, sn);
        let mut changes = 0;
        for (k, l) in &h.lines {
            if *k != b'+' {
                if o.get(i) != Some(&&l[..]) {
                    return Err(e(format!("line {:?} is not line {} of the original", show(l), i + 1)));
                }
                i += 1;
            }
            if *k != b'-' {
                if n.get(j) != Some(&&l[..]) {
                    return Err(e(format!("line {:?} is not line {} of the modified text", show(l), j + 1)));
                }
                j += 1;
            }
            if *k != b' ' {
                changes += 1;
            }
        }
        if i - so != h.ol || j - sn != h.nl {
            return Err(e("stated lengths differ from the number of lines".into()));
        }
        if changes == 0 {
            return Err(e("no change in hunk".into()));
        }
        po = i;
        pn = j;
    }
    if o[po..] != n[pn..] {
        return Err("texts differ after the last hunk".into());
    }
    Ok(())
}

pub fn edits(p: &PV) -> usize {
    p.hunks.iter().map(|h| h.lines.iter().filter(|l| l.0 != b' ').count()).sum()
}

// ------------------------------------------------------------------ edit distance
pub fn intern<'a>(texts: &[Vec<&'a [u8]>]) -> Vec<Vec<u32>> {
    let mut m: HashMap<&'a [u8], u32> = HashMap::new();
    texts
        .iter()
        .map(|t| {
            t.iter()
                .map(|l| {
                    let k = m.len() as u32;
                    *m.entry(l).or_insert(k)
                })
                .collect()
        })
        .collect()
}

/// Length of the shortest edit script (insertions plus deletions).
pub fn distance(old: &[u8], new: &[u8]) -> usize {
    let v = intern(&[lines(old), lines(new)]);
    let (mut a, mut b) = (&v[0][..], &v[1][..]);
    while let (Some(x), Some(y)) = (a.first(), b.first()) {
        if x != y {
            break;
        }
        a = &a[1..];
        b = &b[1..];
    }
    while let (Some(x), Some(y)) = (a.last(), b.last()) {
        if x != y {
            break;
        }
        a = &a[..a.len() - 1];
        b = &b[..b.len() - 1];
    }
    if a.len() * b.len() <= 4096 {
        dist_dp(a, b)
    } else {
        dist_greedy(a, b)
    }
}

pub fn dist_dp(a: &[u32], b: &[u32]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for (i, x) in a.iter().enumerate() {
        let mut diag = row[0];
        row[0] = i + 1;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag } else { 1 + up.min(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

pub fn dist_greedy(a: &[u32], b: &[u32]) -> usize {
    let (n, m) = (a.len() as isize, b.len() as isize);
    let off = (n + m + 2) as usize;
    let mut v = vec![0isize; 2 * off + 1];
    for d in 0..=(n + m) {
        let mut k = -d;
        while k <= d {
            let at = |k: isize| (off as isize + k) as usize;
            let mut x = if k == -d || (k != d && v[at(k - 1)] < v[at(k + 1)]) { v[at(k + 1)] } else { v[at(k - 1)] + 1 };
            while x < n && x - k < m && x - k >= 0 && a[x as usize] == b[(x - k) as usize] {
                x += 1;
            }
            v[at(k)] = x;
            if x >= n && x - k >= m {
                return d as usize;
            }
            k += 2;
        }
    }
    unreachable!()
}

// ------------------------------------------------------------------ rendering
const SPECIAL: &[u8] = b"\n\t\0\r\"\\";

pub fn quote_name(n: &[u8]) -> Vec<u8> {
    if !n.iter().any(|c| SPECIAL.contains(c)) {
        return n.to_vec();
    }
    let mut v = vec![b'"'];
    for &c in n {
        match c {
            b'\n' => v.extend(b"\\n"),
            b'\t' => v.extend(b"\\t"),
            b'\0' => v.extend(b"\\000"),
            b'\r' => v.extend(b"\\r"),
            b'"' => v.extend(b"\\\""),
            b'\\' => v.extend(b"\\\\"),
            c => v.push(c),
        }
    }
    v.push(b'"');
    v
}

/// As git and GNU diff write a name that has something special in it: everything outside of
/// printable ASCII as an escape, by letter or as three octal digits.
pub fn quote_name_c(n: &[u8], letters: bool) -> Vec<u8> {
    let mut v = vec![b'"'];
    for &c in n {
        let at = b"\x07\x08\t\n\x0b\x0c\r\"\\".iter().position(|x| *x == c);
        match at {
            Some(i) if letters || i > 6 => v.extend([b'\\', b"abtnvfr\"\\"[i]]),
            _ if (32..127).contains(&c) => v.push(c),
            _ => v.extend(format!("\\{c:03o}").bytes()),
        }
    }
    v.push(b'"');
    v
}

/// The unified format of a patch. `suppress`: no space before empty context lines.
pub fn render(p: &PV, marker: bool, suppress: bool) -> Vec<u8> {
    let mut v = Vec::new();
    if let Some(o) = &p.orig {
        v.extend(b"--- ");
        v.extend(quote_name(o));
        v.push(b'\n');
    }
    if let Some(o) = &p.modi {
        v.extend(b"+++ ");
        v.extend(quote_name(o));
        v.push(b'\n');
    }
    for h in &p.hunks {
        let r = |s: usize, l: usize| if l == 1 { format!("{s}") } else { format!("{s},{l}") };
        v.extend(format!("@@ -{} +{} @@", r(h.os, h.ol), r(h.ns, h.nl)).bytes());
        if let Some(c) = &h.fc {
            v.push(b' ');
            v.extend(c);
        }
        v.push(b'\n');
        for (k, l) in &h.lines {
            if !(suppress && *k == b' ' && l == b"\n") {
                v.push(*k);
            }
            v.extend(l);
            if l.last() != Some(&b'\n') {
                v.push(b'\n');
                if marker {
                    v.extend(b"\\ No newline at end of file\n");
                }
            }
        }
    }
    v
}

/// Remove SGR escape sequences; also reports whether any style is still active at the end.
pub fn strip_sgr(t: &[u8]) -> (Vec<u8>, bool, usize) {
    let mut v = Vec::new();
    let mut i = 0;
    let mut active = false;
    let mut n = 0;
    while i < t.len() {
        if t[i] == 0x1b && t.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < t.len() && (t[j].is_ascii_digit() || t[j] == b';') {
                j += 1;
            }
            if t.get(j) == Some(&b'm') {
                let body = &t[i + 2..j];
                active = !(body.is_empty() || body == b"0");
                n += 1;
                i = j + 1;
                continue;
            }
        }
        v.push(t[i]);
        i += 1;
    }
    (v, active, n)
}

// ------------------------------------------------------------------ apply
pub enum Applied {
    /// set of acceptable results
    Ok(Vec<Vec<u8>>),
    /// set of acceptable failing hunks (1-based), with no acceptable success
    Err(Vec<usize>),
    /// both are acceptable (a tie decides)
    Either(Vec<Vec<u8>>, Vec<usize>),
    TooBig,
}

type Image = Vec<(u32, bool)>;

/// Apply hunks in sequence at the matching place nearest to the stated line (ties: both allowed).
pub fn apply_nearest(base: &[u8], p: &PV) -> Applied {
    let mut m: HashMap<Vec<u8>, u32> = HashMap::new();
    let mut back: Vec<Vec<u8>> = Vec::new();
    let mut id = |l: &[u8]| -> u32 {
        if let Some(i) = m.get(l) {
            return *i;
        }
        let i = back.len() as u32;
        back.push(l.to_vec());
        m.insert(l.to_vec(), i);
        i
    };
    let img: Image = lines(base).iter().map(|l| (id(l), false)).collect();
    let hunks: Vec<(Vec<u32>, Vec<u32>, usize)> = p
        .hunks
        .iter()
        .map(|h| {
            let pos = if h.nl == 0 { h.ns } else { h.ns.saturating_sub(1) };
            (h.pre().map(|l| id(l)).collect(), h.post().map(|l| id(l)).collect(), pos)
        })
        .collect();
    let mut imgs: Vec<Image> = vec![img];
    let mut fails = Vec::new();
    for (hi, (pre, post, want)) in hunks.iter().enumerate() {
        let mut next: HashSet<Image> = HashSet::new();
        for im in &imgs {
            let want = (*want).min(im.len());
            let mut best = usize::MAX;
            let mut cands = Vec::new();
            for pos in 0..=im.len() {
                if pos + pre.len() > im.len() {
                    break;
                }
                let d = pos.abs_diff(want);
                if d > best {
                    continue;
                }
                if im[pos..pos + pre.len()].iter().zip(pre).all(|(a, b)| a.0 == *b && !a.1) {
                    if d < best {
                        best = d;
                        cands.clear();
                    }
                    cands.push(pos);
                }
            }
            if cands.is_empty() {
                fails.push(hi + 1);
            }
            for pos in cands {
                let mut n = im[..pos].to_vec();
                n.extend(post.iter().map(|l| (*l, true)));
                n.extend_from_slice(&im[pos + pre.len()..]);
                next.insert(n);
            }
            if next.len() > 64 {
                return Applied::TooBig;
            }
        }
        imgs = next.into_iter().collect();
        if imgs.is_empty() {
            fails.dedup();
            return Applied::Err(fails);
        }
    }
    let outs = imgs.iter().map(|im| im.iter().flat_map(|(l, _)| back[*l as usize].iter().copied()).collect()).collect();
    if fails.is_empty() {
        Applied::Ok(outs)
    } else {
        Applied::Either(outs, fails)
    }
}

/// Is `out` explained by applying the hunks at *some* disjoint exactly matching places of `base`?
/// None: search budget exhausted.
pub fn apply_explained(base: &[u8], p: &PV, out: &[u8]) -> Option<bool> {
    let v: Vec<Vec<u8>> = lines(base).iter().map(|l| l.to_vec()).collect();
    let mut seen: HashSet<(usize, Vec<(Vec<u8>, bool)>)> = HashSet::new();
    let mut budget = 20_000usize;
    fn go(
        im: &[(Vec<u8>, bool)],
        hs: &[HV],
        out: &[u8],
        seen: &mut HashSet<(usize, Vec<(Vec<u8>, bool)>)>,
        budget: &mut usize,
    ) -> Option<bool> {
        if hs.is_empty() {
            let got: Vec<u8> = im.iter().flat_map(|l| l.0.iter().copied()).collect();
            return Some(got == out);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if !seen.insert((hs.len(), im.to_vec())) {
            return Some(false);
        }
        let h = &hs[0];
        let pre: Vec<&Vec<u8>> = h.pre().collect();
        // nearest candidates first: finds the usual explanation quickly
        let want = if h.nl == 0 { h.ns } else { h.ns.saturating_sub(1) }.min(im.len());
        let mut ps: Vec<usize> = (0..=im.len()).filter(|p| p + pre.len() <= im.len()).collect();
        ps.sort_by_key(|p| p.abs_diff(want));
        for pos in ps {
            if !im[pos..pos + pre.len()].iter().zip(&pre).all(|(a, b)| &&a.0 == b && !a.1) {
                continue;
            }
            let mut n = im[..pos].to_vec();
            n.extend(h.post().map(|l| (l.clone(), true)));
            n.extend_from_slice(&im[pos + pre.len()..]);
            match go(&n, &hs[1..], out, seen, budget) {
                Some(false) => {}
                r => return r,
            }
        }
        Some(false)
    }
    let im: Vec<(Vec<u8>, bool)> = v.into_iter().map(|l| (l, false)).collect();
    go(&im, &p.hunks, out, &mut seen, &mut budget)
}

// ------------------------------------------------------------------ merge
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Line(Vec<u8>),
    /// ours, ancestor (None in two-section style), theirs
    Conflict(Vec<Vec<u8>>, Option<Vec<Vec<u8>>>, Vec<Vec<u8>>),
}

pub fn marker(c: u8, len: usize, label: &str) -> Vec<u8> {
    let mut v = vec![c; len];
    if !label.is_empty() {
        v.push(b' ');
        v.extend(label.bytes());
    }
    v.push(b'\n');
    v
}

/// A marker length for which no input line can be taken for a marker line.
pub fn safe_marker_len(inputs: &[&[u8]], start: usize) -> usize {
    let mut len = start;
    'next: loop {
        let ms = [marker(b'<', len, "ours"), marker(b'|', len, "original"), marker(b'=', len, ""), marker(b'>', len, "theirs")];
        for t in inputs {
            for l in lines(t) {
                if ms.iter().any(|m| m[..] == *l || m[..m.len() - 1] == *l) {
                    len += 1;
                    continue 'next;
                }
            }
        }
        return len;
    }
}

pub fn parse_conflicts(t: &[u8], len: usize, diff3: bool) -> Result<Vec<Item>, String> {
    let (lt, bar, eq, gt) = (marker(b'<', len, "ours"), marker(b'|', len, "original"), marker(b'=', len, ""), marker(b'>', len, "theirs"));
    let mut v = Vec::new();
    let mut st = 0;
    let (mut a, mut o, mut b) = (vec![], vec![], vec![]);
    for (i, l) in lines(t).into_iter().enumerate() {
        let err = |m: &str| Err(format!("line {} of the output: {m}", i + 1));
        if l == &lt[..] {
            if st != 0 {
                return err("opening marker inside a block");
            }
            st = 1;
        } else if l == &bar[..] {
            if st != 1 || !diff3 {
                return err("ancestor marker in the wrong place");
            }
            st = 2;
        } else if l == &eq[..] {
            if st != if diff3 { 2 } else { 1 } {
                return err("separator in the wrong place");
            }
            st = 3;
        } else if l == &gt[..] {
            if st != 3 {
                return err("closing marker in the wrong place");
            }
            st = 0;
            v.push(Item::Conflict(std::mem::take(&mut a), diff3.then(|| std::mem::take(&mut o)), std::mem::take(&mut b)));
        } else {
            match st {
                0 => v.push(Item::Line(l.to_vec())),
                1 => a.push(l.to_vec()),
                2 => o.push(l.to_vec()),
                _ => b.push(l.to_vec()),
            }
        }
    }
    if st != 0 {
        return Err("unterminated conflict block".into());
    }
    Ok(v)
}

/// lines equal, allowing the newline that a conflict block adds to a final line without one
fn eq_block(shown: &[Vec<u8>], real: &[&[u8]]) -> bool {
    shown.len() == real.len()
        && shown.iter().zip(real).enumerate().all(|(i, (s, r))| {
            s[..] == **r || (i + 1 == real.len() && !r.ends_with(b"\n") && s.len() == r.len() + 1 && s.starts_with(r) && s.ends_with(b"\n"))
        })
}

/// Is the output explained section by section (see property M02)? None: search budget exhausted.
pub fn merge_explained(o: &[u8], a: &[u8], b: &[u8], out: &[Item]) -> Option<bool> {
    let (o, a, b) = (lines(o), lines(a), lines(b));
    // modes: 0 after common line, 1 ours changed, 2 theirs changed, 3 both the same, 4 after conflict
    let mut seen: HashSet<(u32, u32, u32, u32, u8)> = HashSet::new();
    let mut stack = vec![(0u32, 0u32, 0u32, 0u32, 0u8)];
    while let Some(s) = stack.pop() {
        if !seen.insert(s) {
            continue;
        }
        if seen.len() > 400_000 {
            return None;
        }
        let (i, j, k, l, m) = (s.0 as usize, s.1 as usize, s.2 as usize, s.3 as usize, s.4);
        if i == o.len() && j == a.len() && k == b.len() && l == out.len() {
            return Some(true);
        }
        let ol = match out.get(l) {
            Some(Item::Line(x)) => Some(&x[..]),
            _ => None,
        };
        let (oi, aj, bk) = (o.get(i).copied(), a.get(j).copied(), b.get(k).copied());
        let (i, j, k, l) = s_tuple(s);
        let mut push = |t| stack.push(t);
        // sections (pushed first, so tried last)
        if m != 4 {
            if let (0, Some(Item::Conflict(ca, co, cb))) = (m, out.get(l as usize)) {
                let (na, nb) = (ca.len(), cb.len());
                if j as usize + na <= a.len() && k as usize + nb <= b.len() {
                    let (ra, rb) = (&a[j as usize..j as usize + na], &b[k as usize..k as usize + nb]);
                    if eq_block(ca, ra) && eq_block(cb, rb) {
                        match co {
                            Some(co) => {
                                let no = co.len();
                                if i as usize + no <= o.len() && eq_block(co, &o[i as usize..i as usize + no]) {
                                    let ro = &o[i as usize..i as usize + no];
                                    if ra != rb && ra != ro && rb != ro {
                                        push((i + no as u32, j + na as u32, k + nb as u32, l + 1, 4));
                                    }
                                }
                            }
                            None => {
                                for no in 0..=(o.len() - i as usize) {
                                    let ro = &o[i as usize..i as usize + no];
                                    if ra != rb && ra != ro && rb != ro {
                                        push((i + no as u32, j + na as u32, k + nb as u32, l + 1, 4));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if m == 0 || m == 3 {
                if oi.is_some() {
                    push((i + 1, j, k, l, 3));
                }
                if aj.is_some() && aj == bk && aj == ol {
                    push((i, j + 1, k + 1, l + 1, 3));
                }
            }
            if m == 0 || m == 2 {
                if oi.is_some() && oi == aj {
                    push((i + 1, j + 1, k, l, 2));
                }
                if bk.is_some() && bk == ol {
                    push((i, j, k + 1, l + 1, 2));
                }
            }
            if m == 0 || m == 1 {
                if oi.is_some() && oi == bk {
                    push((i + 1, j, k + 1, l, 1));
                }
                if aj.is_some() && aj == ol {
                    push((i, j + 1, k, l + 1, 1));
                }
            }
        }
        if oi.is_some() && oi == aj && oi == bk && oi == ol {
            push((i + 1, j + 1, k + 1, l + 1, 0));
        }
    }
    Some(false)
}

fn s_tuple(s: (u32, u32, u32, u32, u8)) -> (u32, u32, u32, u32) {
    (s.0, s.1, s.2, s.3)
}
