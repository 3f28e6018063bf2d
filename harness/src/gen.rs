//! Workload generators: texts, pairs, triples, patches, file names.
use crate::rng::Rng;

/// Values the running library compared something with, fed back as sizes and tokens.
#[derive(Default, Clone)]
pub struct Feedback {
    pub sizes: Vec<usize>,
    /// sizes beyond what random texts reach
    pub large: Vec<usize>,
    /// sizes only numbers of bytes reach
    pub huge: Vec<usize>,
    pub tokens: Vec<Vec<u8>>,
}

impl Feedback {
    pub fn from_consts(cs: &[u64]) -> Self {
        let mut f = Feedback::default();
        for &c in cs {
            for w in [c, !c, c.wrapping_neg()] {
                f.size(w);
            }
            let b = c.to_le_bytes();
            let n = 8 - (c.leading_zeros() as usize) / 8;
            let t: Vec<u8> = b[..n].to_vec();
            if n >= 1 && t.iter().all(|c| (32..127).contains(c) || *c == b'\r' || *c == b'\t') {
                f.tokens.push(t);
            }
        }
        f.tidy();
        f
    }
    fn size(&mut self, w: u64) {
        if (3..=4096).contains(&w) {
            self.sizes.push(w as usize);
        } else if (4097..=300_000).contains(&w) {
            self.large.push(w as usize);
        } else if (300_001..=5_000_000).contains(&w) {
            self.huge.push(w as usize);
        }
    }
    fn tidy(&mut self) {
        self.sizes.sort();
        self.sizes.dedup();
        self.large.sort();
        self.large.dedup();
        self.huge.sort();
        self.huge.dedup();
        self.tokens.sort();
        self.tokens.dedup();
    }
    /// numbers of bytes worth trying beyond those of ordinary texts
    pub fn bytes(&self) -> impl Iterator<Item = usize> + '_ {
        self.large.iter().take(10).chain(self.huge.iter().take(6)).copied()
    }
    /// literals of the tree under test, one per line: `i <number>` or `s <hex>`
    pub fn add_dict(&mut self, d: &str) {
        for l in d.lines() {
            if let Some(n) = l.strip_prefix("i ").and_then(|n| n.parse::<u64>().ok()) {
                self.size(n);
            } else if let Some(h) = l.strip_prefix("s ") {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                if !b.is_empty() && !b.contains(&b'\n') && std::str::from_utf8(&b).is_ok() {
                    self.tokens.push(b);
                }
            }
        }
        self.tidy();
    }
}

pub struct Ctx<'a> {
    pub fb: &'a Feedback,
    /// only valid UTF-8 wanted
    pub utf8: bool,
    /// upper bound on the number of lines of ordinary texts
    pub max_lines: usize,
}

const SIZES: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025];

pub fn size(rng: &mut Rng, fb: &Feedback) -> usize {
    if !fb.sizes.is_empty() && rng.chance(1, 2) {
        let s = *rng.pick(&fb.sizes);
        (s + rng.below(3)).saturating_sub(1).min(4200)
    } else {
        *rng.pick(SIZES)
    }
}

fn strs(v: &[&str]) -> Vec<Vec<u8>> {
    v.iter().map(|s| s.as_bytes().to_vec()).collect()
}

pub const KINDS: usize = 17;

/// Pairs of lines with equal values of common weak hashes (made by tools/collide.rs).
pub fn collisions() -> Vec<(&'static [u8], &'static [u8])> {
    include_str!("collide.txt").lines().filter_map(|l| l.split_once(' ').map(|(a, r)| (a.as_bytes(), r.split(' ').next().unwrap().as_bytes()))).collect()
}

/// A set of line contents (without newline) with a particular kind of relation between them.
pub fn vocab(rng: &mut Rng, cx: &Ctx) -> Vec<Vec<u8>> {
    let mut k = rng.below(KINDS);
    if cx.utf8 && k == 11 {
        k = 7;
    }
    match k {
        0 => strs(&["a", "b"]),
        1 => strs(&["a", "b", "c", "d", ""]),
        2 => strs(&["", " ", "\t", "a", "  "]),
        3 => (0..rng.range(5, 60)).map(|i| format!("line {i}").into_bytes()).collect(),
        4 => {
            let base = rng.pick(&["foo bar", "x", "return 0;", "    indented", "The quick brown fox jumps", "0"]).as_bytes().to_vec();
            let mut v = vec![base.clone()];
            let with = |s: &str| {
                let mut b = base.clone();
                b.extend(s.bytes());
                b
            };
            v.push(with(" "));
            v.push(with("\t"));
            v.push(with("\r"));
            v.push(with("\r\r"));
            v.push(with("."));
            v.push([b" ", &base[..]].concat());
            v.push([b"\t", &base[..]].concat());
            v.push(base.to_ascii_uppercase());
            v.push([&base[..], &base[..]].concat());
            v.push(base.iter().rev().copied().collect());
            v.push(base[..base.len() - 1].to_vec());
            let mut m = base.clone();
            let i = m.len() / 2;
            m[i] ^= 1;
            if m[i] != b'\n' {
                v.push(m);
            }
            v.push(String::from_utf8_lossy(&base).replace(' ', "  ").into_bytes());
            v
        }
        5 => strs(&[
            "--- a", "+++ b", "@@ -1 +1 @@", "@@ -1,2 +1,2 @@ f", "\\ No newline at end of file", "-", "+", " ", "", "-- ", "++ x", "- a", "+ b", "diff --git a/x b/x",
            "index 0..1", "@", "@@", "\\", "---", "+++", "--- ", "+++ ", "@@ ", "-+ ", "Binary files differ", "a\tb",
        ]),
        6 => strs(&["<<<<<<< ours", "||||||| original", "=======", ">>>>>>> theirs", "<<<<<<<", ">>>>>>>", "|||||||", "a", "b", "", "=", "<", "====", " ours"]),
        7 => strs(&["é", "e\u{301}", "日本", "日本語", "🦀", "🦀🦀", "\u{2028}", "\u{85}", "\u{feff}", "ß", "\0", "a\u{2028}b", "\u{10ffff}", "ﬁ", "fi", ""]),
        8 => strs(&["{", "}", "", "    return x;", "    return y;", "fn a() {", "fn b() {", "    if x {", "    }", "// c", "int main()", "end"]),
        9 => {
            // long lines of equal length that differ in one place
            let len = size(rng, cx.fb);
            let base: Vec<u8> = (0..len).map(|i| b'a' + (i % 26) as u8).collect();
            let mut v = vec![base.clone()];
            for p in [0, 1, 7, 8, len / 2, len.saturating_sub(9), len.saturating_sub(8), len.saturating_sub(2), len - 1] {
                let mut b = base.clone();
                if p < len {
                    b[p] = b'#';
                    v.push(b);
                }
            }
            for _ in 0..4 {
                let mut b = base.clone();
                let p = rng.below(len);
                b[p] = b'0' + rng.below(10) as u8;
                v.push(b);
            }
            if len >= 2 {
                let mut b = base.clone();
                let (p, q) = (rng.below(len), rng.below(len));
                b.swap(p, q);
                v.push(b);
                v.push(base[..len - 1].to_vec());
            }
            v.push([&base[..], b"x"].concat());
            v.sort();
            v.dedup();
            v
        }
        10 => strs(&["\r", "\r\r", "a\r", "\x0b", "\x0c", "\x1b[31m", "\x1b[0m", "\0", "a\0b", "\x7f", "\t\r", "a\rb", "", "\x08", "\u{1}"]),
        11 => (0..rng.range(2, 12))
            .map(|_| {
                (0..rng.geo(4))
                    .map(|_| {
                        let b = rng.below(256) as u8;
                        if b == b'\n' {
                            0xff
                        } else {
                            b
                        }
                    })
                    .collect()
            })
            .collect(),
        12 => {
            let mut v = strs(&["a", ""]);
            for _ in 0..rng.range(1, 6) {
                if cx.fb.tokens.is_empty() {
                    v.push(format!("t{}", rng.below(9)).into_bytes());
                } else {
                    let mut t = rng.pick(&cx.fb.tokens).clone();
                    if rng.chance(1, 3) {
                        t.extend(b"x");
                    }
                    v.push(t);
                }
            }
            v
        }
        13 => {
            // anagrams and equal-length words: weak line hashes collide on these
            let mut v = strs(&["abc", "acb", "bac", "bca", "cab", "cba", "aac", "bbb", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"]);
            let w = rng.below(100);
            v.push(format!("k{w:03}").into_bytes());
            v.push(format!("k{:03}", w + 1).into_bytes());
            v
        }
        15 => {
            let all = collisions();
            let mut v = strs(&["a"]);
            for _ in 0..rng.range(1, 4) {
                let (x, y) = *rng.pick(&all);
                v.extend([x.to_vec(), y.to_vec()]);
            }
            v
        }
        14 => {
            // random short printable words
            (0..rng.range(2, 20)).map(|_| (0..rng.range(0, 6)).map(|_| b' ' + rng.below(95) as u8).collect()).collect()
        }
        _ => strs(&["a", "b", "c", "d", "e", "f", "g", "h"]),
    }
}

/// Lines that could mean something to a tool handling patches or conflicts, for use at every place.
pub fn peculiar(cx: &Ctx) -> Vec<Vec<u8>> {
    let mut v = strs(&[
        "", " ", "  ", "\t", "-", "+", "--", "-- ", "- ", "++", "++ ", "+ ", "---", "+++", "--- ", "+++ ", "-- a", "++ b", "--- a", "+++ b", "--- a/f\t1970-01-01",
        "@", "@@", "@@ ", " @@", "@@ -1 +1 @@", "@@ -1,2 +3,4 @@ f", "@@ -0,0 +1 @@", "\\", "\\ ", "\\ No newline at end of file", " No newline at end of file",
        "diff --git a/x b/x", "diff -u a b", "index 0..1", "Index: f", "From 0123", "From: x", "similarity index 90%", "rename from a", "new file mode 100644",
        "GIT binary patch", "Binary files a and b differ", "*** a", "***************", "<", "<<<<<<<", "<<<<<<< ours", "||||||| original", "=======", "=", ">>>>>>>",
        ">>>>>>> theirs", "> x", "< x", "\r", "a\r", "\r\r", "\u{feff}", "\u{feff}a", "a ", "a\t", " a", "\ta", "\0", "\x1b[31m", "\x1b[0m", "\u{2028}", "\u{85}", "\x0c", "\x0b", "é",
        "// x", "# x", "fn f() {", "{", "}", "\"a\"", "0", "2.40.1", ".",
    ]);
    for t in &cx.fb.tokens {
        if !t.contains(&b'\n') && t.len() < 60 {
            v.push(t.clone());
            if t.len() > 1 {
                // with the line's own prefix it is the token
                v.push(t[1..].to_vec());
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| std::str::from_utf8(t).is_ok() && seen.insert(t.clone()));
    v.truncate(260);
    v
}

pub fn seq(rng: &mut Rng, voc: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::with_capacity(n);
    let style = rng.below(4);
    while v.len() < n {
        match style {
            0 => v.push(rng.pick(voc).clone()),
            1 => {
                let l = rng.pick(voc).clone();
                for _ in 0..1 + rng.geo(2) {
                    v.push(l.clone());
                }
            }
            2 => {
                // skewed
                let i = rng.below(voc.len()).min(rng.below(voc.len()));
                v.push(voc[i].clone());
            }
            _ => {
                // periodic with noise
                let i = if rng.chance(1, 6) { rng.below(voc.len()) } else { v.len() % voc.len() };
                v.push(voc[i].clone());
            }
        }
    }
    v.truncate(n);
    v
}

pub fn n_lines(rng: &mut Rng, cx: &Ctx) -> usize {
    let n = match rng.below(100) {
        0..=9 => rng.below(3),
        10..=64 => rng.below(9),
        65..=92 => rng.below(40),
        93..=98 => rng.below(200),
        _ => size(rng, cx.fb),
    };
    n.min(cx.max_lines)
}

pub fn edit(rng: &mut Rng, v: &mut Vec<Vec<u8>>, voc: &[Vec<u8>], k: usize) {
    for _ in 0..k {
        let n = v.len();
        match rng.below(12) {
            0..=3 => {
                let p = if rng.chance(1, 4) { n } else { rng.below(n + 1) };
                let m = 1 + rng.geo(1);
                let ins = seq(rng, voc, m);
                v.splice(p..p, ins);
            }
            4..=6 if n > 0 => {
                let p = rng.below(n);
                let m = (1 + rng.geo(1)).min(n - p);
                v.drain(p..p + m);
            }
            7..=8 if n > 0 => {
                let p = rng.below(n);
                v[p] = rng.pick(voc).clone();
            }
            9 if n > 1 => {
                let p = rng.below(n);
                let m = (1 + rng.geo(2)).min(n - p);
                let blk: Vec<_> = v.drain(p..p + m).collect();
                let q = rng.below(v.len() + 1);
                v.splice(q..q, blk);
            }
            10 if n > 0 => {
                let p = rng.below(n);
                let m = (1 + rng.geo(2)).min(n - p);
                let blk: Vec<_> = v[p..p + m].to_vec();
                let q = rng.below(n + 1);
                v.splice(q..q, blk);
            }
            11 if n > 0 => {
                // near-miss of an existing line
                let p = rng.below(n);
                match rng.below(4) {
                    0 => v[p].push(b' '),
                    1 => v[p].push(b'\r'),
                    2 => {
                        v[p].pop();
                        if std::str::from_utf8(&v[p]).is_err() {
                            v[p].clear();
                        }
                    }
                    _ => v[p].insert(0, b' '),
                }
            }
            _ => {}
        }
    }
}

pub fn join(rng: &mut Rng, v: &[Vec<u8>]) -> Vec<u8> {
    let mut t = Vec::new();
    for l in v {
        t.extend_from_slice(l);
        t.push(b'\n');
    }
    if !t.is_empty() && rng.chance(1, 4) {
        t.pop();
    }
    t
}

fn tidy(cx: &Ctx, t: Vec<u8>) -> Vec<u8> {
    if cx.utf8 && std::str::from_utf8(&t).is_err() {
        String::from_utf8_lossy(&t).into_owned().into_bytes()
    } else {
        t
    }
}

pub fn text(rng: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let voc = vocab(rng, cx);
    let n = n_lines(rng, cx);
    let v = seq(rng, &voc, n);
    let t = join(rng, &v);
    tidy(cx, t)
}

pub fn n_edits(rng: &mut Rng, n: usize) -> usize {
    match rng.below(10) {
        0 => 0,
        1..=5 => rng.range(1, 3),
        6..=8 => rng.range(1, 6),
        _ => rng.range(1, 1 + n / 4 + 4),
    }
}

pub fn pair(rng: &mut Rng, cx: &Ctx) -> (Vec<u8>, Vec<u8>) {
    if rng.chance(1, 50) {
        return sized_pair(rng, cx);
    }
    let voc = vocab(rng, cx);
    let n = n_lines(rng, cx);
    let old = seq(rng, &voc, n);
    let new = if rng.chance(1, 6) {
        let m = n_lines(rng, cx);
        seq(rng, &voc, m)
    } else {
        let mut v = old.clone();
        let k = n_edits(rng, n);
        edit(rng, &mut v, &voc, k);
        v
    };
    let (a, b) = (join(rng, &old), join(rng, &new));
    let (a, b) = (tidy(cx, a), tidy(cx, b));
    if rng.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

/// Pairs whose number of lines, of distinct lines, of hunks or whose distances hit particular sizes.
pub fn sized_pair(rng: &mut Rng, cx: &Ctx) -> (Vec<u8>, Vec<u8>) {
    let n = size(rng, cx.fb);
    let distinct = rng.chance(1, 2);
    let old: Vec<Vec<u8>> = (0..n).map(|i| if distinct { format!("{i}").into_bytes() } else { format!("{}", i % 7).into_bytes() }).collect();
    let mut new = old.clone();
    match rng.below(5) {
        0 => {
            // many hunks
            let step = rng.range(1, 9);
            for i in (0..n).step_by(step) {
                new[i] = b"changed".to_vec();
            }
        }
        1 => {
            let p = rng.below(n + 1);
            let m = size(rng, cx.fb);
            new.splice(p..p, (0..m).map(|i| format!("new {i}").into_bytes()));
        }
        2 => {
            let p = rng.below(n);
            let q = p + rng.below(n - p);
            new.drain(p..q);
        }
        _ => {
            let voc = strs(&["x", "y", "1", "2"]);
            let k = rng.range(1, 5);
            edit(rng, &mut new, &voc, k);
        }
    }
    let (a, b) = (join(rng, &old), join(rng, &new));
    (tidy(cx, a), tidy(cx, b))
}

pub fn context_len(rng: &mut Rng, cx: &Ctx) -> u64 {
    match rng.below(20) {
        0..=4 => 0,
        5..=7 => 1,
        8..=9 => 2,
        10..=13 => 3,
        14 => 4,
        15 => rng.range(5, 12) as u64,
        16 => size(rng, cx.fb) as u64,
        17 => *rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, i64::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1]),
        18 => rng.range(0, 6) as u64,
        _ => rng.range(0, 40) as u64,
    }
}

pub fn name(rng: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let base: Vec<u8> = match rng.below(8) {
        0 => b"original".to_vec(),
        1 => b"a/src/lib.rs".to_vec(),
        2 => Vec::new(),
        3 => strs(&["\"", "\"\"", "\"x\"", "\\", "\\\\", "\\n", "\t", "\n", "\r", "\0", "a\tb", "a b", " a", "a ", "--- a", "+++ ", "@@ -1 +1 @@", "\u{e9}", "日本", "🦀\n", "/dev/null", "a\"b", "x\\", "\\0", "0", "n", "\x07", "\x1b[1m"])
            [rng.below(28)]
        .clone(),
        4 => {
            let n = rng.geo(6);
            (0..n).map(|_| *rng.pick(b"ab\n\t\0\r\"\\ nt0r/")).collect()
        }
        5 => {
            let n = size(rng, cx.fb).min(600);
            (0..n).map(|i| if i % 37 == 5 { b'\\' } else { b'f' }).collect()
        }
        6 => {
            let n = rng.range(1, 8);
            (0..n).map(|_| rng.range(1, 127) as u8).collect()
        }
        _ => {
            let n = rng.range(1, 6);
            let mut s = String::new();
            for _ in 0..n {
                s.push(*rng.pick(&['é', 'ß', '語', '🦀', 'a', '"', '\\', '\n', '\u{85}', '\u{2028}']));
            }
            s.into_bytes()
        }
    };
    tidy(cx, base)
}

/// Something like a quoted name: escapes that exist, escapes that do not, raw characters.
pub fn quoted(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![b'"'];
    for _ in 0..rng.geo(3) {
        match rng.below(8) {
            0..=1 => v.extend([b'\\', *rng.pick(b"nt0r\"\\abvf")]),
            2 => v.extend(format!("\\{:03o}", rng.below(0o400)).bytes()),
            3 => v.extend(rng.pick(&["\\303\\251", "\\342\\200", "\\xff", "\\x41", "\\u00e9", "\\u{e9}", "\\1", "\\", "\\8"]).bytes()),
            4 => v.push(rng.below(256) as u8),
            5 => v.extend(rng.pick(&["é", "\u{2028}", "日", "🦀"]).bytes()),
            _ => v.push(*rng.pick(b"ab/. ")),
        }
    }
    if rng.chance(7, 8) {
        v.push(b'"');
    }
    v
}

pub fn triple(rng: &mut Rng, cx: &Ctx) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let voc = vocab(rng, cx);
    let n = n_lines(rng, cx);
    let o = seq(rng, &voc, n);
    let mk = |rng: &mut Rng| {
        let mut v = o.clone();
        let k = n_edits(rng, n);
        edit(rng, &mut v, &voc, k);
        v
    };
    let a = if rng.chance(1, 12) {
        let m = n_lines(rng, cx).min(n + 6);
        seq(rng, &voc, m)
    } else {
        mk(rng)
    };
    let mut b = match rng.below(12) {
        0 => a.clone(),
        1 => o.clone(),
        2 | 3 => {
            // same edit plus another
            let mut v = a.clone();
            let k = rng.below(3);
            edit(rng, &mut v, &voc, k);
            v
        }
        _ => mk(rng),
    };
    if rng.chance(1, 10) && !b.is_empty() {
        let p = rng.below(b.len());
        b[p].push(b'!');
    }
    (tidy(cx, join(rng, &o)), tidy(cx, join(rng, &a)), tidy(cx, join(rng, &b)))
}

// ------------------------------------------------------------------ well-formed patch texts
use crate::refm::{quote_name, quote_name_c, HV, PV};

/// A random well-formed patch model. `coherent`: line numbers consistent with one pair of files.
pub fn patch_model(rng: &mut Rng, cx: &Ctx) -> PV {
    let voc = vocab(rng, cx);
    let nh = rng.geo(2).min(40);
    let mut hunks = Vec::new();
    let (mut eo, mut en) = (0usize, 0usize); // last used line in old / new
    if rng.chance(1, 10) {
        let base = *rng.pick(&[0usize, 98, 999, 65535, u32::MAX as usize - 3, (u64::MAX / 4) as usize]);
        eo = base;
        en = base;
    }
    let open_tail = rng.chance(1, 3);
    for hi in 0..nh {
        let last = hi + 1 == nh;
        let m = if rng.chance(1, 12) { size(rng, cx.fb).min(300) } else { rng.geo(4) };
        let mut ls: Vec<(u8, Vec<u8>)> = Vec::new();
        for _ in 0..m {
            let mut l = rng.pick(&voc).clone();
            l.push(b'\n');
            let k = *rng.pick(b"   -+-+");
            ls.push((k, l));
        }
        // final lines without newline, only where both conventions allow it: at the end of each side
        if last && open_tail && !ls.is_empty() {
            let lo = ls.iter().rposition(|l| l.0 != b'+');
            let ln = ls.iter().rposition(|l| l.0 != b'-');
            let strip = |l: &mut (u8, Vec<u8>)| {
                if l.1.last() == Some(&b'\n') {
                    l.1.pop();
                }
            };
            match (lo, ln) {
                (Some(i), Some(j)) if i == j => {
                    if i == ls.len() - 1 {
                        strip(&mut ls[i])
                    }
                }
                (lo, ln) => {
                    let c = rng.below(3);
                    for (w, p) in [(1, lo), (2, ln)] {
                        if let Some(p) = p {
                            if (c == 0 || c == w) && ls[p].0 != b' ' && ls[p + 1..].iter().all(|l| l.0 != b' ') {
                                strip(&mut ls[p]);
                            }
                        }
                    }
                }
            }
        }
        let ol = ls.iter().filter(|l| l.0 != b'+').count();
        let nl = ls.iter().filter(|l| l.0 != b'-').count();
        // an empty side right after the previous hunk would be part of that hunk
        let gap = if hi > 0 && (ol == 0 || nl == 0) { 1 } else { 0 } + rng.geo(3);
        let (so, sn) = (eo + gap, en + gap);
        let os = if ol > 0 { so + 1 } else { so };
        let ns = if nl > 0 { sn + 1 } else { sn };
        eo = so + ol;
        en = sn + nl;
        let fc = if rng.chance(1, 3) {
            let mut c = match rng.below(5) {
                0 => b"fn main() {".to_vec(),
                1 => Vec::new(),
                2 => b" @@ x".to_vec(),
                3 => b"  indented \t".to_vec(),
                _ => rng.pick(&voc).clone(),
            };
            if c.contains(&b'\n') {
                c.clear();
            }
            Some(c)
        } else {
            None
        };
        hunks.push(HV { os, ol, ns, nl, fc, lines: ls });
    }
    let orig = rng.chance(3, 4).then(|| name(rng, cx));
    let modi = rng.chance(3, 4).then(|| name(rng, cx));
    PV { orig, modi, hunks }
}

/// Write a model as patch text with the freedom the format leaves.
pub fn patch_text(rng: &mut Rng, cx: &Ctx, p: &PV) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let style = rng.below(4);
    if style != 0 {
        let pre = [
            "diff --git a/x b/x\n",
            "index 257cc56..5716ca5 100644\n",
            "Index: foo\n",
            "===================================================================\n",
            "\n",
            "some commit message\n",
            "---\n",
            " 1 file changed, 1 insertion(+)\n",
            "old mode 100644\n",
            "+++\n",
            "@@\n",
            " @@ -1 +1 @@\n",
            " --- a\n",
            "-- \n",
            "similarity index 90%\n",
            "\\ No newline at end of file\n",
        ];
        let n = if rng.chance(1, 24) { size(rng, cx.fb) } else { rng.geo(2) };
        for _ in 0..n {
            v.extend(rng.pick(&pre).bytes());
        }
        if rng.chance(1, 24) {
            let n = size(rng, cx.fb);
            v.extend((0..n).map(|i| b" -+x\\@\t"[i % 7]));
            v.push(b'\n');
        }
    }
    let ts = |rng: &mut Rng, v: &mut Vec<u8>| {
        if rng.chance(1, 3) {
            v.extend(rng.pick(&["\t2020-01-01 10:00:00.000000000 +0000", "\t", "\tx\ty", "\t\"q\"", "\t\r"]).bytes());
        }
        v.push(b'\n');
    };
    let swap = rng.chance(1, 10);
    for side in if swap { [1, 0] } else { [0, 1] } {
        let (pre, n) = if side == 0 { ("--- ", &p.orig) } else { ("+++ ", &p.modi) };
        if let Some(n) = n {
            v.extend(pre.bytes());
            let q = quote_name(n);
            if rng.chance(1, 4) {
                v.extend(quote_name_c(n, rng.chance(3, 4)));
            } else if q[..] == n[..] && rng.chance(1, 8) {
                // needless quotes
                v.push(b'"');
                v.extend(n);
                v.push(b'"');
            } else {
                v.extend(q);
            }
            ts(rng, &mut v);
        }
    }
    for h in &p.hunks {
        let explicit = rng.chance(1, 2);
        let r = |s: usize, l: usize| if l == 1 && !explicit { format!("{s}") } else { format!("{s},{l}") };
        v.extend(format!("@@ -{} +{} @@", r(h.os, h.ol), r(h.ns, h.nl)).bytes());
        if let Some(c) = &h.fc {
            v.push(b' ');
            v.extend(c);
        }
        v.push(b'\n');
        for (k, l) in &h.lines {
            if !(*k == b' ' && l == b"\n" && rng.chance(1, 2)) {
                v.push(*k);
            }
            v.extend(l);
            if l.last() != Some(&b'\n') {
                v.extend(b"\n\\ No newline at end of file\n");
            }
        }
    }
    v
}

/// A small patch over a tiny alphabet whose hunks may match a small base in several places.
pub fn loose_patch(rng: &mut Rng, voc: &[Vec<u8>], base: &[Vec<u8>]) -> PV {
    let nh = 1 + rng.geo(1).min(4);
    let mut hunks = Vec::new();
    let (mut eo, mut en) = (0usize, 0usize);
    for _ in 0..nh {
        let mut ls: Vec<(u8, Vec<u8>)> = Vec::new();
        if !base.is_empty() && rng.chance(3, 4) {
            // take a real fragment of the base, possibly damaged
            let p = rng.below(base.len());
            let m = (1 + rng.geo(2)).min(base.len() - p);
            for l in &base[p..p + m] {
                let k = *rng.pick(b"  -");
                ls.push((k, l.clone()));
            }
            for _ in 0..rng.below(3) {
                let q = rng.below(ls.len() + 1);
                let mut l = rng.pick(voc).clone();
                l.push(b'\n');
                ls.insert(q, (b'+', l));
            }
            if rng.chance(1, 5) {
                let q = rng.below(ls.len());
                let l = &mut ls[q].1;
                match rng.below(5) {
                    0 => {
                        l.pop();
                    }
                    1 => l.insert(0, b' '),
                    2 => {
                        let e = l.len().saturating_sub(1);
                        l.insert(e, b' ')
                    }
                    3 => *l = [rng.pick(voc).clone(), b"\n".to_vec()].concat(),
                    _ => {
                        let e = l.len().saturating_sub(1);
                        l.insert(e, b'\r')
                    }
                }
            }
        } else {
            for _ in 0..rng.geo(2) {
                let mut l = rng.pick(voc).clone();
                l.push(b'\n');
                ls.push((*rng.pick(b" -++"), l));
            }
        }
        let ol = ls.iter().filter(|l| l.0 != b'+').count();
        let nl = ls.iter().filter(|l| l.0 != b'-').count();
        let (go, gn) = match rng.below(8) {
            0 => (0, rng.below(8)),
            1 => (rng.below(8), 0),
            2 => (0, *rng.pick(&[100usize, 5000, 1 << 40])),
            _ => {
                let g = rng.geo(2);
                (g, g)
            }
        };
        let (so, sn) = (eo + go, en + gn);
        hunks.push(HV {
            os: if ol > 0 { so + 1 } else { so },
            ol,
            ns: if nl > 0 { sn + 1 } else { sn },
            nl,
            fc: None,
            lines: ls,
        });
        eo = so + ol;
        en = sn + nl;
    }
    PV { orig: None, modi: None, hunks }
}
