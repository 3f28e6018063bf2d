//! The checks. Each property: generators, an enumeration of small inputs, boundary cases, an oracle.
use crate::case::Case;
use crate::gen::{self, Ctx};
use crate::mon::guarded;
use crate::refm::{view, PV};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub mod apply;
pub mod diff;
pub mod effects;
pub mod merge;
pub mod patch;
pub mod sys;
pub mod values;

/// What the monitors saw while checking one case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
}
impl Obs {
    pub fn add(&mut self, k: &'static str, n: usize) {
        *self.counts.entry(k).or_default() += n as u64;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
}

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// a random case
    pub gen: fn(&mut Rng, &Ctx) -> Case,
    /// number of enumerated cases, and the i-th of them
    pub count: fn(bool) -> u64,
    pub nth: fn(bool, u64) -> Case,
    /// boundary cases
    pub special: fn(bool, &Ctx) -> Vec<Case>,
    pub check: fn(&Case, &mut Obs) -> R,
    pub rule: &'static str,
}

pub fn none_count(_: bool) -> u64 {
    0
}
pub fn none_nth(_: bool, _: u64) -> Case {
    unreachable!()
}
pub fn none_special(_: bool, _: &Ctx) -> Vec<Case> {
    Vec::new()
}

pub fn all() -> Vec<Prop> {
    let mut v = diff::props();
    v.extend(patch::props());
    v.extend(apply::props());
    v.extend(merge::props());
    v.extend(sys::props());
    v.extend(values::props());
    v.extend(effects::props());
    v
}

pub fn s(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn opts(ctx: u64) -> diffy::DiffOptions {
    let mut o = diffy::DiffOptions::new();
    o.set_context_len(ctx as usize);
    o
}

/// Options from a case: t[2], t[3] are file names if present.
pub fn case_opts(c: &Case, ctx: u64) -> diffy::DiffOptions {
    let mut o = opts(ctx);
    if let Some(n) = c.t.get(2).and_then(|n| s(n)) {
        o.set_original_filename(n.to_string());
    }
    if let Some(n) = c.t.get(3).and_then(|n| s(n)) {
        o.set_modified_filename(n.to_string());
    }
    o
}

/// created patch as seen through the byte interface and, for valid UTF-8, through the text interface
pub fn views(old: &[u8], new: &[u8], ctx: u64) -> Result<Vec<(&'static str, PV)>, String> {
    let mut v = vec![("bytes", guarded("create_patch_bytes", || view(&opts(ctx).create_patch_bytes(old, new)))?)];
    if let (Some(o), Some(n)) = (s(old), s(new)) {
        v.push(("str", guarded("create_patch", || view(&opts(ctx).create_patch(o, n)))?));
    }
    Ok(v)
}

// ------------------------------------------------------------------ enumerations
/// every text over the alphabet with up to `max` lines, with and without final newline
pub fn texts(alpha: &[&str], max: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for t in &level {
            for a in alpha {
                let mut n = t.clone();
                n.extend(a.bytes());
                n.push(b'\n');
                v.push(n.clone());
                if !a.is_empty() {
                    v.push(n[..n.len() - 1].to_vec());
                }
                next.push(n);
            }
        }
        level = next;
    }
    v
}

struct Tables {
    a: Vec<Vec<u8>>,
    b: Vec<Vec<u8>>,
    e: Vec<Vec<u8>>,
    t2: Vec<Vec<u8>>,
    t3: Vec<Vec<u8>>,
}
fn tables(thorough: bool) -> &'static Tables {
    static Q: OnceLock<Tables> = OnceLock::new();
    static T: OnceLock<Tables> = OnceLock::new();
    let (c, x) = if thorough { (&T, 1) } else { (&Q, 0) };
    c.get_or_init(|| Tables {
        a: texts(&["a", "b"], 5 + 2 * x),
        b: texts(&["a", "b", "c"], 4 + x),
        e: texts(&["", "a"], 4 + x),
        t2: texts(&["a", "b"], 3 + x),
        t3: texts(&["a", "b", "c"], 2 + x),
    })
}

pub fn pair_count(th: bool) -> u64 {
    let t = tables(th);
    let n = |v: &Vec<Vec<u8>>| (v.len() * v.len()) as u64;
    n(&t.a) * 4 + n(&t.b) * 2 + n(&t.e) * 3
}
pub fn pair_nth(th: bool, mut i: u64) -> Case {
    let t = tables(th);
    for (v, m) in [(&t.a, 4u64), (&t.b, 2), (&t.e, 3)] {
        let n = v.len() as u64;
        if i < n * n * m {
            let c = i % m;
            let i = i / m;
            return Case::new("pair", vec![v[(i / n) as usize].clone(), v[(i % n) as usize].clone()], vec![c]);
        }
        i -= n * n * m;
    }
    unreachable!()
}
/// pairs without the context dimension
pub fn pair0_count(th: bool) -> u64 {
    let t = tables(th);
    let n = |v: &Vec<Vec<u8>>| (v.len() * v.len()) as u64;
    n(&t.a) + n(&t.b)
}
pub fn pair0_nth(th: bool, mut i: u64) -> Case {
    let t = tables(th);
    for v in [&t.a, &t.b] {
        let n = v.len() as u64;
        if i < n * n {
            return Case::new("pair", vec![v[(i / n) as usize].clone(), v[(i % n) as usize].clone()], vec![3]);
        }
        i -= n * n;
    }
    unreachable!()
}
pub fn triple_count(th: bool) -> u64 {
    let t = tables(th);
    let n = |v: &Vec<Vec<u8>>| (v.len() * v.len() * v.len()) as u64;
    n(&t.t2) + n(&t.t3)
}
pub fn triple_nth(th: bool, mut i: u64) -> Case {
    let t = tables(th);
    for v in [&t.t2, &t.t3] {
        let n = v.len() as u64;
        if i < n * n * n {
            let at = |k: u64| v[k as usize].clone();
            return Case::new("triple", vec![at(i % n), at(i / n % n), at(i / n / n)], vec![7, 0]);
        }
        i -= n * n * n;
    }
    unreachable!()
}

// ------------------------------------------------------------------ shared random cases
pub fn gen_pair(rng: &mut Rng, cx: &Ctx) -> Case {
    let (a, b) = gen::pair(rng, cx);
    let c = gen::context_len(rng, cx);
    Case::new("pair", vec![a, b], vec![c])
}

pub fn gen_triple(rng: &mut Rng, cx: &Ctx) -> Case {
    let (o, a, b) = gen::triple(rng, cx);
    let len = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.range(2, 12) as u64,
        3 => gen::size(rng, cx.fb) as u64,
        _ => 7,
    };
    Case::new("triple", vec![o, a, b], vec![len, rng.below(2) as u64])
}

/// lines numbered from a, joined
pub fn numbered(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| format!("{i}\n").into_bytes()).collect()
}

/// Boundary pairs: id and count widths, long lines, many hunks, dense differences.
pub fn special_pairs(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut add = |old: Vec<Vec<u8>>, new: Vec<Vec<u8>>, c: u64| v.push(Case::new("!pair", vec![old.concat(), new.concat()], vec![c]));
    let mut big: Vec<usize> = vec![255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537];
    big.extend(cx.fb.large.iter().copied().filter(|n| *n <= 300_000).take(24));
    for &n in &big {
        // distinct lines: line i of one text must not be taken for line i + 2^k of the other
        let old = numbered(n + 3);
        let mut new = old.clone();
        new[0] = b"x\n".to_vec();
        new[n / 2] = old[n].clone();
        new[n] = old[0].clone();
        let mut m = old.clone();
        m[n + 1] = old[1].clone();
        m.remove(n / 3);
        add(old.clone(), new, 3);
        add(old.clone(), m, 1);
        if n <= 70_000 {
            let mut t = old.clone();
            t.truncate(n);
            let mut u = t.clone();
            u.push(t[0].clone());
            add(t, u, 0);
        }
    }
    // few edits, at both ends and in between, of very long texts
    for n in if th { vec![40_000usize, 70_000, 140_000, 1_100_000] } else { vec![70_000, 140_000] } {
        let old = numbered(n);
        let at = |v: &mut Vec<Vec<u8>>, i: usize, del: usize, ins: &[&str]| drop(v.splice(i..i + del, ins.iter().map(|l| l.as_bytes().to_vec())));
        let mk = |e: &[(usize, usize, &[&str])]| {
            let mut v = old.clone();
            for &(i, del, ins) in e.iter().rev() {
                at(&mut v, i, del, ins);
            }
            v
        };
        let both = mk(&[(1, 1, &["x\n"]), (n - 2, 1, &["y\n"])]);
        add(old.clone(), both, 3);
        let shifted = mk(&[(1, 0, &["x\n", "y\n"]), (n / 2, 0, &["z\n"]), (n - 5, 2, &[])]);
        add(old.clone(), shifted.clone(), 0);
        add(shifted, old.clone(), 0);
        let less = mk(&[(1, 3, &[]), (n / 3, 1, &["z\n", "z\n"]), (n - 1, 1, &["end"])]);
        add(old.clone(), less, 1);
    }
    // many hunks / many edits far apart
    for n in [600usize, 2600] {
        let old = numbered(n);
        let mut new = old.clone();
        for i in (0..n).step_by(10) {
            new[i] = b"changed\n".to_vec();
        }
        add(old.clone(), new.clone(), 3);
        add(old, new, 0);
    }
    // so many hunks
    for n in if th { vec![255usize, 256, 257, 1024, 65537] } else { vec![255, 256, 257, 1024] } {
        let old = numbered(2 * n);
        let new: Vec<Vec<u8>> = old.iter().enumerate().map(|(i, l)| if i % 2 == 0 { b"c\n".to_vec() } else { l.clone() }).collect();
        add(old, new, 0);
    }
    // nothing in common, and dense interleavings
    for n in if th { vec![150usize, 300, 700, 1500] } else { vec![150, 300, 700] } {
        let old = numbered(n);
        let new: Vec<Vec<u8>> = (0..n).map(|i| format!("x{i}\n").into_bytes()).collect();
        add(old.clone(), new, 3);
        let new: Vec<Vec<u8>> = (0..n).map(|i| if i % 3 == 0 { format!("x{i}\n").into_bytes() } else { old[i].clone() }).collect();
        add(old.clone(), new, 0);
        let mut new = old.clone();
        new.reverse();
        add(old, new, 2);
    }
    for &n in cx.fb.sizes.iter().filter(|n| **n <= 1500) {
        let old = numbered(n);
        let new: Vec<Vec<u8>> = (0..n + 1).map(|i| format!("x{}\n", i / 2).into_bytes()).collect();
        add(old, new, 3);
    }
    // long lines
    for len in [254usize, 255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 200_000] {
        let a: Vec<u8> = (0..len).map(|i| b'a' + (i % 26) as u8).chain([b'\n']).collect();
        for p in [0, len / 2, len - 1] {
            let mut b = a.clone();
            b[p] = b'#';
            add(vec![a.clone(), b"k\n".to_vec(), b.clone()], vec![b.clone(), b"k\n".to_vec(), a.clone()], 1);
        }
        add(vec![a.clone()], vec![a[..len].to_vec()], 3);
    }
    // texts, and lines, of just so many bytes
    for n in cx.fb.bytes() {
        for k in [1usize, 40] {
            let lines = |extra: usize| -> Vec<Vec<u8>> { (0..k).map(|i| [format!("{i} ").into_bytes(), vec![b'm'; n / k + extra], b"\n".to_vec()].concat()).collect() };
            let old = lines(1);
            let mut new = old.clone();
            let l = new[k / 2].len();
            new[k / 2][l - 2] = b'#';
            add(old.clone(), new.clone(), 3);
            new.insert(k / 3, b"short\n".to_vec());
            add(new, old.clone(), 0);
            if k > 1 {
                let mut new = old.clone();
                new.swap(3, 30);
                add(old, new, 1);
            }
        }
    }
    for (x, y) in gen::collisions() {
        let t = |l: &[&[u8]]| l.iter().map(|l| [l, &b"\n"[..]].concat()).collect::<Vec<_>>();
        add(t(&[b"a", x, b"b"]), t(&[b"a", y, b"b"]), 1);
        add(t(&[x, y]), t(&[y, x]), 3);
        add(vec![x.to_vec()], vec![y.to_vec()], 0);
        add(t(&[x, b"k", y, x]), t(&[y, b"k", x]), 3);
    }
    // every peculiar line in every role at every place
    let one = |t: &[u8]| [t, b"\n"].concat();
    for tok in gen::peculiar(cx) {
        for k in [1usize, 4, 11] {
            let base: Vec<Vec<u8>> = (0..k).map(|i| format!("l{i}\n").into_bytes()).collect();
            let mut ps = vec![0, k / 2, k];
            ps.dedup();
            for (j, &p) in ps.iter().enumerate() {
                let mut with = base.clone();
                with.insert(p, one(&tok));
                let (mut repl, mut near) = (base.clone(), with.clone());
                let q = p.min(k - 1);
                repl[q] = one(&tok);
                let w = if q < p { q } else { q + 1 };
                near[w] = b"other\n".to_vec();
                let mut longer = with.clone();
                longer[p] = [&tok[..], b"x\n"].concat();
                let c = [3u64, 0, 1][(j + k) % 3];
                let cut = |v: &Vec<Vec<u8>>| {
                    let mut v = v.clone();
                    v.last_mut().unwrap().pop();
                    v
                };
                add(base.clone(), with.clone(), c);
                add(with.clone(), base.clone(), c);
                add(base.clone(), repl.clone(), c);
                add(repl, base.clone(), c);
                add(with.clone(), near, c.max(1));
                add(with.clone(), longer.clone(), c);
                add(longer, with.clone(), c);
                if p == k && !tok.is_empty() {
                    add(base.clone(), cut(&with), 3);
                    add(cut(&with), base.clone(), 3);
                    add(cut(&with), with.clone(), 3);
                    add(with.clone(), cut(&with), 1);
                }
                if p == 0 && k == 4 {
                    let mut twice = with.clone();
                    twice.insert(0, one(&tok));
                    add(with.clone(), twice.clone(), 3);
                    add(twice, with, 0);
                }
            }
        }
    }
    v
}

pub fn special_triples(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut add = |o: Vec<Vec<u8>>, a: Vec<Vec<u8>>, b: Vec<Vec<u8>>| {
        v.push(Case::new("!triple", vec![o.concat(), a.concat(), b.concat()], vec![7, 0]));
    };
    let mut big: Vec<usize> = vec![255, 256, 257, 1000, 4096, 65535, 65536, 65537];
    big.extend(cx.fb.large.iter().copied().filter(|n| *n <= 100_000).take(8));
    big.extend(cx.fb.sizes.iter().copied().take(40));
    if !th {
        big.retain(|n| *n <= 70_000);
    }
    for &n in &big {
        let o = numbered(n + 8);
        let (mut a, mut b) = (o.clone(), o.clone());
        a[2] = b"ours\n".to_vec();
        b[n / 2] = o[n].clone();
        add(o.clone(), a.clone(), b.clone());
        a[n + 1] = b"ours too\n".to_vec();
        b[n + 1] = o[1].clone();
        b.remove(n + 4);
        add(o.clone(), a.clone(), b.clone());
        // whole-length conflicts
        if n <= 1200 {
            let a: Vec<_> = (0..n).map(|i| format!("a{i}\n").into_bytes()).collect();
            let b: Vec<_> = (0..n).map(|i| format!("b{i}\n").into_bytes()).collect();
            add(vec![b"s\n".to_vec(), b"e\n".to_vec()], [vec![b"s\n".to_vec()], a, vec![b"e\n".to_vec()]].concat(), [vec![b"s\n".to_vec()], b, vec![b"e\n".to_vec()]].concat());
        }
        // many conflicts and many clean changes
        if n <= 4200 {
            let (mut a, mut b) = (o.clone(), o.clone());
            for i in (0..n).step_by(5) {
                if i % 3 != 0 {
                    a[i] = format!("a{i}\n").into_bytes();
                }
                if i % 3 != 1 {
                    b[i] = format!("b{i}\n").into_bytes();
                }
            }
            if n <= 300 || th {
                add(o.clone(), a, b);
            }
        }
    }
    // few edits, at both ends and in between, of very long texts
    for n in if th { vec![70_000usize, 140_000, 1_100_000] } else { vec![70_000] } {
        let o = numbered(n);
        let (mut a, mut b) = (o.clone(), o.clone());
        a[1] = b"x\n".to_vec();
        a.insert(n - 2, b"y\n".to_vec());
        b.remove(n / 2);
        b.insert(3, b"z\n".to_vec());
        add(o.clone(), a.clone(), b.clone());
        b[n - 3] = b"w\n".to_vec();
        b.pop();
        add(o, b, a);
    }
    // so many conflicts
    for n in [255usize, 256, 257, 512, 1024] {
        let t = |x: &str| (0..2 * n).map(|i| if i % 2 == 0 { format!("{x}{i}\n").into_bytes() } else { format!("{i}\n").into_bytes() }).collect::<Vec<_>>();
        add(t("o"), t("a"), t("b"));
    }
    for n in cx.fb.bytes() {
        for k in [1usize, 40] {
            let o: Vec<Vec<u8>> = (0..k).map(|i| [format!("{i} ").into_bytes(), vec![b'm'; n / k + 1], b"\n".to_vec()].concat()).collect();
            let (mut a, mut b) = (o.clone(), o.clone());
            let l = a[k / 2].len();
            a[k / 2][l - 2] = b'#';
            add(o.clone(), a.clone(), o.clone());
            b[k - 1][l - 4] = b'%';
            add(o.clone(), a.clone(), b.clone());
            b.insert(k / 3, b"short\n".to_vec());
            a.insert(k / 4, b"new\n".to_vec());
            add(o, a, b);
        }
    }
    for (x, y) in gen::collisions() {
        let t = |l: &[u8]| vec![b"a\n".to_vec(), [l, b"\n"].concat(), b"b\n".to_vec()];
        for (o, a, b) in [(x, y, x), (x, x, y), (x, y, b"o"), (b"o", x, y), (b"o", y, x), (x, b"o", y)] {
            add(t(o), t(a), t(b));
        }
    }
    let one = |t: &[u8]| [t, b"\n"].concat();
    for tok in gen::peculiar(cx) {
        let t = one(&tok);
        for k in [1usize, 4] {
            let o: Vec<Vec<u8>> = (0..k).map(|i| format!("l{i}\n").into_bytes()).collect();
            for p in [0, k / 2, k] {
                let mut with = o.clone();
                with.insert(p, t.clone());
                let set = |v: &Vec<Vec<u8>>, i: usize, l: &[u8]| {
                    let mut v = v.clone();
                    let i = i.min(v.len() - 1);
                    v[i] = l.to_vec();
                    v
                };
                let mut other = o.clone();
                other.insert(p, b"other\n".to_vec());
                let cut = |v: &Vec<Vec<u8>>| {
                    let mut v = v.clone();
                    v.last_mut().unwrap().pop();
                    v
                };
                let (r, x) = (set(&o, p, &t), set(&o, p, b"other\n"));
                for (a, b, c) in [
                    (&o, &with, &o),
                    (&o, &o, &with),
                    (&o, &with, &with),
                    (&o, &with, &other),
                    (&o, &other, &with),
                    (&with, &o, &with),
                    (&with, &other, &o),
                    (&with, &set(&with, p, b"other\n"), &o),
                    (&o, &r, &x),
                    (&o, &x, &r),
                    (&r, &o, &x),
                    (&with, &set(&with, p, &[&tok[..], b"x\n"].concat()), &set(&with, p, b"\n")),
                    (&o, &cut(&r), &x),
                    (&o, &x, &cut(&r)),
                ] {
                    add(a.clone(), b.clone(), c.clone());
                }
            }
        }
    }
    for len in [2u64, 6, 8, 79, 80, 81, 126, 127, 128, 254, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 4095, 4096, 4097, 10_001, 65_535, 65_536, 65_537]
        .into_iter()
        .chain(cx.fb.large.iter().take(12).flat_map(|n| [*n as u64, *n as u64 + 1]).filter(|n| *n < 300_000))
    {
        let t = |l: &[u8]| [b"a\n", l, b"\nb\n"].concat();
        v.push(Case::new("!triple", vec![t(b"o"), t(b"x"), t(b"y")], vec![len, len & 1]));
    }
    v
}
