//! M01-M06: three-way merging.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::refm::{lines, marker, merge_explained, parse_conflicts, safe_marker_len, show, Item};
use diffy::{merge, merge_bytes, ConflictStyle, MergeOptions};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "M01", gen: gen_pair_m, count: pair0_count, nth: pair0_nth, special: special_pairs, check: m01,
            rule: "pairs of an ancestor and a side; merged with the ancestor or the same side as the other side; non-trivial: the side differs from the ancestor" },
        Prop { id: "M02", gen: gen_triple, count: triple_count, nth: triple_nth, special: special_triples, check: m02,
            rule: "triples of texts; non-trivial: the merge is clean and both sides differ from the ancestor and from each other" },
        Prop { id: "M03", gen: gen_triple, count: triple_count, nth: triple_nth, special: special_triples, check: m03,
            rule: "triples of texts; non-trivial: the merge conflicts and every block was compared with the inputs" },
        Prop { id: "M04", gen: gen_script, count: script_count, nth: script_nth, special: special_scripts, check: m04,
            rule: "scripts: for each line of an ancestor with distinct lines, which side keeps it, and what each side inserts before it; non-trivial: both sides change something" },
        Prop { id: "M05", gen: gen_triple, count: triple_count, nth: triple_nth, special: special_triples, check: m05,
            rule: "triples of texts and a marker length; non-trivial: the merge conflicts and the rendering was compared for several styles and lengths" },
        Prop { id: "M06", gen: gen_triple, count: triple_count, nth: triple_nth, special: special_triples, check: m06,
            rule: "triples of texts; non-trivial: both sides differ from the ancestor and from each other" },
    ]
}

type MR = Result<Vec<u8>, Vec<u8>>;

pub fn mopts(len: usize, diff3: bool) -> MergeOptions {
    let mut o = MergeOptions::new();
    o.set_conflict_marker_length(len).set_conflict_style(if diff3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
    o
}

/// merge results through both interfaces
fn run(o: &[u8], a: &[u8], b: &[u8], len: usize, diff3: bool) -> Result<Vec<(&'static str, MR)>, String> {
    let f = |o: &[u8], a: &[u8], b: &[u8]| if len == 7 && diff3 { merge_bytes(o, a, b) } else { mopts(len, diff3).merge_bytes(o, a, b) };
    let mut v = vec![("merge_bytes", guarded("merge_bytes", || f(o, a, b))?)];
    if let (Some(o), Some(a), Some(b)) = (s(o), s(a), s(b)) {
        let r = guarded("merge", || if len == 7 && diff3 { merge(o, a, b) } else { mopts(len, diff3).merge(o, a, b) })?;
        v.push(("merge", r.map(String::into_bytes).map_err(String::into_bytes)));
    }
    Ok(v)
}

fn three(c: &Case) -> (&[u8], &[u8], &[u8]) {
    (&c.t[0], &c.t[1], &c.t[2])
}

fn gen_pair_m(rng: &mut Rng, cx: &Ctx) -> Case {
    gen_pair(rng, cx)
}

fn brief(r: &MR) -> String {
    match r {
        Ok(x) => format!("clean {:?}", show(x)),
        Err(x) => format!("conflict {:?}", show(x)),
    }
}

fn m01(c: &Case, o: &mut Obs) -> R {
    let (a, x) = (&c.t[0], &c.t[1]);
    o.nontrivial = a != x;
    let small = c.size() < 5000;
    for (len, d3) in [(7usize, true), (7, false), (0, true)] {
        if !small && len == 0 {
            continue;
        }
        for (what, o1, s1, s2) in [("theirs changed", a, a, x), ("ours changed", a, x, a), ("both the same", a, x, x)] {
            for (w, r) in run(o1, s1, s2, len, d3)? {
                o.add("merges", 1);
                ensure!(r.as_ref() == Ok(x), "{w}, {what}: {} instead of clean {:?}", brief(&r), show(x));
            }
        }
    }
    Ok(())
}

fn differ(o: &[u8], a: &[u8], b: &[u8]) -> bool {
    o != a && o != b && a != b
}

fn m02(c: &Case, obs: &mut Obs) -> R {
    let (o, a, b) = three(c);
    for (w, r) in run(o, a, b, 7, true)? {
        let Ok(out) = &r else {
            obs.add("conflicts", 1);
            continue;
        };
        obs.add("clean merges", 1);
        obs.nontrivial |= differ(o, a, b);
        let items: Vec<Item> = lines(out).into_iter().map(|l| Item::Line(l.to_vec())).collect();
        match merge_explained(o, a, b, &items) {
            Some(true) => obs.add("clean merges explained", 1),
            Some(false) => return Err(format!("{w}: the clean result {:?} cannot be split into sections that each take the changed or agreed side", show(out))),
            None => obs.add("undecided within budget", 1),
        }
    }
    Ok(())
}

fn m03(c: &Case, obs: &mut Obs) -> R {
    let (o, a, b) = three(c);
    let len = safe_marker_len(&[o, a, b], 7);
    for (w, r) in run(o, a, b, len, true)? {
        let Err(out) = &r else {
            obs.add("clean merges", 1);
            continue;
        };
        obs.add("conflicting merges", 1);
        let items = parse_conflicts(out, len, true).map_err(|e| format!("{w}: {e}: {:?}", show(out)))?;
        let n = items.iter().filter(|i| matches!(i, Item::Conflict(..))).count();
        ensure!(n > 0, "{w}: reported a conflict but shows no conflict block: {:?}", show(out));
        obs.add("conflict blocks", n);
        obs.nontrivial = true;
        match merge_explained(o, a, b, &items) {
            Some(true) => obs.add("conflicting merges explained", 1),
            Some(false) => {
                return Err(format!("{w}: the blocks do not show the competing texts of one section, or the text around them is not merged: {:?}", show(out)))
            }
            None => obs.add("undecided within budget", 1),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M04
/// n[i]: bit 0 ours deletes line i, bit 1 theirs deletes it, bits 2-3 what ours inserts before it, bits 4-5 theirs.
/// The last element stands for the end of the text. t[0]: naming style, optionally followed by '-' (no final newline).
pub fn line_name(style: u8, i: usize) -> Vec<u8> {
    match style {
        b'1' => format!("same prefix same prefix {:05}", i).into_bytes(),
        b'2' => [vec![b'x'; 70], format!("{i}").into_bytes(), vec![b'x'; 70]].concat(),
        b'3' => format!("é{}日本\u{2028}", i).into_bytes(),
        b'4' => [b"<<<<<<< ours ", format!("{i}").as_bytes()].concat(),
        b'5' => vec![b' '; i % 300 + 1].into_iter().chain(vec![b'\t'; i / 300]).collect(),
        b'6' => {
            // permutations of one multiset of characters
            let mut v: Vec<u8> = b"abcdefghij".to_vec();
            let mut k = i;
            for p in (1..v.len()).rev() {
                v.swap(p, k % (p + 1));
                k /= p + 1;
            }
            v
        }
        b'7' => [&[0xff, 0xfe, 0xc3][..], format!("{i}").as_bytes()].concat(),
        b'8' => format!("{i}\r").into_bytes(),
        _ => format!("L{i}").into_bytes(),
    }
}
fn ins_name(style: u8, gap: usize, k: usize, j: usize) -> Vec<u8> {
    let mut v = line_name(style, gap);
    v.extend(format!("+{k}.{j}").bytes());
    v
}

fn build(c: &Case) -> ([Vec<u8>; 3], Vec<Item>) {
    let style = c.t[0].first().copied().unwrap_or(b'0');
    let nonl = c.t[0].get(1) == Some(&b'-');
    let (mut o, mut a, mut b): (Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) = Default::default();
    let mut items = Vec::new();
    let (mut ro, mut ra, mut rb): (Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>) = Default::default();
    fn flush(ro: &mut Vec<Vec<u8>>, ra: &mut Vec<Vec<u8>>, rb: &mut Vec<Vec<u8>>, items: &mut Vec<Item>) {
        let (o, a, b) = (std::mem::take(ro), std::mem::take(ra), std::mem::take(rb));
        let pick = if a == b || b == o { a } else if a == o { b } else {
            items.push(Item::Conflict(a, Some(o), b));
            return;
        };
        items.extend(pick.into_iter().map(Item::Line));
    }
    let last = c.n.len().saturating_sub(1);
    let mut tail_stable = false;
    for (i, code) in c.n.iter().enumerate() {
        for (sh, t, r) in [(2, &mut a, &mut ra), (4, &mut b, &mut rb)] {
            let k = (code >> sh & 3) as usize;
            if k > 0 {
                for j in 0..=(k == 3) as usize {
                    let l = [ins_name(style, i, k, j), b"\n".to_vec()].concat();
                    t.push(l.clone());
                    r.push(l);
                    tail_stable = false;
                }
            }
        }
        if i == last {
            break;
        }
        let l = [line_name(style, i), b"\n".to_vec()].concat();
        o.push(l.clone());
        let (ka, kb) = (code & 1 == 0, code & 2 == 0);
        if ka {
            a.push(l.clone());
        }
        if kb {
            b.push(l.clone());
        }
        tail_stable = ka && kb;
        if ka && kb {
            flush(&mut ro, &mut ra, &mut rb, &mut items);
            items.push(Item::Line(l));
        } else {
            ro.push(l.clone());
            if ka {
                ra.push(l.clone());
            }
            if kb {
                rb.push(l);
            }
        }
    }
    flush(&mut ro, &mut ra, &mut rb, &mut items);
    let (mut o, mut a, mut b) = (o.concat(), a.concat(), b.concat());
    if nonl && tail_stable {
        o.pop();
        a.pop();
        b.pop();
        if let Some(Item::Line(l)) = items.last_mut() {
            l.pop();
        }
    }
    ([o, a, b], items)
}

pub fn render_items(items: &[Item], len: usize, diff3: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for i in items {
        match i {
            Item::Line(l) => v.extend_from_slice(l),
            Item::Conflict(a, o, b) => {
                v.extend(marker(b'<', len, "ours"));
                v.extend(a.concat());
                if diff3 {
                    v.extend(marker(b'|', len, "original"));
                    v.extend(o.as_ref().map(|o| o.concat()).unwrap_or_default());
                }
                v.extend(marker(b'=', len, ""));
                v.extend(b.concat());
                v.extend(marker(b'>', len, "theirs"));
            }
        }
    }
    v
}

fn gen_script(rng: &mut Rng, cx: &Ctx) -> Case {
    let n = match rng.below(20) {
        0..=12 => rng.range(1, 7),
        13..=18 => rng.range(1, 40),
        _ => gen::size(rng, cx.fb),
    };
    let density = *rng.pick(&[1usize, 2, 4, 8, 20]);
    let mut v = Vec::new();
    for _ in 0..=n {
        let mut c = 0u64;
        if rng.chance(1, density) {
            c = match rng.below(8) {
                0 => 1,
                1 => 2,
                2 => 3,
                3 => (rng.below(4) as u64) << 2,
                4 => (rng.below(4) as u64) << 4,
                5 => {
                    let k = rng.below(4) as u64;
                    k << 2 | k << 4
                }
                6 => {
                    let k = rng.below(4) as u64;
                    3 | k << 2 | k << 4
                }
                _ => rng.below(64) as u64,
            };
        }
        v.push(c);
    }
    let mut t = vec![*rng.pick(b"012345678")];
    if rng.chance(1, 4) {
        t.push(b'-');
    }
    Case::new("script", vec![t], v)
}

/// all scripts over up to two (three) lines with every combination of keeping, deleting and inserting
fn codes() -> &'static Vec<u64> {
    static C: OnceLock<Vec<u64>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        for d in 0..4u64 {
            for (a, b) in [(0u64, 0u64), (1, 0), (0, 1), (1, 1), (1, 2), (3, 1)] {
                v.push(d | a << 2 | b << 4);
            }
        }
        v
    })
}
fn script_count(th: bool) -> u64 {
    let n = codes().len() as u64;
    n + n * n + n * n * n + if th { n * n * n * n } else { 0 } + 4u64.pow(8)
}
fn script_nth(_: bool, mut i: u64) -> Case {
    let cs = codes();
    let n = cs.len() as u64;
    // pure keep/delete patterns over eight lines
    if i < 4u64.pow(8) {
        let v: Vec<u64> = (0..8).map(|k| i >> (2 * k) & 3).chain([0]).collect();
        return Case::new("script", vec![b"0".to_vec()], v);
    }
    i -= 4u64.pow(8);
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut v = Vec::new();
    for _ in 0..len {
        v.push(cs[(i % n) as usize]);
        i /= n;
    }
    Case::new("script", vec![b"0".to_vec()], v)
}

fn special_scripts(_: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut ns = vec![100usize, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537];
    ns.extend(cx.fb.sizes.iter().copied().take(60));
    ns.extend(cx.fb.large.iter().copied().filter(|n| *n < 150_000).take(8));
    for &n in &ns {
        let mut add = |edits: &[(usize, u64)]| {
            let mut c = vec![0u64; n + 1];
            for (i, k) in edits {
                c[(*i).min(n)] = *k;
            }
            v.push(Case::new("!script", vec![b"0".to_vec()], c));
        };
        add(&[(0, 1), (n - 1, 2)]);
        add(&[(0, 4), (n, 16)]);
        add(&[(n / 2, 1), (n / 2 + 1, 2)]);
        add(&[(1, 3), (n / 3, 0b100100), (n - 2, 5), (n / 2, 2)]);
        if n <= 5000 {
            let e: Vec<(usize, u64)> = (0..n).step_by(4).map(|i| (i, [1u64, 2, 3, 4, 16, 0b100100][i / 4 % 6])).collect();
            add(&e);
            // one side deletes everything, the other inserts in the middle
            let mut e: Vec<(usize, u64)> = (0..n.min(1500)).map(|i| (i, 1u64)).collect();
            add(&e);
            e[n.min(1500) / 2].1 = 1 | 16;
            add(&e);
        }
    }
    v
}

fn m04(c: &Case, obs: &mut Obs) -> R {
    let ([o, a, b], items) = build(c);
    obs.nontrivial = o != a && o != b;
    let conflicts = items.iter().filter(|i| matches!(i, Item::Conflict(..))).count();
    let text = render_items(&items, 7, true);
    let want: MR = if conflicts > 0 { Err(text) } else { Ok(text) };
    obs.add("expected conflict blocks", conflicts);
    obs.add(if conflicts > 0 { "conflicting merges compared" } else { "clean merges compared" }, 1);
    for (w, r) in run(&o, &a, &b, 7, true)? {
        ensure!(
            r == want,
            "{w}({:?}, {:?}, {:?}): {} instead of {}",
            show(&o), show(&a), show(&b), brief(&r), brief(&want)
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ M05
fn m05(c: &Case, obs: &mut Obs) -> R {
    let (o, a, b) = three(c);
    let safe = safe_marker_len(&[o, a, b], 7);
    let base = run(o, a, b, safe, true)?;
    let n = c.n.first().copied().unwrap_or(7) as usize;
    let mut cfgs: Vec<(usize, bool)> = vec![(7, true), (7, false), (n, true), (n, false), (safe, false)];
    if c.size() < 2000 {
        cfgs.extend([(0, true), (0, false), (1, false), (40, true)]);
    }
    cfgs.dedup();
    for (i, (w, r0)) in base.iter().enumerate() {
        let items = match r0 {
            Ok(_) => None,
            Err(out) => {
                obs.nontrivial = true;
                let items = parse_conflicts(out, safe, true).map_err(|e| format!("{w} with marker length {safe}: {e}: {:?}", show(out)))?;
                Some(items)
            }
        };
        let huge: &[_] = if items.is_none() && c.size() < 20_000 { &[(usize::MAX, true), (isize::MAX as usize, false)] } else { &[] };
        for &(len, d3) in cfgs.iter().chain(huge) {
            let got = &run(o, a, b, len, d3)?[i].1;
            obs.add("option settings compared", 1);
            let want: MR = match &items {
                None => r0.clone(),
                Some(it) => Err(render_items(it, len, d3)),
            };
            ensure!(
                *got == want,
                "{w} with marker length {len} and {} style: {} instead of {}",
                if d3 { "three-section" } else { "two-section" },
                brief(got),
                brief(&want)
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ M06
fn m06(c: &Case, obs: &mut Obs) -> R {
    let (o, a, b) = three(c);
    let len = safe_marker_len(&[o, a, b], 7);
    obs.nontrivial = differ(o, a, b);
    for ((w, x), (_, y)) in run(o, a, b, len, true)?.into_iter().zip(run(o, b, a, len, true)?) {
        obs.add(if x.is_ok() { "clean merges mirrored" } else { "conflicting merges mirrored" }, 1);
        let ok = match (&x, &y) {
            (Ok(p), Ok(q)) => p == q,
            (Err(p), Err(q)) => {
                let parse = |t: &[u8]| parse_conflicts(t, len, true).map_err(|e| format!("{w}: {e}: {:?}", show(t)));
                let swapped: Vec<Item> = parse(q)?
                    .into_iter()
                    .map(|i| match i {
                        Item::Conflict(a, o, b) => Item::Conflict(b, o, a),
                        i => i,
                    })
                    .collect();
                parse(p)? == swapped
            }
            _ => false,
        };
        ensure!(ok, "{w}: {} but with the sides exchanged {}", brief(&x), brief(&y));
    }
    Ok(())
}
