//! S01-S05: parity of the interfaces, robustness, determinism, cost, interoperation.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::mon;
use crate::refm::{distance, lines, show};
use crate::rng::{hash_bytes, mix};
use diffy::{apply, apply_bytes, create_patch, create_patch_bytes, ConflictStyle, MergeOptions, Patch};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "S01", gen: gen_s01, count: none_count, nth: none_nth, special: special_s01, check: s01,
            rule: "valid UTF-8 inputs of every kind (pairs with names and context length, patch texts, texts to patch, merge triples) run through both interfaces; non-trivial: a patch with a hunk, an accepted patch text, a successful application or a merge of differing sides was compared" },
        Prop { id: "S02", gen: gen_s02, count: none_count, nth: none_nth, special: special_s02, check: s02,
            rule: "hostile patch texts, texts, option values and merge triples; every public operation is called on every value obtained; non-trivial: at least one operation beyond rejecting the input was reached" },
        Prop { id: "S03", gen: gen_s03, count: none_count, nth: none_nth, special: special_s03, check: s03,
            rule: "batches of inputs whose results are digested in order, in reverse, in reused buffers, with reused option objects, by four threads at once on shared objects, in fresh threads and (some) in two fresh processes; non-trivial: the batch has at least two different digests" },
        Prop { id: "S04", gen: gen_s04, count: none_count, nth: none_nth, special: special_s04, check: s04,
            rule: "small and large, ordinary and adversarial inputs, run on a 256 KiB stack with edge and allocation counters; non-trivial: the measured call executed at least 1000 edges" },
        Prop { id: "S05", gen: gen_s05, count: none_count, nth: none_nth, special: special_s05, check: s05,
            rule: "pairs of texts and a context length, sent through GNU patch, git apply, GNU diff and git diff; non-trivial: at least one tool run whose outcome was compared" },
    ]
}

// ------------------------------------------------------------------ S01
fn gen_s01(rng: &mut Rng, cx: &Ctx) -> Case {
    let u = Ctx { fb: cx.fb, utf8: true, max_lines: cx.max_lines };
    match rng.below(10) {
        0..=2 => {
            let (a, b) = gen::pair(rng, &u);
            Case::new("pair", vec![a, b, gen::name(rng, &u), gen::name(rng, &u)], vec![gen::context_len(rng, &u), rng.below(2) as u64])
        }
        3..=5 => {
            let t = if rng.chance(1, 3) {
                super::patch::soup(rng, &u)
            } else {
                let m = gen::patch_model(rng, &u);
                gen::patch_text(rng, cx, &m)
            };
            let mut t = String::from_utf8_lossy(&t).into_owned();
            if rng.chance(1, 3) && !t.is_empty() {
                // one character changed
                let cs: Vec<char> = t.chars().collect();
                let i = rng.below(cs.len());
                t = cs[..i].iter().chain([rng.pick(&['\n', '\r', '"', '\\', '@', ' ', 'é', '\t', '-', '+', '0'])]).chain(&cs[i + rng.below(2)..]).collect();
            }
            Case::new("text", vec![t.into_bytes()], vec![])
        }
        6..=7 => {
            let c = super::apply::gen_apply(rng, &u);
            let t = c.t.into_iter().map(|t| String::from_utf8_lossy(&t).into_owned().into_bytes()).collect();
            Case::new("apply", t, vec![])
        }
        _ => {
            let (o, a, b) = gen::triple(rng, &u);
            Case::new("triple", vec![o, a, b], vec![rng.below(12) as u64, rng.below(2) as u64])
        }
    }
}

/// a small patch with one peculiar character put in, or in place of another, at every position
pub fn one_character(th: bool) -> Vec<Vec<u8>> {
    let mut cs: Vec<char> = "\0\u{1}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{1a}\u{1b} \"'#*+,-/0179:;<=>?@ACa\\_`|~\u{7f}\u{85}\u{a0}é\u{301}\u{200b}\u{200e}\u{2028}\u{2029}\u{feff}\u{fffd}\u{fffe}\u{1f600}".chars().collect();
    if th {
        cs.extend((33..127u8).map(char::from));
        cs.extend("\u{80}\u{9f}\u{ad}\u{130}\u{131}\u{660}\u{1680}\u{180e}\u{2000}\u{202e}\u{2060}\u{2212}\u{3000}\u{d7ff}\u{e000}\u{ff0b}\u{ff10}\u{ffff}\u{10ffff}".chars());
    }
    let base: Vec<Vec<char>> = [
        "--- a\tx\n+++ \"b\\t\"\n@@ -1,3 +1,3 @@ f\n a\n-b\n+c\n d\n\\ No newline at end of file\n@@ -9 +9,2 @@\n e\n+f\n",
        "diff\n--- a\n+++ b\n@@ -0,0 +1 @@\n+a\n",
        "@@ -1 +1 @@\n-a\n\\ No newline at end of file\n+a\n",
    ]
    .iter()
    .map(|t| t.chars().collect())
    .collect();
    let mut v = Vec::new();
    for t in &base {
        for p in 0..=t.len() {
            for c in &cs {
                v.push(t[..p].iter().chain([c]).chain(&t[p..]).collect::<String>().into_bytes());
                if p < t.len() {
                    v.push(t[..p].iter().chain([c]).chain(&t[p + 1..]).collect::<String>().into_bytes());
                }
            }
        }
    }
    v
}

fn special_s01(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = super::diff::special_small(th, cx);
    v.extend(special_triples(th, cx).into_iter().filter(|c| th || c.size() < 100_000));
    v.extend(one_character(th).into_iter().map(|t| Case::new("text", vec![t], vec![])));
    // find and split positions around sizes, for both implementations of searching
    for n in (0..40usize).chain([62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 65535, 65536]).chain(cx.fb.sizes.iter().copied()) {
        for tail in ["@@ x", " @ @@ y", "@ @@", " @@"] {
            let t = format!("@@ -1 +1 @@{}{}\n-a\n+b\n", " ".repeat(n.min(300)), tail);
            v.push(Case::new("text", vec![t.into_bytes()], vec![]));
        }
        let t = format!("--- {0}\t{0}\n+++ \"{0}\\t\"\n@@ -1 +1 @@ {0} @@\n-{0}\n+{0}x\n\\ No newline at end of file\n", "é".repeat(n));
        v.push(Case::new("text", vec![t.into_bytes()], vec![]));
    }
    v
}

fn s01(c: &Case, o: &mut Obs) -> R {
    let Some(t) = c.t.iter().map(|t| s(t)).collect::<Option<Vec<&str>>>() else { return Ok(()) };
    match c.tag.trim_start_matches('!') {
        "pair" => {
            let (a, b) = (t[0], t[1]);
            let (p, q) = guarded("create", || {
                let op = case_opts(c, c.n[0]);
                (op.create_patch(a, b), op.create_patch_bytes(a.as_bytes(), b.as_bytes()))
            })?;
            o.nontrivial = !p.hunks().is_empty();
            o.add("created patches compared", 1);
            ensure!(view(&p) == view(&q), "created patches differ: str {:?}, bytes {:?}", view(&p), view(&q));
            both(&p, &q, o)?;
            let (r, s) = guarded("reverse", || (p.reverse(), q.reverse()))?;
            ensure!(view(&r) == view(&s), "reversed patches differ");
            both(&r, &s, o)?;
            for (x, y) in [(a, &p), (b, &r), (b, &p)] {
                let z = if std::ptr::eq(y, &p) { &q } else { &s };
                applies(x, y, z, o)?;
            }
        }
        "text" => {
            if let Some((p, q)) = parse_both(t[0], o)? {
                both(&p, &q, o)?;
                let (r, s) = guarded("reverse", || (p.reverse(), q.reverse()))?;
                ensure!(view(&r) == view(&s), "reversed patches differ");
                o.nontrivial = true;
            }
        }
        "apply" => {
            if let Some((p, q)) = parse_both(t[1], o)? {
                applies(t[0], &p, &q, o)?;
                let (r, s) = guarded("reverse", || (p.reverse(), q.reverse()))?;
                applies(t[0], &r, &s, o)?;
            }
        }
        _ => {
            for style in [ConflictStyle::Merge, ConflictStyle::Diff3] {
                let mut m = MergeOptions::new();
                m.set_conflict_style(style).set_conflict_marker_length(c.n[0] as usize);
                let x = guarded("merge", || m.merge(t[0], t[1], t[2]))?.map(String::into_bytes).map_err(String::into_bytes);
                let y = guarded("merge_bytes", || m.merge_bytes(t[0].as_bytes(), t[1].as_bytes(), t[2].as_bytes()))?;
                o.add("merges compared", 1);
                o.nontrivial |= t[1] != t[2];
                ensure!(x == y, "merge gives {x:?}, merge_bytes {y:?}");
            }
            let x = guarded("merge", || diffy::merge(t[0], t[1], t[2]))?.map(String::into_bytes).map_err(String::into_bytes);
            let y = guarded("merge_bytes", || diffy::merge_bytes(t[0].as_bytes(), t[1].as_bytes(), t[2].as_bytes()))?;
            ensure!(x == y, "merge gives {x:?}, merge_bytes {y:?}");
        }
    }
    Ok(())
}

fn parse_both<'a>(t: &'a str, o: &mut Obs) -> Result<Option<(Patch<'a, str>, Patch<'a, [u8]>)>, String> {
    let (p, q) = guarded("parse", || (Patch::from_str(t), Patch::from_bytes(t.as_bytes())))?;
    o.add("parses compared", 1);
    match (p, q) {
        (Ok(p), Ok(q)) => {
            ensure!(view(&p) == view(&q), "from_str and from_bytes see different patches: {:?} and {:?}", view(&p), view(&q));
            o.add("accepted", 1);
            Ok(Some((p, q)))
        }
        (Err(e), Err(f)) => {
            ensure!(e.to_string() == f.to_string(), "from_str fails with {e}, from_bytes with {f}");
            Ok(None)
        }
        // octal escapes can spell a name that is no text
        (Err(_), Ok(q)) if [q.original(), q.modified()].iter().any(|n| n.is_some_and(|n| s(n).is_none())) => {
            o.add("names that only bytes can hold", 1);
            Ok(None)
        }
        (p, q) => Err(format!("from_str: {:?}, from_bytes: {:?}", p.map(|_| "accepted").map_err(|e| e.to_string()), q.map(|_| "accepted").map_err(|e| e.to_string()))),
    }
}

fn both(p: &Patch<'_, str>, q: &Patch<'_, [u8]>, o: &mut Obs) -> R {
    for i in 0..8 {
        let f = super::patch::formatter(i & 1 != 0, i & 2 != 0, i & 4 != 0);
        let (a, b, c) = guarded("format", || {
            let (mut b, mut c) = (Vec::new(), Vec::new());
            f.write_patch_into(p, &mut b).unwrap();
            f.write_patch_into(q, &mut c).unwrap();
            (f.fmt_patch(p).to_string(), b, c)
        })?;
        o.add("written forms compared", 1);
        ensure!(a.as_bytes() == &b[..] && b == c, "formatter setting {i}: Display {:?}, str writer {:?}, bytes writer {:?}", show(a.as_bytes()), show(&b), show(&c));
    }
    let (a, b, c) = guarded("format", || (p.to_string(), p.to_bytes(), q.to_bytes()))?;
    ensure!(a.as_bytes() == &b[..] && b == c, "Display {:?}, to_bytes (str) {:?}, to_bytes (bytes) {:?}", show(a.as_bytes()), show(&b), show(&c));
    Ok(())
}

fn applies(base: &str, p: &Patch<'_, str>, q: &Patch<'_, [u8]>, o: &mut Obs) -> R {
    let x = guarded("apply", || apply(base, p))?;
    let y = guarded("apply_bytes", || apply_bytes(base.as_bytes(), q))?;
    o.add("applications compared", 1);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            o.nontrivial = true;
            ensure!(x.as_bytes() == &y[..], "apply gives {:?}, apply_bytes {:?}", show(x.as_bytes()), show(&y));
        }
        (Err(e), Err(f)) => ensure!(e.to_string() == f.to_string(), "apply fails with {e}, apply_bytes with {f}"),
        (x, y) => return Err(format!("apply: {:?}, apply_bytes: {:?}", x.map_err(|e| e.to_string()), y.map(|v| show(&v)).map_err(|e| e.to_string()))),
    }
    Ok(())
}

// ------------------------------------------------------------------ S02
pub fn gen_s02(rng: &mut Rng, cx: &Ctx) -> Case {
    let text = |rng: &mut Rng| -> Vec<u8> {
        match rng.below(4) {
            0 => {
                let n = rng.geo(12);
                (0..n).map(|_| if rng.chance(1, 3) { *rng.pick(b"\n\r\t\0\\ @-+ab\"") } else { rng.below(256) as u8 }).collect()
            }
            1 => super::patch::soup(rng, cx),
            _ => gen::text(rng, cx),
        }
    };
    match rng.below(8) {
        0..=3 => {
            let t = match rng.below(4) {
                0 => super::patch::soup(rng, cx),
                1 => {
                    let m = gen::patch_model(rng, cx);
                    gen::patch_text(rng, cx, &m)
                }
                2 => super::apply::gen_apply(rng, cx).t.pop().unwrap(),
                _ => loop {
                    let m = gen::patch_model(rng, cx);
                    let k = rng.below(30);
                    if let Some(t) = super::patch::corrupt(rng, &m, k) {
                        break t;
                    }
                },
            };
            let a = text(rng);
            Case::new("text", vec![t, a], vec![])
        }
        4..=5 => {
            let (a, b) = if rng.chance(1, 3) { (text(rng), text(rng)) } else { gen::pair(rng, cx) };
            let c = *rng.pick(&[0, 1, 3, 7, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, 1 << 32]);
            Case::new("pair", vec![a, b, gen::name(rng, cx), gen::name(rng, cx)], vec![c])
        }
        _ => {
            let (o, a, b) = if rng.chance(1, 3) { (text(rng), text(rng), text(rng)) } else { gen::triple(rng, cx) };
            Case::new("triple", vec![o, a, b], vec![rng.below(300) as u64])
        }
    }
}

/// Every element of the syntax and of the texts many times over: nothing may use stack, or integers narrower than a length, per element.
pub const LONGS: u64 = 33;
fn long_s02(k: u64) -> Case {
    let n = 100_000;
    let m = 1500;
    let t = |t: String| Case::new("text", vec![t.into_bytes(), b"a\n".to_vec()], vec![]);
    let h = "@@ -1 +1 @@\n-a\n+b\n";
    let num = |a: usize, b: usize| (a..b).map(|i| format!("{i}\n")).collect::<String>().into_bytes();
    let rep = |t: &str| t.repeat(n).into_bytes();
    let some = |k: usize, x: &str| (0..n).map(|i| if i % (n / 40) == k { format!("{x}\n") } else { format!("{i}\n") }).collect::<String>().into_bytes();
    let alt = |x: &str| (0..m).map(|i| if i % 2 == 0 { format!("{x}\n") } else { format!("{i}\n") }).collect::<String>().into_bytes();
    let pair = |a: Vec<u8>, b: Vec<u8>| Case::new("pair", vec![a, b, b"a".to_vec(), b"b".to_vec()], vec![3]);
    let triple = |o: Vec<u8>, a: Vec<u8>, b: Vec<u8>| Case::new("triple", vec![o, a, b], vec![7]);
    match k {
        0 => t(format!("{}{h}", "junk\n".repeat(n))),
        1 => t(format!("{}--- a\n+++ b\n{h}", "\n".repeat(n))),
        2 => t("--- a\n".repeat(n)),
        3 => t(format!("--- {}\n+++ \"{}\"\n{h}", "n".repeat(n), "\\n".repeat(n))),
        4 => t(format!("@@ -1,{n} +1,{n} @@\n{}", " a\n".repeat(n))),
        5 => t(format!("@@ -1,{n} +1,{n} @@\n{}", "\n".repeat(n))),
        6 => t(format!("@@ -1,{n} +0,0 @@\n{}", "-a\n".repeat(n))),
        7 => t(format!("@@ -1,{n} +1,{n} @@\n{}", "-a\n+b\n".repeat(n))),
        8 => t((1..=n).map(|i| format!("@@ -{i} +{i} @@\n-a\n+b\n")).collect()),
        9 => t("@@ -0,0 +0,0 @@\n".repeat(n)),
        10 => t(format!("@@ -1 +1 @@ {}\n-a\n+b\n", " @@".repeat(n))),
        11 => t(format!("@@ -1 +1 @@\n-a\n{}+b\n", "\\ No newline at end of file\n".repeat(n))),
        12 => t(format!("@@ -1{} +1 @@\n-a\n+b\n", "0".repeat(n))),
        13 => t(format!("@@ -{}1 +1 @@\n-a\n+b\n", "0".repeat(n))),
        14 => t(format!("@@ -1 +1 @@\n-{}\n+b\n", "x".repeat(n))),
        15 => pair(num(0, n), num(0, n)),
        16 => pair(vec![], num(0, n)),
        17 => pair(num(0, n), vec![]),
        18 => pair(num(0, n), num(10, n + 10)),
        19 => pair(rep("a\n"), [rep("a\n"), b"a\n".to_vec()].concat()),
        20 => pair(rep("x"), rep("y")),
        21 => pair(num(0, n), some(7, "x")),
        22 => pair(num(0, m), alt("x")),
        23 => triple(num(0, n), num(0, n), num(0, n)),
        24 => triple(vec![], num(0, n), num(0, n)),
        25 => triple(num(0, n), vec![], some(7, "x")),
        26 => triple(num(0, n), num(10, n + 10), num(0, n)),
        27 => triple(rep("a\n"), [rep("a\n"), b"a\n".to_vec()].concat(), rep("a\n")),
        28 => triple(rep("x"), rep("y"), rep("z")),
        29 => triple(num(0, n), some(7, "x"), some(9, "y")),
        30 => triple(num(0, n), some(7, "x"), some(7, "y")),
        31 => triple(num(0, m), alt("x"), alt("y")),
        _ => triple(num(0, m), alt("x"), num(1, m + 1)),
    }
}

pub fn special_s02(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = (0..LONGS).map(|k| Case::new("long", vec![], vec![k])).collect();
    v.extend(super::patch::quoted_names().into_iter().map(|t| Case::new("text", vec![t, b"a\n".to_vec()], vec![])));
    v.extend(one_character(th).into_iter().map(|t| Case::new("text", vec![t, b"a\nb\nd".to_vec()], vec![])));
    v.extend(super::diff::special_small(th, cx).into_iter().filter(|c| c.size() < 60_000));
    let nums = ["0", "1", "2", "18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967296"];
    for a in nums {
        for b in ["0", "1", "2", "18446744073709551615", "9223372036854775808"] {
            for body in ["", "-a\n+b\n", " a\n", "+a\n", "-a\n"] {
                for two in [false, true] {
                    let mut t = format!("@@ -{a},{b} +{a},{b} @@\n{body}@@ -{a} +{a} @@\n-x\n+y\n");
                    if two {
                        t = format!("@@ -0,0 +{a},{} @@\n{body}@@ -{a},0 +{b} @@\n+y\n", body.matches('+').count());
                    }
                    v.push(Case::new("text", vec![t.into_bytes(), b"a\nx\na\n".to_vec()], vec![]));
                }
            }
            // alone, with matching counts
            for body in ["+y\n", "-a\n", "-a\n+y\n", ""] {
                let (o, n) = (body.matches('-').count(), body.matches('+').count());
                let t = format!("@@ -{a},{o} +{b},{n} @@\n{body}");
                v.push(Case::new("text", vec![t.clone().into_bytes(), b"a\nx\na\n".to_vec()], vec![]));
                v.push(Case::new("text", vec![t.into_bytes(), vec![]], vec![]));
            }
        }
    }
    v
}

/// every operation on a patch
fn exercise<'a, T>(p: &Patch<'a, T>, o: &mut Obs)
where
    T: AsRef<[u8]> + ToOwned + ?Sized + PartialEq + std::fmt::Debug,
    T::Owned: PartialEq + std::fmt::Debug + std::borrow::Borrow<T>,
{
    let big = p.hunks().iter().map(|h| h.lines().len()).sum::<usize>() > 3000;
    if !big {
        let _ = if cfg!(miri) { format!("{p:?}") } else { format!("{p:?} {p:#?}") };
    }
    let q = p.clone();
    let _ = q == *p;
    let r = p.reverse();
    let _ = r.reverse() == *p;
    let _ = view(&r);
    for h in p.hunks().iter().chain(r.hunks()) {
        for g in [h.old_range(), h.new_range()] {
            let _ = (g.start(), g.end(), g.len(), g.is_empty(), g.range(), g.to_string());
        }
        let _ = (h.reverse(), h.clone(), h.function_context().is_some());
        for l in h.lines() {
            let _ = l.reverse();
        }
    }
    let _ = (p.to_bytes(), r.to_bytes());
    for i in if cfg!(miri) { 6..8 } else { 0..8 } {
        let mut w = Vec::new();
        let _ = super::patch::formatter(i & 1 != 0, i & 2 != 0, i & 4 != 0).write_patch_into(p, &mut w);
        // the writer runs full
        let n = w.len() * (i as usize + 1) / 9;
        let _ = super::patch::formatter(i & 1 != 0, i & 2 != 0, i & 4 != 0).write_patch_into(p, &mut w[..n]).map_err(|e| e.to_string());
    }
    o.add("patches exercised", 1);
    o.nontrivial = true;
}

/// a sink with room for so many bytes
struct Full(usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(t.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

pub fn s02(c: &Case, o: &mut Obs) -> R {
    if c.tag == "long" {
        return s02(&long_s02(c.n.first().map_or(0, |k| *k)), o);
    }
    let t: Vec<&[u8]> = c.t.iter().map(|t| &t[..]).collect();
    match c.tag.trim_start_matches('!') {
        "text" => {
            o.add("texts parsed", 1);
            guarded("the byte interface on a patch text", || match Patch::from_bytes(t[0]) {
                Ok(p) => {
                    exercise(&p, o);
                    for b in [t[1], if t[0].len() < 20_000 { t[0] } else { b"b\n" }, b"", b"a\nb\nc\n"] {
                        let _ = apply_bytes(b, &p).map_err(|e| format!("{e} {e:?}"));
                        let _ = apply_bytes(b, &p.reverse()).map_err(|e| format!("{e} {e:?}"));
                        o.add("applications", 2);
                    }
                }
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    o.add("rejected texts", 1);
                }
            })?;
            if let (Some(a), Some(b)) = (s(t[0]), s(t[1])) {
                guarded("the str interface on a patch text", || match Patch::from_str(a) {
                    Ok(p) => {
                        exercise(&p, o);
                        let _ = format!("{p}");
                        let f = super::patch::formatter(true, true, true);
                        let _ = std::fmt::Write::write_fmt(&mut Full(a.len() / 2), format_args!("{p}{}", f.fmt_patch(&p)));
                        for b in [b, if a.len() < 20_000 { a } else { "b\n" }, "", "a\nb\nc\n"] {
                            let _ = apply(b, &p).map_err(|e| e.to_string());
                            let _ = apply(b, &p.reverse()).map_err(|e| e.to_string());
                        }
                    }
                    Err(e) => {
                        let _ = format!("{e} {e:?}");
                    }
                })?;
            }
        }
        "pair" => {
            let cc = c.n[0];
            guarded("the byte interface on two texts", || {
                let p = case_opts(c, cc).create_patch_bytes(t[0], t[1]);
                if c.size() < 20_000 {
                    exercise(&p, o);
                }
                let _ = (apply_bytes(t[0], &p), apply_bytes(t[1], &p), apply_bytes(t[1], &p.reverse()), apply_bytes(b"", &p));
                o.nontrivial = true;
            })?;
            if let (Some(a), Some(b)) = (s(t[0]), s(t[1])) {
                guarded("the str interface on two texts", || {
                    let p = case_opts(c, cc).create_patch(a, b);
                    if c.size() < 20_000 {
                        exercise(&p, o);
                    }
                    let _ = (apply(a, &p), apply(b, &p), apply(b, &p.reverse()), apply("", &p));
                })?;
            }
        }
        _ => {
            for style in [ConflictStyle::Merge, ConflictStyle::Diff3] {
                let mut m = MergeOptions::new();
                m.set_conflict_style(style).set_conflict_marker_length(if cfg!(miri) { c.n[0] % 12 } else { c.n[0] } as usize);
                // a merge without conflicts has no use for the length, however large
                let huge: &[usize] = &[usize::MAX, usize::MAX / 2, usize::MAX / 4 - 9, isize::MAX as usize - 8];
                if guarded("merge_bytes", || m.merge_bytes(t[0], t[1], t[2]))?.is_ok() && c.size() < 20_000 {
                    for &n in huge {
                        m.set_conflict_marker_length(n);
                        guarded("merge_bytes", || m.merge_bytes(t[0], t[1], t[2]))?.ok();
                    }
                }
                m.set_conflict_marker_length(if cfg!(miri) { 7 } else { c.n[0] } as usize);
                if let (Some(a), Some(b), Some(d)) = (s(t[0]), s(t[1]), s(t[2])) {
                    if guarded("merge", || m.merge(a, b, d))?.is_ok() && c.size() < 20_000 {
                        for &n in huge {
                            m.set_conflict_marker_length(n);
                            guarded("merge", || m.merge(a, b, d))?.ok();
                        }
                        o.add("clean merges with huge marker lengths", 1);
                    }
                }
                o.add("merges", 1);
                o.nontrivial = true;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S03
/// batch: t = 3 k texts
pub fn gen_s03(rng: &mut Rng, cx: &Ctx) -> Case {
    let small = Ctx { fb: cx.fb, utf8: cx.utf8, max_lines: 25 };
    let mut t: Vec<Vec<u8>> = Vec::new();
    for _ in 0..rng.range(2, 6) {
        if !t.is_empty() && rng.chance(1, 3) {
            // same sizes as an earlier input, other contents
            let i = rng.below(t.len() / 3) * 3;
            for k in 0..3 {
                let mut x = t[i + k].clone();
                for b in x.iter_mut() {
                    if b.is_ascii_alphanumeric() && rng.chance(1, 8) {
                        *b = *rng.pick(b"abcdexyz");
                    }
                }
                t.push(x);
            }
            continue;
        }
        let (o, a, b) = gen::triple(rng, &small);
        let third = match rng.below(3) {
            0 => {
                let m = gen::patch_model(rng, &small);
                gen::patch_text(rng, cx, &m)
            }
            _ => b,
        };
        t.extend([o, a, third]);
    }
    Case::new("batch", t, vec![rng.below(6) as u64, rng.chance(1, 60) as u64])
}

/// Batches of larger inputs: state kept for large inputs, or for the next input of the same size, must not show.
fn special_s03(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let top = if th { 60_000 } else { 15_000 };
    let worth = |c: &Case| c.size() > 1500 && c.size() < top && c.t.iter().all(|t| t.len() < top / 2);
    let altered = |t: &[Vec<u8>], step: usize| -> Vec<Vec<u8>> {
        t.iter()
            .map(|x| {
                let mut x = x.clone();
                for b in x.iter_mut().skip(step / 2).step_by(step) {
                    if b.is_ascii_alphanumeric() {
                        *b = if *b == b'q' { b'z' } else { b'q' };
                    }
                }
                x
            })
            .collect()
    };
    for (i, c) in special_triples(th, cx).into_iter().filter(worth).enumerate() {
        let small: Vec<Vec<u8>> = CANARIES[i % 3].iter().map(|x| x.as_bytes().to_vec()).collect();
        let t = match i % 3 {
            0 => [c.t.clone(), altered(&c.t, 7), small].concat(),
            1 => [small, c.t.clone(), altered(&c.t, 101)].concat(),
            _ => [altered(&c.t, 23), small, c.t.clone()].concat(),
        };
        v.push(Case::new("batch", t, vec![[3, 0, 1, 5][i % 4], (i % 20 == 7) as u64]));
    }
    for (i, c) in special_pairs(th, cx).into_iter().filter(worth).enumerate() {
        let p = opts([0, 3][i % 2]).create_patch_bytes(&c.t[0], &c.t[1]).to_bytes();
        let t = vec![c.t[0].clone(), c.t[1].clone(), p];
        v.push(Case::new("batch", [altered(&t[..2], 11), vec![c.t[0].clone()], t].concat(), vec![[0, 3, 2][i % 3], (i % 20 == 7) as u64]));
    }
    // texts of so many lines with few changes, one after another and with another text of the same size in between
    let mut ns = vec![40usize, 64, 65, 100, 128, 129, 256, 257, 512, 513, 1000, 1024, 1025];
    ns.extend(cx.fb.sizes.iter().filter(|n| **n > 20 && **n < if th { 5000 } else { 1200 }).map(|n| n + 1).take(20));
    ns.sort();
    ns.dedup();
    for (i, &n) in ns.iter().enumerate() {
        let o = numbered(n);
        let (mut a, mut b) = (o.clone(), o.clone());
        a[n / 3] = b"ours\n".to_vec();
        b[n / 3 + [0, 1, 2, 5][i % 4]] = b"theirs\n".to_vec();
        a.remove(n - 3);
        b.insert(n / 7, b"new\n".to_vec());
        let t = vec![o.concat(), a.concat(), b.concat()];
        let p = opts(1).create_patch_bytes(&t[0], &t[1]).to_bytes();
        let other = altered(&t, t[0].len() / 4 + 1);
        let far: Vec<Vec<u8>> = t.iter().map(|x| x.iter().rev().copied().collect()).collect();
        let q = if n < 150 { vec![t[1].clone(), t[0].clone(), p] } else { vec![t[1].clone(), t[0].clone(), t[2].clone()] };
        let all = match i % 3 {
            0 => [t, other, q, far].concat(),
            1 => [other, t, far, q].concat(),
            _ => [q, far, t, other].concat(),
        };
        v.push(Case::new("batch", all, vec![[0, 3, 1, n as u64][i % 4], (i % 5 == 1) as u64]));
    }
    // what takes long to compare is of no more use than what does not
    v.retain(|c| c.t.chunks_exact(3).map(|t| diff_allowed(&t[0], &t[1]) + diff_allowed(&t[0], &t[2])).sum::<u64>() < if th { 40_000_000 } else { 12_000_000 });
    // long texts that differ in one line of the same length, each set alike in size and in both ends
    let mut ns = vec![2100usize, 3000, if th { 10_500 } else { 4200 }];
    ns.extend(cx.fb.sizes.iter().filter(|n| **n >= 1200 && **n < if th { 70_000 } else { 5000 }).map(|n| n + 1).take(6));
    ns.sort();
    ns.dedup();
    for (i, &n) in ns.iter().enumerate() {
        let with = |at: usize, l: &str| {
            let mut v = numbered(n);
            v[at] = l.as_bytes().to_vec();
            v.concat()
        };
        let m = n / 2 + i;
        // the last two repeat another line of theirs, each a different one
        let (a, b, c) = (with(m, "alpha\n"), numbered(n).concat(), with(m, &format!("{}\n", m - 9)));
        let mut d = with(m + 5, &format!("{}\n", m - 9));
        d.extend_from_slice(b"tail\n");
        let c = [c, b"tail\n".to_vec()].concat();
        let t = match i % 3 {
            0 => vec![c.clone(), a.clone(), b.clone(), d.clone(), b.clone(), a, b, c, d],
            1 => vec![d.clone(), b.clone(), a.clone(), c.clone(), b, d.clone(), a, d, c],
            _ => vec![b.clone(), a.clone(), d.clone(), c.clone(), b.clone(), d.clone(), d, b, a],
        };
        v.push(Case::new("batch", t, vec![[3, 0][i % 2], 0]));
    }
    v
}

pub fn digest(x: &[u8], y: &[u8], z: &[u8], ctx: u64) -> u64 {
    digest_at(x, y, z, x, ctx)
}

/// the same with the text to patch held somewhere else
fn digest_at(x: &[u8], y: &[u8], z: &[u8], base: &[u8], ctx: u64) -> u64 {
    let mut h = 7u64;
    let mut put = |b: &[u8]| h = mix(hash_bytes(h, b));
    fn res(r: Result<Vec<u8>, Vec<u8>>) -> Vec<u8> {
        match r {
            Ok(mut v) => {
                v.push(1);
                v
            }
            Err(mut v) => {
                v.push(2);
                v
            }
        }
    }
    for c in [0, 3, ctx] {
        let p = opts(c).create_patch_bytes(x, y);
        put(&p.to_bytes());
        put(&p.reverse().to_bytes());
        put(&res(apply_bytes(base, &p).map_err(|e| e.to_string().into_bytes())));
        put(&res(apply_bytes(z, &p).map_err(|e| e.to_string().into_bytes())));
        let mut w = Vec::new();
        super::patch::formatter(true, c == 0, c == 3).write_patch_into(&p, &mut w).unwrap();
        put(&w);
    }
    put(format!("{:?}", create_patch_bytes(x, y)).as_bytes());
    match Patch::from_bytes(z) {
        Ok(p) => {
            put(&p.to_bytes());
            put(&res(apply_bytes(base, &p).map_err(|e| e.to_string().into_bytes())));
        }
        Err(e) => put(e.to_string().as_bytes()),
    }
    put(&res(diffy::merge_bytes(x, y, z)));
    let mut m = MergeOptions::new();
    m.set_conflict_style(ConflictStyle::Merge);
    put(&res(m.merge_bytes(x, y, z)));
    if let (Some(x), Some(y), Some(z), Some(base)) = (s(x), s(y), s(z), s(base)) {
        let p = create_patch(x, y);
        put(p.to_string().as_bytes());
        put(p.reverse().to_string().as_bytes());
        put(&res(apply(base, &p).map(String::into_bytes).map_err(|e| e.to_string().into_bytes())));
        put(opts(0).create_patch(x, y).to_string().as_bytes());
        put(&res(m.merge(x, y, z).map(String::into_bytes).map_err(String::into_bytes)));
        put(&res(apply(z, &p).map(String::into_bytes).map_err(|e| e.to_string().into_bytes())));
        put(&res(diffy::merge(x, y, z).map(String::into_bytes).map_err(String::into_bytes)));
        match Patch::from_str(z) {
            Ok(p) => put(p.to_string().as_bytes()),
            Err(e) => put(e.to_string().as_bytes()),
        }
    }
    h
}

/// Lets the harness share a value between threads whatever the type promises.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Where the inputs lie in memory must not matter: overlapping, sharing their start or end, adjacent, shifted, or all apart.
fn layouts(c: &Case, i: usize, ctx: u64, o: &mut Obs) -> R {
    let (x, y, z) = (&c.t[3 * i][..], &c.t[3 * i + 1][..], &c.t[3 * i + 2][..]);
    let cut = |t: &[u8], k: u64| -> usize {
        let mut p = (mix(k) % (t.len() as u64 + 1)) as usize;
        while p < t.len() && (t[p] as i8) < -64 {
            p += 1;
        }
        p
    };
    let k = mix(c.hash() ^ i as u64);
    let t = [x, y, z][(k % 3) as usize];
    let other = [y, z, x][(k % 3) as usize];
    let (p, q) = (cut(t, k ^ 1), cut(t, k ^ 2));
    let (p, q) = (p.min(q), p.max(q));
    let all = [x, y, z].concat();
    let (l, m) = (x.len(), x.len() + y.len());
    let e = &t[t.len()..];
    // old, new, theirs, the text to patch: [whole, prefix, suffix, middle, end of one text] in every role, and parts of one buffer
    let mut ways: Vec<[&[u8]; 4]> = vec![
        [t, &t[..p], &t[..q], t],
        [&t[..p], t, &t[p..], &t[..p]],
        [&t[p..], t, &t[q..], &t[p..]],
        [t, &t[p..], &t[..q], &t[..]],
        [&t[..q], &t[p..], &t[p..q], &t[..q]],
        [t, t, t, t],
        [other, t, &t[..p], other],
        [other, &t[..p], t, other],
        [other, t, &t[p..], other],
        [other, t, t, other],
        [t, other, t, t],
        [t, t, other, &t[..q]],
        [t, e, other, t],
        [e, t, &t[..0], e],
        [&all[..l], &all[l..m], &all[m..], &all[..l]],
        [&all[..m], &all[l..], &all[..l], &all[..m]],
    ];
    let n = ways.len();
    ways.rotate_left((k >> 8) as usize % n);
    let large = c.size() > 6000;
    for (w, v) in ways.iter().take(if large { 1 } else { 4 }).chain(if k % 5 == 0 && !large { &ways[4..] } else { &[] }).enumerate() {
        let a: [Vec<u8>; 4] = [v[0].to_vec(), v[1].to_vec(), v[2].to_vec(), v[3].to_vec()];
        let apart = guarded("digest", || digest_at(&a[0], &a[1], &a[2], &a[3], ctx))?;
        o.add("results compared across memory layouts", 1);
        ensure!(
            guarded("digest", || digest_at(v[0], v[1], v[2], v[3], ctx))? == apart,
            "layout {w}: the results for {:?}, {:?}, {:?} depend on whether the inputs share memory", show(v[0]), show(v[1]), show(v[2])
        );
        let at = ((k >> 16) % 64) as usize;
        let sh: Vec<Vec<u8>> = a.iter().enumerate().map(|(j, t)| [&vec![b'\n'; at + j][..], t, b"\nx"].concat()).collect();
        let f = |j: usize| &sh[j][at + j..at + j + a[j].len()];
        ensure!(
            guarded("digest", || digest_at(f(0), f(1), f(2), f(3), ctx))? == apart,
            "layout {w}: the results for {:?}, {:?}, {:?} depend on where in memory the inputs lie", show(v[0]), show(v[1]), show(v[2])
        );
    }
    Ok(())
}

/// A writer which calls the library itself, or panics, while it is being written to.
struct Calls<'a> {
    out: Vec<u8>,
    n: u64,
    call: &'a mut dyn FnMut(u64),
}
impl std::io::Write for Calls<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        (self.call)(self.n);
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Calls<'_> {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.n += 1;
        (self.call)(self.n);
        self.out.extend_from_slice(t.as_bytes());
        Ok(())
    }
}

/// operations in the middle of another operation, and after one that was cut short by a panic of its writer
fn reentered(c: &Case, i: usize, first: &[u64], ctx: u64, o: &mut Obs) -> R {
    use std::fmt::Write as _;
    let k = c.t.len() / 3;
    let (x, y) = (&c.t[3 * i][..], &c.t[3 * i + 1][..]);
    let j = (i + 1) % k;
    let h = mix(c.hash() ^ 5);
    for colour in [false, true] {
        let f = super::patch::formatter(colour, h & 1 != 0, h & 2 != 0);
        let p = guarded("create_patch_bytes", || opts(ctx).create_patch_bytes(x, y))?;
        let mut nothing = |_| ();
        let mut w = Calls { out: Vec::new(), n: 0, call: &mut nothing };
        guarded("write_patch_into", || f.write_patch_into(&p, &mut w).unwrap())?;
        let (want, total) = (w.out, w.n.max(1));
        let mut bad = false;
        let mut inner = |n: u64| {
            // another write at every call if they are few, else at some; everything at two of them
            if total < 80 || mix(h ^ n) % total < if total < 1000 { 20 } else { 4 } {
                let mut v = Vec::new();
                f.write_patch_into(&p, &mut v).unwrap();
                bad |= v != want;
            }
            if n == 1 + h % total || n == 1 + (h >> 20) % total && total < 300 {
                bad |= digest(&c.t[3 * j], &c.t[3 * j + 1], &c.t[3 * j + 2], ctx) != first[j];
            }
        };
        let mut w = Calls { out: Vec::new(), n: 0, call: &mut inner };
        guarded("write_patch_into a writer that calls the library", || f.write_patch_into(&p, &mut w).unwrap())?;
        o.add("operations in the middle of a write", w.n.min(2) as usize);
        ensure!(w.out == want, "writing input {i}'s patch gives {:?} when the writer itself calls the library, otherwise {:?}", show(&w.out), show(&want));
        let texts = (s(x), s(y));
        if let (Some(x), Some(y)) = texts {
            let p = guarded("create_patch", || opts(ctx).create_patch(x, y))?;
            let mut w = Calls { out: Vec::new(), n: 0, call: &mut inner };
            guarded("formatting into a sink that calls the library", || write!(w, "{}", f.fmt_patch(&p)).unwrap())?;
            ensure!(w.out == want, "formatting input {i}'s patch gives {:?} when the sink itself calls the library, otherwise {:?}", show(&w.out), show(&want));
        }
        ensure!(!bad, "operations called by a writer while it is written to give other results");
        // the writer panics part of the way
        for at in [1, 1 + (h >> 8) % total, 1 + (h >> 28) % total] {
            let mut stop = |n: u64| assert!(n < at, "the writer's own panic");
            let mut w = Calls { out: Vec::new(), n: 0, call: &mut stop };
            let r = guarded("write_patch_into", || f.write_patch_into(&p, &mut w));
            o.add("writes cut short by a panic", r.is_err() as usize);
            let mut v = Vec::new();
            guarded("write_patch_into after a writer panicked", || f.write_patch_into(&p, &mut v).unwrap())?;
            ensure!(v == want, "after a writer panicked, writing the same patch gives {:?} instead of {:?}", show(&v), show(&want));
            if let (Some(x), Some(y)) = texts {
                let p = guarded("create_patch", || opts(ctx).create_patch(x, y))?;
                let mut stop = |n: u64| assert!(n < at, "the writer's own panic");
                let mut w = Calls { out: Vec::new(), n: 0, call: &mut stop };
                let _ = guarded("fmt_patch", || write!(w, "{}", f.fmt_patch(&p)));
                let v = guarded("fmt_patch after a sink panicked", || f.fmt_patch(&p).to_string())?;
                ensure!(v.as_bytes() == want, "after a sink panicked, formatting the same patch gives {:?} instead of {:?}", v, show(&want));
            }
        }
    }
    ensure!(guarded("digest", || digest(&c.t[3 * j], &c.t[3 * j + 1], &c.t[3 * j + 2], ctx))? == first[j], "after a writer panicked, the results for input {j} differ");
    Ok(())
}

const CANARIES: [[&str; 3]; 3] = [
    ["a\nb\nc\nd\n", "a\nx\nc\nd\ne", "a\nb\ny\nd\n"],
    ["", "x", "@@ -1 +1 @@\n-x\n+y\n"],
    ["1\n2\n1\n2\n1\n", "2\n1\n2\n1\n2\n", "1\n2\n2\n1\n1\n"],
];
fn canary() -> Vec<u64> {
    CANARIES.iter().map(|c| digest(c[0].as_bytes(), c[1].as_bytes(), c[2].as_bytes(), 1)).collect()
}

/// what an interpreter that detects races can afford: one pass over the operations, by two threads at once
fn s03_small(c: &Case, o: &mut Obs) -> R {
    let k = (c.t.len() / 3).min(2);
    let f = |i: usize| -> Vec<u8> {
        let (x, y, z) = (&c.t[3 * i], &c.t[3 * i + 1], &c.t[3 * i + 2]);
        let p = create_patch_bytes(x, y);
        let mut v = p.to_bytes();
        v.extend(apply_bytes(x, &p).unwrap_or_default());
        v.extend(diffy::merge_bytes(x, y, z).unwrap_or_else(|e| e));
        if let Ok(p) = Patch::from_bytes(z) {
            v.extend(apply_bytes(x, &p.reverse()).unwrap_or_default());
        }
        if let (Some(a), Some(b), Some(d)) = (s(x), s(y), s(z)) {
            let p = create_patch(a, b);
            v.extend(apply(d, &p).unwrap_or_default().bytes());
            let f = super::patch::formatter(true, false, false);
            v.extend(f.fmt_patch(&p).to_string().bytes());
            if let Ok(q) = Patch::from_str(d) {
                v.extend(q.to_string().bytes());
            }
        }
        v
    };
    let want: Vec<_> = guarded("calls", || (0..k).map(f).collect())?;
    o.nontrivial = want.iter().any(|w| !w.is_empty());
    let f = Share(f);
    let got: Vec<Vec<Vec<u8>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = [false, true]
            .into_iter()
            .map(|rev| {
                let f = &f;
                sc.spawn(move || {
                    let mut v: Vec<(usize, Vec<u8>)> = (0..k).map(|j| if rev { k - 1 - j } else { j }).map(|i| (i, f.get()(i))).collect();
                    v.sort();
                    v.into_iter().map(|x| x.1).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for g in got {
        o.add("results compared across threads under the interpreter", k);
        ensure!(g == want, "two threads computing the same results at once get other results");
    }
    Ok(())
}

pub fn s03(c: &Case, o: &mut Obs) -> R {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static FIRST: OnceLock<Vec<u64>> = OnceLock::new();
    static CALLS: AtomicU64 = AtomicU64::new(0);
    if c.tag == "!canary" {
        // replay of a dependence on the number of calls made before
        let first = guarded("digest", canary)?;
        for i in 0..c.n[0] {
            let d = guarded("digest", canary)?;
            ensure!(d == first, "after {i} repetitions the same calls give other results");
        }
        return Ok(());
    }
    if cfg!(miri) {
        return s03_small(c, o);
    }
    let k = c.t.len() / 3;
    let ctx = c.n[0];
    let at = |i: usize| (&c.t[3 * i][..], &c.t[3 * i + 1][..], &c.t[3 * i + 2][..]);
    let dig = |i: usize| {
        let (x, y, z) = at(i);
        guarded("digest", || digest(x, y, z, ctx))
    };
    let first: Vec<u64> = (0..k).map(dig).collect::<Result<_, _>>()?;
    let mut d = first.clone();
    d.sort();
    d.dedup();
    o.nontrivial = d.len() > 1;
    o.add("results digested", k);
    for i in (0..k).rev() {
        o.add("results digested again in another order", 1);
        ensure!(dig(i)? == first[i], "the results for input {i} changed when computed again after other inputs");
    }
    // the same buffers reused for every input
    let cap = c.t.iter().map(|t| t.len()).max().unwrap_or(0);
    let (mut x, mut y, mut z) = (Vec::with_capacity(cap), Vec::with_capacity(cap), Vec::with_capacity(cap));
    for i in 0..k {
        let t = at(i);
        for (v, t) in [(&mut x, t.0), (&mut y, t.1), (&mut z, t.2)] {
            v.clear();
            v.extend_from_slice(t);
        }
        o.add("results digested in reused buffers", 1);
        ensure!(guarded("digest", || digest(&x, &y, &z, ctx))? == first[i], "the results for input {i} depend on what its buffer held before");
    }
    layouts(c, (c.hash() >> 8) as usize % k, ctx, o)?;
    reentered(c, (c.hash() >> 16) as usize % k, &first, ctx, o)?;
    // option objects reused across inputs and results shared between threads
    let op = Share(opts(ctx));
    let mo = Share(MergeOptions::new());
    let fm = Share(super::patch::formatter(true, true, false));
    type One = (Vec<u8>, Vec<u8>, Vec<u8>);
    let one = |i: usize, p: &Patch<'_, [u8]>| -> One {
        let (x, y, z) = at(i);
        let mut w = Vec::new();
        fm.get().write_patch_into(p, &mut w).unwrap();
        (w, apply_bytes(x, p).unwrap_or_else(|e| e.to_string().into_bytes()), mo.get().merge_bytes(x, y, z).unwrap_or_else(|e| e))
    };
    let ps: Share<Vec<Patch<'_, [u8]>>> =
        Share(guarded("create_patch_bytes", || (0..k).map(|i| op.get().create_patch_bytes(at(i).0, at(i).1)).collect::<Vec<_>>())?);
    let want: Vec<One> = guarded("formatting, applying and merging", || (0..k).map(|i| one(i, &ps.get()[i])).collect::<Vec<_>>())?;
    let one = Share(one);
    let threads = 4usize;
    let bar = std::sync::Barrier::new(threads);
    let errs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|th| {
                let (first, want, ps, op, one, bar, dig) = (&first, &want, &ps, &op, &one, &bar, Share(&dig));
                sc.spawn(move || -> R {
                    bar.wait();
                    for j in 0..k {
                        let i = if th % 2 == 0 { (j + th) % k } else { (2 * k - 1 - j + th) % k };
                        let p = &ps.get()[i];
                        let r = guarded("concurrent use", || one.get()(i, p))?;
                        ensure!(r == want[i], "thread {th}: formatting, applying or merging input {i} concurrently gave another result");
                        let (x, y, _) = (&c.t[3 * i], &c.t[3 * i + 1], 0);
                        let q = guarded("concurrent create_patch_bytes", || op.get().create_patch_bytes(x, y))?;
                        ensure!(q == *p, "thread {th}: creating the patch for input {i} concurrently gave another result");
                        ensure!(dig.get()(i)? == first[i], "thread {th}: the results for input {i} differ when computed concurrently");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())).err()).collect()
    });
    o.add("results compared across threads", threads * k);
    if let Some(e) = errs.into_iter().next() {
        return Err(e);
    }
    // two fresh processes, in opposite orders
    #[cfg(not(miri))]
    if c.n[1] == 1 {
        let f = scratch().join("batch.case");
        std::fs::write(&f, c.to_bin()).map_err(|e| e.to_string())?;
        for rev in ["forward", "backward"] {
            let out = Command::new(std::env::current_exe().unwrap())
                .arg("digest")
                .arg(&f)
                .arg(rev)
                .env("TZ", if rev == "forward" { "UTC" } else { "Asia/Tokyo" })
                .env("LC_ALL", if rev == "forward" { "C" } else { "tr_TR.UTF-8" })
                .env("NO_COLOR", if rev == "forward" { "" } else { "1" })
                .env("TERM", if rev == "forward" { "dumb" } else { "xterm-256color" })
                .current_dir(if rev == "forward" { "/" } else { "/tmp" })
                .stderr(Stdio::null())
                .output()
                .map_err(|e| format!("inconclusive: cannot start a process: {e}"))?;
            let got: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if !out.status.success() {
                return Err(format!("a fresh process died on the same inputs: {}", out.status));
            }
            ensure!(got == first, "another process ({rev}) gives other results for the same inputs: {got:?} instead of {first:?}");
            o.add("results compared with fresh processes", k);
        }
    }
    let fst = FIRST.get_or_init(|| guarded("digest", canary).unwrap_or_default());
    let n = CALLS.fetch_add(1, Relaxed);
    if n % 16 == 0 {
        o.add("fixed inputs digested again late in the process", 3);
        ensure!(guarded("digest", canary)? == *fst, "inputs digested at the start of the process give other results after {n} batches");
    }
    Ok(())
}

pub fn digest_cmd(file: &str, order: &str) {
    let c = Case::from_bin(&std::fs::read(file).unwrap()).unwrap();
    let k = c.t.len() / 3;
    let mut v = vec![0; k];
    let idx: Vec<usize> = if order == "forward" { (0..k).collect() } else { (0..k).rev().collect() };
    for i in idx {
        v[i] = digest(&c.t[3 * i], &c.t[3 * i + 1], &c.t[3 * i + 2], c.n[0]);
    }
    println!("{}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" "));
}

// ------------------------------------------------------------------ S04
/// growing inputs with a particular shape; `n` is roughly the number of lines
pub fn shaped(kind: usize, n: usize) -> (&'static str, Vec<Vec<u8>>, Vec<u64>) {
    let num = |a: usize, b: usize| -> Vec<Vec<u8>> { (a..b).map(|i| format!("{i}\n").into_bytes()).collect() };
    let rep = |t: &str, n: usize| t.repeat(n).into_bytes();
    match kind {
        // parsing and writing
        0 => ("parse", vec![format!("@@ -1,{n} +1,{n} @@\n{}", " a\n".repeat(n)).into_bytes()], vec![]),
        1 => ("parse", vec![format!("@@ -1,{n} +1,{n} @@\n{}", "-a\n+b\n".repeat(n)).into_bytes()], vec![]),
        2 => ("parse", vec![(0..n).map(|i| format!("@@ -{0} +{0} @@\n-a\n+b\n", 2 * i + 1)).collect::<String>().into_bytes()], vec![]),
        3 => ("parse", vec![[rep("junk\n", n), b"--- a\n+++ b\n".to_vec()].concat()], vec![]),
        4 => ("parse", vec![format!("--- \"{}\"\n+++ {}\n", "\\n".repeat(4 * n), "n".repeat(8 * n)).into_bytes()], vec![]),
        5 => ("parse", vec![format!("@@ -1 +1 @@ {}\n-{}\n+{}\n", " @".repeat(4 * n), "x ".repeat(4 * n), " @@".repeat(n)).into_bytes()], vec![]),
        6 => ("parse", vec![format!("@@ -1,{n} +1,{n} @@\n{}", "\n".repeat(n)).into_bytes()], vec![]),
        // applying
        7 => ("apply", vec![num(0, n).concat(), format!("@@ -18446744073709551000 +18446744073709551000 @@\n-0\n+x\n").into_bytes()], vec![]),
        8 => ("apply", vec![num(0, n).concat(), format!("@@ -1 +1 @@\n-{}\n+x\n", n - 1).into_bytes()], vec![]),
        9 => ("apply", vec![num(0, n).concat(), format!("@@ -9223372036854775807 +9223372036854775807 @@\n-nowhere\n+x\n").into_bytes()], vec![]),
        10 => {
            let k = 20;
            ("apply", vec![rep("a\n", n), format!("@@ -1,{} +1,{} @@\n{}-b\n", k + 1, k, " a\n".repeat(k)).into_bytes()], vec![])
        }
        11 => {
            let n = n.min(1200);
            ("apply", vec![num(0, n).concat(), (0..n).map(|i| format!("@@ -{0} +{0} @@\n-{1}\n+x\n", i + 1, i)).collect::<String>().into_bytes()], vec![])
        }
        12 => {
            let n = n.min(4000);
            ("apply", vec![num(0, n).concat(), format!("@@ -1,{n} +0,0 @@\n{}", num(0, n).iter().map(|l| format!("-{}", String::from_utf8_lossy(l))).collect::<String>()).into_bytes()], vec![])
        }
        // comparing
        13 => ("diff", vec![num(0, n).concat(), num(0, n).concat()], vec![3]),
        14 => {
            let mut b = num(0, n);
            for i in (0..n).step_by(n / 10 + 1) {
                b[i] = b"x\n".to_vec();
            }
            ("diff", vec![num(0, n).concat(), b.concat()], vec![3])
        }
        15 => ("diff", vec![rep("a\n", n), rep("a\n", n + n / 50)], vec![3]),
        16 => ("diff", vec![rep("a\nb\n", n / 2), rep("b\na\n", n / 2)], vec![0]),
        17 => {
            let m = n.min(1200);
            ("diff", vec![num(0, m).concat(), num(m, 2 * m).concat()], vec![3])
        }
        18 => ("diff", vec![vec![], num(0, n).concat()], vec![3]),
        19 => ("diff", vec![num(0, n).concat(), vec![]], vec![0]),
        20 => {
            let m = n.min(1500);
            ("diff", vec![rep("a\nb\nc\n", m / 3), rep("a\nc\nb\n", m / 3)], vec![1])
        }
        21 => {
            let m = n.min(6000);
            // many single insertions into runs of equal lines: each slides as far as it can
            let old = rep("a\n", m);
            let new: String = (0..m).map(|i| if i % 40 == 0 { "a\nb\n" } else { "a\n" }).collect();
            ("diff", vec![old, new.into_bytes()], vec![3])
        }
        22 => ("diff", vec![rep("x", 8 * n), [rep("x", 8 * n), b"y".to_vec()].concat()], vec![3]),
        23 => {
            let m = n.min(1500);
            let mut b = num(0, m);
            b.reverse();
            ("diff", vec![num(0, m).concat(), b.concat()], vec![u64::MAX])
        }
        // merging
        24 => {
            let (mut a, mut b) = (num(0, n), num(0, n));
            for i in (0..n).step_by(n / 20 + 1) {
                a[i] = b"x\n".to_vec();
                b[(i + 2) % n] = b"y\n".to_vec();
            }
            ("merge", vec![num(0, n).concat(), a.concat(), b.concat()], vec![])
        }
        25 => {
            let m = n.min(1000);
            ("merge", vec![b"0\n".to_vec(), num(0, m).concat(), num(m, 2 * m).concat()], vec![])
        }
        26 => ("merge", vec![rep("a\n", n), rep("a\n", n + n / 100), rep("a\n", n - n / 100)], vec![]),
        27 => ("merge", vec![num(0, n).concat(), num(0, n - n / 50).concat(), num(n / 50, n).concat()], vec![]),
        // applying large insertions and many hunks to a large text
        28 => {
            let ins: String = (0..n).map(|i| format!("+x{i}\n")).collect();
            ("apply", vec![num(0, n).concat(), format!("@@ -1 +1,{} @@\n{ins} 0\n", n + 1).into_bytes()], vec![])
        }
        29 => {
            let k = 50usize.min(n / 4).max(1);
            let (gap, ins) = (n / k, n / k);
            let mut p = String::new();
            for j in 0..k {
                p.push_str(&format!("@@ -{} +{},{} @@\n {}\n{}", j * gap + 1, j * (gap + ins) + 1, ins + 1, j * gap, "+new\n".repeat(ins)));
            }
            ("apply", vec![num(0, n).concat(), p.into_bytes()], vec![])
        }
        30 => {
            let ins: String = (0..n).map(|i| format!("+x{i}\n")).collect();
            ("apply", vec![vec![], format!("@@ -0,0 +1,{n} @@\n{ins}").into_bytes()], vec![])
        }
        31 => {
            // insertions everywhere, one side only
            let b: String = (0..n).map(|i| if i % (n / 60 + 1) == 0 { format!("new\n{i}\n") } else { format!("{i}\n") }).collect();
            ("merge", vec![num(0, n).concat(), num(0, n).concat(), b.into_bytes()], vec![])
        }
        32 => ("parse", vec![(0..n).map(|i| format!("@@ -{0},0 +{0} @@ {1}\n+a\n\\ No newline at end of file\n", i + 1, "f".repeat(i % 90))).collect::<String>().into_bytes()], vec![]),
        // one very long line and many changes elsewhere
        34..=37 => {
            let k = 600;
            let long = 400 * n.min(20_000);
            let t = |x: &str| [rep("l", long), (0..k).map(|i| format!("\n{x}{i}\n{i}")).collect::<String>().into_bytes(), b"\n".to_vec()].concat();
            let hunks: String = (0..k).map(|i| format!("@@ -{0} +{0} @@\n-o{i}\n+a{i}\n", 2 * i + 2)).collect();
            match kind {
                34 => ("merge", vec![t("o"), t("a"), t("b")], vec![]),
                35 => ("diff", vec![t("o"), t("a")], vec![0]),
                36 => ("apply", vec![t("o"), hunks.into_bytes()], vec![]),
                _ => ("parse", vec![[b"@@ -1,0 +1 @@ f\n+".to_vec(), rep("l", long), b"\n".to_vec(), hunks.into_bytes()].concat()], vec![]),
            }
        }
        // very many different short lines; long lines that differ at their ends only
        41 => {
            let line = |i: usize| {
                let d = |k: usize| (33 + k % 94) as u8;
                match i {
                    0..94 => vec![d(i), b'\n'],
                    94..8930 => vec![d((i - 94) / 94), d(i), b'\n'],
                    _ => vec![d(i / 8836), d(i / 94), d(i), b'\n'],
                }
            };
            let t = |j: usize| (j..n + j).map(line).collect::<Vec<_>>().concat();
            ("diff", vec![t(0), t(3)], vec![3])
        }
        42 => {
            let line = |i: usize| format!("{}{i}\n", "p".repeat(100)).into_bytes();
            let t = |j: usize| (j..n / 2 + j).map(line).collect::<Vec<_>>().concat();
            ("diff", vec![t(0), t(3)], vec![3])
        }
        // a context as long as the texts
        38..=40 => {
            let mut b = num(0, n);
            if kind != 38 {
                b[0] = b"x\n".to_vec();
            }
            if kind != 39 {
                b[n - 1] = b"y\n".to_vec();
            }
            ("diff", vec![num(0, n).concat(), b.concat()], vec![if kind == 40 { n as u64 } else { u64::MAX }])
        }
        _ => ("diff", vec![[num(0, n / 2), num(0, n / 2)].concat().concat(), [num(0, n / 2), vec![b"x\n".to_vec()], num(0, n / 2)].concat().concat()], vec![3]),
    }
}
pub const SHAPES: usize = 43;

fn gen_s04(rng: &mut Rng, cx: &Ctx) -> Case {
    match rng.below(6) {
        0 => {
            let k = rng.below(SHAPES);
            let n = rng.range(40, 3000);
            let (tag, t, n) = shaped(k, n);
            Case::new(tag, t, n)
        }
        1 => {
            let m = gen::patch_model(rng, cx);
            Case::new("parse", vec![gen::patch_text(rng, cx, &m)], vec![])
        }
        2 => super::apply::gen_apply(rng, cx),
        3 | 4 => {
            let mut c = gen_pair(rng, cx);
            c.tag = "diff".into();
            c
        }
        _ => {
            let mut c = gen_triple(rng, cx);
            c.tag = "merge".into();
            c
        }
    }
}

fn special_s04(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut ns = vec![300usize, 3000, 20_000];
    if th {
        ns.extend([1000, 10_000, 60_000]);
    }
    ns.extend(cx.fb.large.iter().filter(|n| **n < 100_000).map(|n| n + 10).take(4));
    for k in 0..SHAPES {
        for &n in &ns {
            let (tag, t, n) = shaped(k, n);
            v.push(Case::new(tag, t, n));
        }
    }
    v
}

const STACK: usize = 256 * 1024;

/// Run on a small stack; panics are reported like everywhere else.
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("thread").join().expect("join"))
}

/// measured edges and peak bytes of `f`
fn measure<T: Send>(what: &str, f: impl FnOnce() -> T + Send) -> Result<(T, u64, u64), String> {
    if ir::ON.load(std::sync::atomic::Ordering::Relaxed) {
        ir::start();
        let r = guarded(what, f);
        ir::stop(what);
        return Ok((r?, 0, 0));
    }
    on_small_stack(|| {
        let m = mon::mem_mark();
        let s0 = mon::steps();
        let r = guarded(what, f)?;
        let st = mon::steps() - s0;
        Ok((r, st, mon::mem_peak_since(m).max(0) as u64))
    })
}

/// Counting every instruction of a call, those of the standard library included, under Valgrind's callgrind.
pub mod ir {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    pub static ON: AtomicBool = AtomicBool::new(false);
    thread_local! {
        static LAST: RefCell<(usize, String)> = const { RefCell::new((0, String::new())) };
        pub static NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    }
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    fn request(code: u64, arg: u64) {
        let args = [code, arg, 0, 0, 0, 0];
        unsafe {
            std::arch::asm!(
                "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
                in("rax") args.as_ptr(), inout("rdx") 0u64 => _, inout("rdi") 0u64 => _, options(nostack)
            );
        }
    }
    #[cfg(not(all(target_arch = "x86_64", not(miri))))]
    fn request(_: u64, _: u64) {}
    const BASE: u64 = 0x4354_0000;
    pub fn start() {
        request(BASE + 1, 0);
        request(BASE + 4, 0);
    }
    pub fn stop(what: &str) {
        request(BASE + 5, 0);
        let name = LAST.with(|l| {
            let mut l = l.borrow_mut();
            l.0 += 1;
            l.1 = format!("dv{:05}-{what}\0", l.0);
            l.1.clone()
        });
        request(BASE + 3, name.as_ptr() as u64);
    }
    pub fn note(what: &str, allowed: u64) {
        let n = LAST.with(|l| l.borrow().1.trim_end_matches('\0').to_string());
        NOTES.with(|v| v.borrow_mut().push(format!("{n}\t{allowed}\t{}", what.split(':').next().unwrap())));
    }
    /// every shape at growing sizes; one line per measured call
    pub fn run(shard: usize, shards: usize, sizes: &[usize], out: &str) {
        use std::io::Write;
        ON.store(true, Relaxed);
        let mut f = std::fs::File::create(out).expect("out");
        for &n in sizes {
            for k in (0..super::SHAPES).filter(|k| k % shards == shard) {
                let (tag, t, nn) = super::shaped(k, n);
                let c = super::Case::new(tag, t, nn);
                std::fs::write(format!("{out}.{k}.{n}.case"), c.to_bin()).expect("case");
                let r = super::s04(&c, &mut super::Obs::default());
                for l in NOTES.with(|v| std::mem::take(&mut *v.borrow_mut())) {
                    writeln!(f, "{l}\t{k}\t{n}").expect("out");
                }
                if let Err(e) = r {
                    writeln!(f, "error\t0\t{e}\t{k}\t{n}").expect("out");
                }
            }
        }
    }
}

/// Allowed work and memory, as multiples of the size terms; about ten times what the present code needs.
const C_BYTE: u64 = 60;
const C_LINE: u64 = 400;
const C_CELL: u64 = 60;
const K_BASE: u64 = 4000;
const MEM_BASE: u64 = 128 * 1024;

fn bound(o: &mut Obs, what: &'static str, steps: u64, allowed: u64, mem: u64, mem_allowed: u64) -> R {
    if ir::ON.load(std::sync::atomic::Ordering::Relaxed) {
        ir::note(what, allowed);
        return Ok(());
    }
    o.add("measured calls", 1);
    o.nontrivial |= steps >= 1000;
    o.max(what, steps * 1000 / allowed.max(1));
    let w = match what {
        "parse: permille of allowed edges" => "parse: permille of allowed memory",
        "write: permille of allowed edges" => "write: permille of allowed memory",
        "apply: permille of allowed edges" => "apply: permille of allowed memory",
        "diff: permille of allowed edges" => "diff: permille of allowed memory",
        _ => "merge: permille of allowed memory",
    };
    o.max(w, mem * 1000 / mem_allowed.max(1));
    o.max("most edges in one call", steps);
    let name = what.split(':').next().unwrap();
    ensure!(steps <= allowed, "{name}: {steps} control-flow edges executed, {allowed} allowed for this input size");
    ensure!(mem <= mem_allowed, "{name}: {mem} bytes in use at the peak, {mem_allowed} allowed for this input size");
    Ok(())
}

/// Writing in several ways, reversing, copying and comparing a patch
fn write_bounds<T: ?Sized + ToOwned + AsRef<[u8]> + PartialEq + Sync>(o: &mut Obs, p: &Patch<'_, T>, lines: u64, bytes: u64, show: impl Fn(&Patch<'_, T>) -> Vec<u8> + Sync) -> R
where
    T::Owned: Sync,
{
    const W: &str = "write: permille of allowed edges";
    let (out, st, mem) = measure("write", || show(p))?;
    let k = out.len() as u64;
    bound(o, W, st, K_BASE + C_BYTE * k + C_LINE * lines, mem, MEM_BASE + 6 * k)?;
    let f = super::patch::formatter(true, false, true);
    let (n, st, mem) = measure("write_patch_into", || {
        let mut w = Vec::new();
        f.write_patch_into(p, &mut w).map(|()| w.len())
    })?;
    let k = n.map_err(|e| e.to_string())? as u64;
    bound(o, W, st, K_BASE + C_BYTE * k + C_LINE * lines, mem, MEM_BASE + 6 * k)?;
    let (a, b) = (K_BASE + C_LINE * lines + bytes, MEM_BASE + 4 * bytes + 400 * lines);
    let (_, st, mem) = measure("reverse", || p.reverse().hunks().len())?;
    bound(o, W, st, a, mem, b)?;
    let (e, st, mem) = measure("clone", || p.clone() == *p)?;
    bound(o, W, st, a + C_BYTE * bytes, mem, b)?;
    ensure!(e, "a copy of a patch differs from it");
    Ok(())
}

fn diff_allowed(old: &[u8], new: &[u8]) -> u64 {
    let (n, m) = (lines(old).len() as u64, lines(new).len() as u64);
    let d = distance(old, new) as u64;
    K_BASE + C_BYTE * (old.len() + new.len()) as u64 + C_LINE * (n + m) + C_CELL * (n + m + 1) * (d + 1)
}

fn s04(c: &Case, o: &mut Obs) -> R {
    let t: Vec<&[u8]> = c.t.iter().map(|t| &t[..]).collect();
    let len = |i: usize| t[i].len() as u64;
    let nl = |i: usize| lines(t[i]).len() as u64;
    match c.tag.trim_start_matches('!') {
        "parse" => {
            let (p, st, mem) = measure("from_bytes", || Patch::from_bytes(t[0]).ok())?;
            let allowed = K_BASE + C_BYTE * len(0) + C_LINE * nl(0);
            bound(o, "parse: permille of allowed edges", st, allowed, mem, MEM_BASE + 4 * len(0) + 400 * nl(0))?;
            if let Some(p) = p {
                write_bounds(o, &p, nl(0), len(0), |p| p.to_bytes())?;
            }
            if let Some(x) = s(t[0]) {
                let (p, st, mem) = measure("from_str", || Patch::from_str(x).ok())?;
                bound(o, "parse: permille of allowed edges", st, allowed, mem, MEM_BASE + 4 * len(0) + 400 * nl(0))?;
                if let Some(p) = p {
                    write_bounds(o, &p, nl(0), len(0), |p| p.to_string().into_bytes())?;
                    write_bounds(o, &p, nl(0), len(0), |p| super::patch::formatter(true, true, false).fmt_patch(p).to_string().into_bytes())?;
                }
            }
        }
        "apply" => {
            let Ok(p) = guarded("from_bytes", || Patch::from_bytes(t[1]))? else { return Ok(()) };
            let mut img = nl(0);
            let mut work = 0u64;
            let mut total = img;
            for h in p.hunks() {
                let all = h.lines().len() as u64;
                let post = h.new_range().len() as u64;
                work = work.saturating_add((img + 1) * (all + 2) + post);
                img = img + post;
                total += h.lines().len() as u64;
            }
            let (r, st, mem) = measure("apply_bytes", || apply_bytes(t[0], &p).map(|v| v.len()).unwrap_or(0))?;
            let allowed = K_BASE + C_BYTE * (len(0) + r as u64) + C_LINE * total + C_CELL * work;
            let mem_allowed = MEM_BASE + 4 * r as u64 + 300 * total;
            bound(o, "apply: permille of allowed edges", st, allowed, mem, mem_allowed)?;
            if let (Some(b), Some(x)) = (s(t[0]), s(t[1])) {
                if let Ok(p) = guarded("from_str", || Patch::from_str(x))? {
                    let (r, st, mem) = measure("apply", || apply(b, &p).map(|v| v.len()).unwrap_or(0))?;
                    let _ = r;
                    bound(o, "apply: permille of allowed edges", st, allowed, mem, mem_allowed)?;
                }
            }
        }
        "diff" => {
            let allowed = diff_allowed(t[0], t[1]);
            let mem_allowed = MEM_BASE + 1500 * (nl(0) + nl(1));
            let cc = c.n[0];
            let (_, st, mem) = measure("create_patch_bytes", || opts(cc).create_patch_bytes(t[0], t[1]).hunks().len())?;
            bound(o, "diff: permille of allowed edges", st, allowed, mem, mem_allowed)?;
            if let (Some(a), Some(b)) = (s(t[0]), s(t[1])) {
                let (_, st, mem) = measure("create_patch", || opts(cc).create_patch(a, b).hunks().len())?;
                bound(o, "diff: permille of allowed edges", st, allowed, mem, mem_allowed)?;
            }
        }
        _ => {
            let n: u64 = (0..3).map(nl).sum();
            let bytes: u64 = (0..3).map(len).sum();
            let allowed = diff_allowed(t[0], t[1]) + diff_allowed(t[0], t[2]) + C_LINE * n + C_BYTE * bytes;
            let mem_allowed = MEM_BASE + 2500 * n + 8 * bytes;
            let (_, st, mem) = measure("merge_bytes", || diffy::merge_bytes(t[0], t[1], t[2]).is_ok())?;
            bound(o, "merge: permille of allowed edges", st, allowed, mem, mem_allowed)?;
            if let (Some(a), Some(b), Some(d)) = (s(t[0]), s(t[1]), s(t[2])) {
                let (_, st, mem) = measure("merge", || diffy::merge(a, b, d).is_ok())?;
                bound(o, "merge: permille of allowed edges", st, allowed, mem, mem_allowed)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ S05
pub fn scratch() -> PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = match std::env::var("DV_SCRATCH") {
            Ok(d) => PathBuf::from(d),
            Err(_) => std::env::temp_dir().join(format!("dvmon-{}", std::process::id())),
        };
        let _ = std::fs::create_dir_all(&d);
        d
    })
    .clone()
}

fn gen_s05(rng: &mut Rng, cx: &Ctx) -> Case {
    let ctx = *rng.pick(&[0u64, 1, 2, 3, 3, 5, 40]);
    if rng.chance(1, 4) {
        let (a, b) = gen::pair(rng, &Ctx { fb: &Default::default(), ..*cx });
        let name = match rng.below(3) {
            0 => (0..rng.range(1, 9)).map(|_| rng.range(1, 255) as u8).collect(),
            1 => (0..rng.range(1, 9)).map(|_| *rng.pick(b"a \t\n\r\"\\7\x07\x7f\x01")).collect(),
            _ => gen::name(rng, cx),
        };
        return Case::new("named", vec![a, b, name], vec![ctx, rng.next() % 48]);
    }
    let (a, b) = gen::pair(rng, cx);
    Case::new("pair", vec![a, b], vec![ctx, rng.next() % 48])
}
fn special_s05(_: bool, _: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    // every character a file name can hold, alone and before a digit
    for b in 1..=255u8 {
        for n in [vec![b], vec![b'a', b, b'1']] {
            v.push(Case::new("named", vec![b"a\nb\n".to_vec(), b"a\nc".to_vec(), n], vec![3, b as u64 % 48]));
        }
    }
    for n in ["\u{e4}.txt", "日本語", "🦀", "sp ace", "sp ace ", " a", "a\tb", "q\"q", "\"q\"", "back\\slash", "\\303", "\\0", "a.txt\t2020-01-01", "--- a", "@@ -1 +1 @@"] {
        for (k, (a, b)) in [("a\nb\n", "a\nc"), ("", "a\n"), ("x\ny", ""), ("a", "b\n")].iter().enumerate() {
            v.push(Case::new("named", vec![a.as_bytes().to_vec(), b.as_bytes().to_vec(), n.as_bytes().to_vec()], vec![k as u64, 7 * k as u64 + 1]));
        }
    }
    let ts = ["", "a\n", "a", "a\nb\n", "a\nb", "b\na\n", "\n", "a\n\nb\n", "a\na\na\na\n", "a\na\na\na", "1\n2\n3\n4\n5\n6\n7\n8\n9\n", "1\n2\nx\n4\n5\n6\n7\ny\n9\n", "1\n2\n4\n5\n6\n7\n8\n9\n10", "é\n", "a\r\nb\r\n", "--- a\n+++ b\n", "@@ -1 +1 @@\n"];
    for a in ts {
        for b in ts {
            for c in [0u64, 1, 3] {
                if a != b {
                    v.push(Case::new("pair", vec![a.into(), b.into()], vec![c, (a.len() * 7 + b.len()) as u64 % 48]));
                }
            }
        }
    }
    v
}

fn tool_command(dir: &Path, cmd: &str) -> Command {
    let mut c = Command::new(cmd);
    c.current_dir(dir)
        .env("LC_ALL", "C")
        .env("HOME", dir)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CEILING_DIRECTORIES", dir.parent().unwrap_or(dir))
        .env_remove("GIT_DIR")
        .env("TZ", "UTC")
        .stdin(Stdio::null());
    c
}

fn tool(dir: &Path, cmd: &str, args: &[&str]) -> Result<(Option<i32>, Vec<u8>, String), String> {
    let out = tool_command(dir, cmd)
        .args(args)
        .output()
        .map_err(|e| format!("inconclusive: cannot run {cmd}: {e}"))?;
    Ok((out.status.code(), out.stdout, String::from_utf8_lossy(&out.stderr).into_owned()))
}

/// The file the tools diff has a name of its own.
fn s05_named(c: &Case, o: &mut Obs) -> R {
    use std::os::unix::ffi::OsStrExt;
    let (old, new, ctx, sel) = (&c.t[0], &c.t[1], c.n[0], c.n[1]);
    // a plain name in a directory of its own, whatever the case asks for
    let name: Vec<u8> = c.t[2].iter().copied().filter(|b| *b != b'/' && *b != 0).take(60).collect();
    if name.is_empty() || name == b"." || name == b".." {
        return Ok(());
    }
    let d = scratch().join("named");
    let path = |b: &[u8]| d.join(std::ffi::OsStr::from_bytes(b));
    let fresh = |k: &str| {
        let _ = std::fs::remove_dir_all(d.join(k));
        std::fs::create_dir_all(d.join(k)).map_err(|e| format!("inconclusive: {e}"))
    };
    let (f, g) = ([b"f/", &name[..]].concat(), [b"g/", &name[..]].concat());
    fresh("f")?;
    fresh("g")?;
    std::fs::write(path(&f), old).map_err(|e| format!("inconclusive: {e}"))?;
    std::fs::write(path(&g), new).map_err(|e| format!("inconclusive: {e}"))?;
    let u = format!("-U{ctx}");
    let run = |cmd: &str, loc: &str, args: &[&str], files: [&[u8]; 2]| {
        let mut k = tool_command(&d, cmd);
        k.args(args).args(files.map(std::ffi::OsStr::from_bytes)).env("LC_ALL", loc);
        k.output().map(|r| (r.status.code(), r.stdout)).map_err(|e| format!("inconclusive: cannot run {cmd}: {e}"))
    };
    let names = |out: &[u8], a: &[u8], b: &[u8], who: &'static str| -> R {
        let p = guarded("from_bytes", || Patch::from_bytes(out))?.map_err(|e| format!("output of {who} rejected: {e}: {:?}", show(out)))?;
        ensure!(
            p.original() == Some(a) && p.modified() == Some(b),
            "{who} names the files {:?} and {:?}, the parsed patch says {:?} and {:?}: {:?}",
            show(a), show(b), p.original().map(show), p.modified().map(show), show(out)
        );
        if let Some(t) = s(out) {
            match guarded("from_str", || Patch::from_str(t))? {
                Ok(p) => ensure!(p.original().map(str::as_bytes) == Some(a) && p.modified().map(str::as_bytes) == Some(b), "{who}: from_str reads the names {:?} and {:?}", p.original(), p.modified()),
                Err(e) => ensure!(s(&name).is_none(), "output of {who} rejected by from_str: {e}: {:?}", show(out)),
            }
        }
        Ok(())
    };
    let loc = ["C", "C.UTF-8"][sel as usize % 2];
    let (rc, out) = run("diff", loc, &["-a", &u], [&f, &g])?;
    if rc == Some(1) {
        names(&out, &f, &g, "GNU diff")?;
        accept(&out, old, new, "GNU diff", o)?;
        o.add("names written by GNU diff", 1);
    }
    let quote = if sel & 2 != 0 { "core.quotepath=true" } else { "core.quotepath=false" };
    let pre = |p: &[u8], n: &[u8]| [p, n].concat();
    for (files, a, b) in [([&f[..], &g[..]], pre(b"a/", &f), pre(b"b/", &g)), ([b"/dev/null", &g], b"/dev/null".to_vec(), pre(b"b/", &g)), ([&f, b"/dev/null"], pre(b"a/", &f), b"/dev/null".to_vec())] {
        let (rc, out) = run("git", loc, &["-c", quote, "-c", "core.autocrlf=false", "diff", "--no-index", "--no-color", "--text", "--no-ext-diff", &u, "--"], files)?;
        if rc == Some(1) && out.windows(4).any(|w| w == b"\n@@ ") {
            names(&out, &a, &b, "git diff")?;
            let (from, to): (&[u8], &[u8]) = (if a == b"/dev/null" { b"" } else { old }, if b == b"/dev/null" { b"" } else { new });
            accept(&out, from, to, "git diff", o)?;
            o.add("names written by git", 1);
        }
    }
    // the library's way to write the name, read by git (which sees the end of an unquoted name in some blanks)
    let quoted = crate::refm::quote_name(&name) != name;
    let plain = !name.iter().any(|b| b.is_ascii_whitespace() || *b == 11);
    if let (Some(n), true) = (s(&name), (quoted || plain) && old != new && !old.is_empty() && !new.is_empty() && ctx > 0) {
        let mut op = opts(ctx);
        op.set_original_filename(n.to_owned()).set_modified_filename(n.to_owned());
        let text = guarded("create_patch_bytes", || op.create_patch_bytes(old, new).to_bytes())?;
        std::fs::write(d.join("p"), &text).map_err(|e| format!("inconclusive: {e}"))?;
        let (rc, out, err) = tool(&d.join("f"), "git", &["apply", "-p0", "--whitespace=nowarn", "../p"])?;
        ensure!(rc == Some(0), "git apply does not accept the patch (status {rc:?}): {} {} -- {:?}", String::from_utf8_lossy(&out), err, show(&text));
        let got = std::fs::read(path(&f)).map_err(|e| e.to_string())?;
        ensure!(got == *new, "git apply turns the original into {:?} instead of {:?} with {:?}", show(&got), show(new), show(&text));
        o.add("names read by git", 1);
    }
    Ok(())
}

fn s05(c: &Case, o: &mut Obs) -> R {
    if c.tag == "named" {
        return s05_named(c, o);
    }
    let (old, new, ctx, sel) = (&c.t[0], &c.t[1], c.n[0], c.n[1]);
    let d = scratch();
    let wr = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).map_err(|e| format!("inconclusive: {e}"));
    let rd = |n: &str| std::fs::read(d.join(n)).map_err(|e| format!("{n}: {e}"));
    wr("f", old)?;
    wr("g", new)?;
    if old != new {
        let mut op = opts(ctx);
        op.set_original_filename("f").set_modified_filename("f");
        let p = guarded("create_patch_bytes", || op.create_patch_bytes(old, new))?;
        let text = match (sel % 2, s(old), s(new)) {
            (0, Some(a), Some(b)) => guarded("create_patch", || op.create_patch(a, b).to_string())?.into_bytes(),
            _ => guarded("to_bytes", || p.to_bytes())?,
        };
        wr("p", &text)?;
        let _ = std::fs::remove_file(d.join("out"));
        let (rc, out, err) = tool(&d, "patch", &["-s", "-f", "-F0", "--binary", "-o", "out", "f", "p"])?;
        o.add("patches applied with GNU patch", 1);
        o.nontrivial = true;
        ensure!(rc == Some(0), "GNU patch does not accept the patch (status {rc:?}): {} {} -- {:?}", String::from_utf8_lossy(&out), err, show(&text));
        let got = rd("out").or_else(|e| if new.is_empty() { Ok(vec![]) } else { Err(e) })?;
        ensure!(got == *new, "GNU patch turns the original into {:?} instead of {:?} with {:?}", show(&got), show(new), show(&text));
        // the reverse, by the tool and by the library
        let _ = std::fs::remove_file(d.join("out"));
        let (rc, _, err) = tool(&d, "patch", &["-s", "-f", "-F0", "--binary", "-R", "-o", "out", "g", "p"])?;
        ensure!(rc == Some(0), "GNU patch -R does not accept the patch (status {rc:?}): {err}");
        let got = rd("out").or_else(|e| if old.is_empty() { Ok(vec![]) } else { Err(e) })?;
        ensure!(got == *old, "GNU patch -R turns the modified text into {:?} instead of {:?}", show(&got), show(old));
        if !old.is_empty() && !new.is_empty() && ctx > 0 {
            let (rc, out, err) = tool(&d, "git", &["apply", "-p0", "--unidiff-zero", "--whitespace=nowarn", "p"])?;
            o.add("patches applied with git", 1);
            ensure!(rc == Some(0), "git apply does not accept the patch (status {rc:?}): {} {} -- {:?}", String::from_utf8_lossy(&out), err, show(&text));
            let got = rd("f")?;
            ensure!(got == *new, "git apply turns the original into {:?} instead of {:?} with {:?}", show(&got), show(new), show(&text));
            wr("f", old)?;
        }
    }
    // the tools' output, read by the library
    let u = format!("-U{ctx}");
    let mut a: Vec<&str> = vec!["-a", &u];
    if sel & 2 != 0 {
        a.push("-p");
    }
    if sel & 4 != 0 {
        a.push("--suppress-blank-empty");
    }
    if sel & 8 != 0 {
        a.push("--minimal");
    }
    let label = sel % 3 == 0;
    if label {
        a.extend(["--label", "a/some file", "--label", "b/some file"]);
    }
    a.extend(["f", "g"]);
    let (rc, out, err) = tool(&d, "diff", &a)?;
    if rc == Some(1) {
        accept(&out, old, new, "GNU diff", o)?;
    } else if rc != Some(0) || old != new {
        return Err(format!("inconclusive: diff ended with {rc:?}: {err}"));
    }
    let algo = ["--minimal", "--patience", "--histogram", "--no-indent-heuristic"][(sel / 4 % 4) as usize];
    let mut a: Vec<&str> = vec!["-c", "core.autocrlf=false", "diff", "--no-index", "--no-color", "--text", "--no-ext-diff", algo, &u];
    if sel & 16 != 0 {
        a.push("--inter-hunk-context=2");
    }
    a.extend(["f", "g"]);
    let (rc, out, err) = tool(&d, "git", &a)?;
    if rc == Some(1) {
        accept(&out, old, new, "git diff", o)?;
    } else if rc != Some(0) || old != new {
        return Err(format!("inconclusive: git diff ended with {rc:?}: {err}"));
    }
    Ok(())
}

fn accept(text: &[u8], old: &[u8], new: &[u8], who: &'static str, o: &mut Obs) -> R {
    o.nontrivial = true;
    o.add(if who == "git diff" { "patches made by git diff" } else { "patches made by GNU diff" }, 1);
    let p = guarded("from_bytes", || Patch::from_bytes(text))?.map_err(|e| format!("output of {who} rejected: {e}: {:?}", show(text)))?;
    match guarded("apply_bytes", || apply_bytes(old, &p))? {
        Ok(x) => ensure!(x == new, "{who}'s patch turns the original into {:?} instead of {:?}: {:?}", show(&x), show(new), show(text)),
        Err(e) => return Err(format!("{who}'s patch does not apply: {e}: {:?}", show(text))),
    }
    match guarded("apply_bytes", || apply_bytes(new, &p.reverse()))? {
        Ok(x) => ensure!(x == old, "the reverse of {who}'s patch turns the modified text into {:?} instead of {:?}: {:?}", show(&x), show(old), show(text)),
        Err(e) => return Err(format!("the reverse of {who}'s patch does not apply: {e}: {:?}", show(text))),
    }
    let nameable = [p.original(), p.modified()].iter().all(|n| n.is_none_or(|n| s(n).is_some()));
    if let (true, Some(t), Some(a), Some(b)) = (nameable, s(text), s(old), s(new)) {
        let p = guarded("from_str", || Patch::from_str(t))?.map_err(|e| format!("output of {who} rejected by from_str: {e}: {:?}", show(text)))?;
        match guarded("apply", || apply(a, &p))? {
            Ok(x) => ensure!(x == b, "{who}'s patch turns the original into {:?} instead of {:?}: {:?}", show(x.as_bytes()), show(new), show(text)),
            Err(e) => return Err(format!("{who}'s patch does not apply: {e}: {:?}", show(text))),
        }
    }
    Ok(())
}
