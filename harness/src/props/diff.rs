//! D01-D04, R01: creating and reversing patches.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::refm::{distance, edits, lines, reversed, show, truthful, HV};
use diffy::{apply, apply_bytes, create_patch, create_patch_bytes, Patch};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "D01", gen: gen_pair, count: pair_count, nth: pair_nth, special: special_pairs, check: d01,
            rule: "pairs of texts and a context length; non-trivial: the texts differ and the patch has a hunk" },
        Prop { id: "D02", gen: gen_pair, count: pair_count, nth: pair_nth, special: special_pairs, check: d02,
            rule: "pairs of texts and a context length; non-trivial: the patch has a hunk whose header and lines were compared with both texts" },
        Prop { id: "D03", gen: gen_pair, count: pair0_count, nth: pair0_nth, special: special_pairs, check: d03,
            rule: "pairs of texts; non-trivial: the texts differ and share a line, so that longer edit scripts exist than the shortest" },
        Prop { id: "D04", gen: gen_pair, count: pair_count, nth: pair_nth, special: special_d04, check: d04,
            rule: "pairs of texts and a context length; non-trivial: at least two separate changes, or a change whose context is cut by the text's ends" },
        Prop { id: "D05", gen: gen_d05, count: pair_count, nth: pair_nth, special: special_d05, check: d05,
            rule: "pairs of texts and a context length; non-trivial: some block of changes was followed by a line both texts share" },
        Prop { id: "R01", gen: gen_r01, count: pair_count, nth: pair_nth, special: special_pairs, check: r01,
            rule: "pairs of texts with a context length, and parsed patches; non-trivial: the patch has a hunk that was reversed and applied (pairs) or reversed twice (parsed)" },
    ]
}

/// the boundary pairs without the slow dense ones
pub fn special_small(th: bool, cx: &Ctx) -> Vec<Case> {
    special_pairs(th, cx).into_iter().filter(|c| c.size() < 150_000).collect()
}

fn pair(c: &Case) -> (&[u8], &[u8], u64) {
    (&c.t[0], &c.t[1], c.n[0])
}

fn d01(c: &Case, o: &mut Obs) -> R {
    let (old, new, ctx) = pair(c);
    let p = guarded("create_patch_bytes", || if ctx == 3 { create_patch_bytes(old, new) } else { opts(ctx).create_patch_bytes(old, new) })?;
    let r = guarded("apply_bytes", || apply_bytes(old, &p))?;
    o.nontrivial = old != new && !p.hunks().is_empty();
    o.add("hunks", p.hunks().len());
    o.add("applied", 1);
    match r {
        Ok(x) => ensure!(x == new, "apply_bytes gave {:?} instead of {:?}", show(&x), show(new)),
        Err(e) => return Err(format!("apply_bytes failed: {e}")),
    }
    if let (Some(a), Some(b)) = (s(old), s(new)) {
        let p = guarded("create_patch", || if ctx == 3 { create_patch(a, b) } else { opts(ctx).create_patch(a, b) })?;
        o.add("applied", 1);
        match guarded("apply", || apply(a, &p))? {
            Ok(x) => ensure!(x == b, "apply gave {:?} instead of {:?}", show(x.as_bytes()), show(new)),
            Err(e) => return Err(format!("apply failed: {e}")),
        }
    }
    Ok(())
}

fn d02(c: &Case, o: &mut Obs) -> R {
    let (old, new, ctx) = pair(c);
    for (w, v) in views(old, new, ctx)? {
        o.nontrivial |= !v.hunks.is_empty();
        o.add("hunks", v.hunks.len());
        o.add("lines", v.hunks.iter().map(|h| h.lines.len()).sum());
        truthful(&v, old, new).map_err(|e| format!("{w}: {e}"))?;
    }
    Ok(())
}

fn d03(c: &Case, o: &mut Obs) -> R {
    let (old, new, ctx) = pair(c);
    let d = distance(old, new);
    let total = crate::refm::lines(old).len() + crate::refm::lines(new).len();
    o.nontrivial = d > 0 && d < total;
    o.max("largest distance", d as u64);
    for (w, v) in views(old, new, ctx)? {
        let e = edits(&v);
        o.add("scripts", 1);
        ensure!(e == d, "{w}: the patch has {e} changed lines, the shortest edit script has {d}");
    }
    Ok(())
}

/// changed lines with their (old index, new index)
fn flat(v: &PV) -> Result<Vec<(u8, usize, usize, Vec<u8>)>, String> {
    let mut f = Vec::new();
    for h in &v.hunks {
        let (mut i, mut j) = starts(h)?;
        for (k, l) in &h.lines {
            if *k != b' ' {
                f.push((*k, i, j, l.clone()));
            }
            if *k != b'+' {
                i += 1;
            }
            if *k != b'-' {
                j += 1;
            }
        }
    }
    Ok(f)
}
fn starts(h: &HV) -> Result<(usize, usize), String> {
    let f = |s: usize, l: usize| if l > 0 { s.checked_sub(1).ok_or("range starts at line 0 but is not empty".to_string()) } else { Ok(s) };
    Ok((f(h.os, h.ol)?, f(h.ns, h.nl)?))
}

/// what the context length promises about one patch
pub fn context_rules(v: &PV, old: &[u8], new: &[u8], ctx: u64, o: &mut Obs) -> R {
    let (on, nn) = (crate::refm::lines(old).len(), crate::refm::lines(new).len());
    let cc = ctx as usize;
    let mut prev_change_end: Option<usize> = None; // old index after the last change
    for (hi, h) in v.hunks.iter().enumerate() {
        let e = |m: String| format!("hunk #{} with context {ctx}: {m}", hi + 1);
        let (so, sn) = starts(h).map_err(&e)?;
        let lead = h.lines.iter().take_while(|l| l.0 == b' ').count();
        let trail = h.lines.iter().rev().take_while(|l| l.0 == b' ').count();
        ensure!(lead < h.lines.len(), "{}", e("no change".into()));
        ensure!(lead == cc || (lead < cc && so == 0 && sn == 0), "{}", e(format!("{lead} leading context lines")));
        ensure!(
            trail == cc || (trail < cc && so + h.ol == on && sn + h.nl == nn),
            "{}",
            e(format!("{trail} trailing context lines"))
        );
        let mut run = 0;
        let mut i = so;
        for (k, _) in &h.lines[lead..h.lines.len() - trail] {
            if *k == b' ' {
                run += 1;
                ensure!(run as u128 <= 2 * cc as u128, "{}", e(format!("changes separated by {run} unchanged lines share a hunk")));
            } else {
                if run > 0 {
                    o.add("changes sharing a hunk", 1);
                }
                run = 0;
            }
        }
        for (k, _) in &h.lines[..h.lines.len() - trail] {
            if *k != b'+' {
                i += 1;
            }
        }
        if let Some(p) = prev_change_end {
            let first = so + lead;
            let gap = first.checked_sub(p).ok_or_else(|| e("overlaps the previous hunk".into()))?;
            o.add("hunk gaps", 1);
            ensure!(gap as u128 >= 2 * cc as u128, "{}", e(format!("only {gap} unchanged lines separate it from the previous hunk")));
        }
        prev_change_end = Some(i);
    }
    Ok(())
}

/// contexts around the widths of integers: one change in the middle, and two at the distances where they start to share a hunk
fn special_d04(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = special_small(th, cx);
    let mut ls: Vec<usize> = vec![126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537];
    ls.extend(cx.fb.large.iter().copied().filter(|n| *n > 100 && *n <= if th { 300_000 } else { 70_000 }).take(12));
    for l in ls {
        for gap in [0usize, 2 * l - 1, 2 * l, 2 * l + 1] {
            let old = numbered(4 * l + 9);
            let mut new = old.clone();
            new[l + 2] = b"x\n".to_vec();
            if gap > 0 {
                new[l + 3 + gap] = b"y\n".to_vec();
            }
            v.push(Case::new("!pair", vec![old.concat(), new.concat()], vec![l as u64]));
        }
    }
    v
}

fn d04(c: &Case, o: &mut Obs) -> R {
    let (old, new, ctx) = pair(c);
    let all = views(old, new, ctx)?;
    let whole = flat(&views(old, new, u64::MAX)?[0].1)?;
    let cc = ctx as usize;
    for (w, v) in &all {
        o.nontrivial |= v.hunks.len() > 1
            || v.hunks.iter().any(|h| h.lines.iter().take_while(|l| l.0 == b' ').count() < cc || h.lines.iter().rev().take_while(|l| l.0 == b' ').count() < cc);
        context_rules(v, old, new, ctx, o).map_err(|e| format!("{w}: {e}"))?;
        ensure!(flat(v)? == whole, "{w}: the changed lines depend on the context length {ctx}");
    }
    Ok(())
}

/// texts in which blocks of lines stand next to copies of their first lines
fn gen_d05(rng: &mut Rng, cx: &Ctx) -> Case {
    if rng.chance(1, 3) {
        return gen_pair(rng, cx);
    }
    let k = rng.range(1, 6);
    let voc: Vec<Vec<u8>> = (0..k).map(|i| format!("{}\n", ["a", "b", "", "{", "}", "fn"][i]).into_bytes()).collect();
    let piece = |rng: &mut Rng, m: usize| -> Vec<Vec<u8>> {
        let p = rng.range(1, m);
        let w: Vec<Vec<u8>> = (0..p).map(|_| rng.pick(&voc).clone()).collect();
        let n = rng.range(1, 4) * p + rng.below(p + 1);
        w.iter().cycle().take(n).cloned().collect()
    };
    let mut old: Vec<Vec<u8>> = Vec::new();
    for _ in 0..rng.range(1, 5) {
        let p = piece(rng, 6);
        old.extend(p);
        if rng.chance(1, 2) {
            old.push(format!("{}\n", rng.below(1000)).into_bytes());
        }
    }
    let mut new = old.clone();
    for _ in 0..rng.range(1, 5) {
        let i = rng.below(new.len() + 1);
        match rng.below(4) {
            0 => {
                // a copy of what is there
                let n = rng.range(1, 9).min(new.len() - i);
                let c = new[i..i + n].to_vec();
                new.splice(i..i, c);
            }
            1 => drop(new.splice(i..i, piece(rng, 4))),
            2 => {
                let n = rng.range(1, 9).min(new.len() - i);
                new.drain(i..i + n);
            }
            _ => {
                let n = rng.range(1, 3).min(new.len() - i);
                new.splice(i..i + n, piece(rng, 3));
            }
        }
    }
    if rng.chance(1, 2) {
        std::mem::swap(&mut old, &mut new);
    }
    Case::new("pair", vec![gen::join(rng, &old), gen::join(rng, &new)], vec![gen::context_len(rng, cx)])
}

/// long blocks that can slide, by distances and past lengths that are powers of two or occur in the code
fn special_d05(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = special_small(th, cx);
    let mut ns = vec![1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10_000];
    ns.extend(cx.fb.sizes.iter().copied().filter(|n| *n < 3000).take(60).flat_map(|n| [n, n + 1]));
    ns.extend(cx.fb.large.iter().copied().filter(|n| *n <= if th { 300_000 } else { 70_000 }).take(6));
    ns.sort();
    ns.dedup();
    for n in ns {
        let t = |p: &[&str], k: usize| p.iter().cycle().take(k).map(|x| format!("{x}\n")).collect::<String>();
        let num = |k: usize| (0..k).map(|i| format!("{i}\n")).collect::<String>();
        let mut add = |a: String, b: String, ctx: u64| {
            v.push(Case::new("!pair", vec![a.clone().into_bytes(), b.clone().into_bytes()], vec![ctx]));
            v.push(Case::new("!pair", vec![b.into_bytes(), a.into_bytes()], vec![ctx]));
        };
        // one line more or less in a run of equal ones; the same with a period; a block that stands there already
        add(t(&["a"], n) + "z\n", t(&["a"], n + 1) + "z\n", 3);
        add(t(&["a"], n), t(&["a"], 2 * n), 0);
        add("y\n".to_owned() + &t(&["a", "b", "}"], 3 * n) + "z\n", "y\n".to_owned() + &t(&["a", "b", "}"], 3 * n + 3) + "z\n", 3);
        add(num(n) + "z\n", num(n) + &num(n) + "z\n", 1);
        add(num(n), num(n) + &num(n), u64::MAX);
        if n < 300 {
            // several blocks, which slide into one another
            let five = |k: usize| (0..5).map(|i| format!("{i}:\n{}", t(&["a", "}"], 2 * k))).collect::<String>();
            add(five(n), five(n + 1), 3);
            add(t(&["a"], n) + "z\n" + &t(&["a"], n), t(&["a"], n + 2) + "z\n" + &t(&["a"], n + 1), 0);
            add(t(&["a"], 2 * n + 1), t(&["a"], n) + "z\n" + &t(&["a"], n), 3);
            add(t(&["a", "a", "b"], n), t(&["a", "b", "a"], n + 2), 3);
        }
    }
    v
}

fn d05(c: &Case, o: &mut Obs) -> R {
    let (old, new, ctx) = pair(c);
    let ls = lines(old);
    for (w, v) in views(old, new, ctx)? {
        for (k, h) in v.hunks.iter().enumerate() {
            let e = |m: String| Err(format!("{w}, hunk #{} (-{},{} +{},{}): {m}", k + 1, h.os, h.ol, h.ns, h.nl));
            let mut at = h.os.saturating_sub((h.ol > 0) as usize);
            let mut i = 0;
            while i < h.lines.len() {
                let run = h.lines[i..].iter().take_while(|l| l.0 != b' ').count();
                let block = &h.lines[i..i + run];
                let del = block.iter().take_while(|l| l.0 == b'-').count();
                if block[del..].iter().any(|l| l.0 == b'-') {
                    return e("deleted lines follow inserted ones".into());
                }
                at += del;
                if run > 0 {
                    if let Some(next) = ls.get(at) {
                        o.nontrivial = true;
                        for first in [(del > 0).then(|| &block[0]), block.get(del)].into_iter().flatten() {
                            o.add(if first.0 == b'-' { "blocks of deletions" } else { "blocks of insertions" }, 1);
                            if &first.1[..] == *next {
                                return e(format!("the block from {:?} could stand further down, the line after it is the same", show(&first.1)));
                            }
                        }
                    }
                    i += run;
                } else {
                    i += 1;
                    at += 1;
                }
            }
        }
    }
    Ok(())
}

fn gen_r01(rng: &mut Rng, cx: &Ctx) -> Case {
    if rng.chance(1, 4) {
        let m = gen::patch_model(rng, cx);
        let t = gen::patch_text(rng, cx, &m);
        Case::new("text", vec![t], vec![])
    } else {
        gen_pair(rng, cx)
    }
}

fn rev_rules<T: AsRef<[u8]> + ToOwned + ?Sized + PartialEq>(p: &Patch<'_, T>) -> R
where
    T::Owned: PartialEq,
{
    let v = view(p);
    let r = p.reverse();
    let want = reversed(&v);
    ensure!(view(&r) == want, "reverse() differs from swapping names, ranges and signs: {:?} instead of {:?}", view(&r), want);
    let rr = r.reverse();
    ensure!(view(&rr) == v, "reversing twice changed the patch");
    ensure!(rr == *p, "reversing twice gives a patch that is not equal");
    for (h, w) in p.hunks().iter().zip(&want.hunks) {
        let x = h.reverse();
        let r = (x.old_range().start(), x.old_range().len(), x.new_range().start(), x.new_range().len());
        ensure!(r == (w.os, w.ol, w.ns, w.nl), "Hunk::reverse has the wrong ranges {r:?}");
        ensure!(x.function_context().map(|f| f.as_ref().to_vec()) == w.fc, "Hunk::reverse changed the function context");
    }
    Ok(())
}

fn r01(c: &Case, o: &mut Obs) -> R {
    if c.tag == "text" {
        if let Ok(p) = guarded("from_bytes", || Patch::from_bytes(&c.t[0]))? {
            o.nontrivial = !p.hunks().is_empty();
            guarded("reverse", || rev_rules(&p))??;
            o.add("parsed patches reversed", 1);
        }
        if let Some(t) = s(&c.t[0]) {
            if let Ok(p) = guarded("from_str", || Patch::from_str(t))? {
                guarded("reverse", || rev_rules(&p))??;
            }
        }
        return Ok(());
    }
    let (old, new, ctx) = pair(c);
    let p = guarded("create_patch_bytes", || opts(ctx).create_patch_bytes(old, new))?;
    o.nontrivial = !p.hunks().is_empty();
    o.add("hunks reversed", p.hunks().len());
    guarded("reverse", || rev_rules(&p))??;
    let q = p.reverse();
    match guarded("apply_bytes", || apply_bytes(new, &q))? {
        Ok(x) => ensure!(x == old, "the reverse applied to the modified text gives {:?} instead of {:?}", show(&x), show(old)),
        Err(e) => return Err(format!("the reverse does not apply to the modified text: {e}")),
    }
    if let (Some(a), Some(b)) = (s(old), s(new)) {
        let p = guarded("create_patch", || opts(ctx).create_patch(a, b))?;
        guarded("reverse", || rev_rules(&p))??;
        let q = p.reverse();
        match guarded("apply", || apply(b, &q))? {
            Ok(x) => ensure!(x == a, "str: the reverse applied to the modified text gives {:?} instead of {:?}", show(x.as_bytes()), show(old)),
            Err(e) => return Err(format!("str: the reverse does not apply to the modified text: {e}")),
        }
    }
    Ok(())
}
