//! O01, V01, H01, A03: options, values, histories of patches, patches surviving other edits.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::refm::{reversed, show, view, HV};
use diffy::{apply, apply_bytes, create_patch, create_patch_bytes, merge, merge_bytes, ConflictStyle, DiffOptions, MergeOptions, Patch, PatchFormatter};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "O01", gen: gen_o01, count: o01_count, nth: o01_nth, special: special_o01, check: o01,
            rule: "sequences of option settings with uses in between; non-trivial: a use after at least two settings, on texts that differ" },
        Prop { id: "V01", gen: gen_v01, count: none_count, nth: none_nth, special: special_v01, check: v01,
            rule: "families of patches, made in different ways or differing in one place; non-trivial: an equal and an unequal pair were compared" },
        Prop { id: "H01", gen: gen_h01, count: h01_count, nth: h01_nth, special: special_h01, check: h01,
            rule: "chains of versions whose patches travel as text; non-trivial: at least two patches with hunks were replayed" },
        Prop { id: "A03", gen: gen_a03, count: a03_count, nth: a03_nth, special: special_a03, check: a03,
            rule: "texts of distinct lines, a patch, and edits elsewhere; non-trivial: both the patch and the other edits change something" },
    ]
}

// ------------------------------------------------------------------ O01
const CONTEXTS: [u64; 8] = [3, 0, 1, 2, 4, 7, 100, u64::MAX];
const STATIC: [&str; 8] = ["original", "modified", "", "a/b", "tab\there", "q\"q", "é", "nl\n"];
const MARKERS: [usize; 6] = [7, 0, 1, 3, 12, 80];
const OPS: u64 = 12;

/// t = [ancestor / old, ours / new, theirs, names...]; n: operation + OPS * argument
fn gen_o01(rng: &mut Rng, cx: &Ctx) -> Case {
    let (o, a, b) = gen::triple(rng, cx);
    let mut t = vec![o, a, b];
    for _ in 0..3 {
        t.push(gen::name(rng, cx));
    }
    let k = rng.range(1, 14);
    let n = (0..k).map(|_| rng.below(OPS as usize) as u64 + OPS * rng.below(8) as u64).collect();
    Case::new("ops", t, n)
}
fn o01_count(_: bool) -> u64 {
    let n = OPS * 8;
    n * n
}
fn o01_nth(_: bool, i: u64) -> Case {
    let n = OPS * 8;
    let texts: [&[u8]; 3] = [b"a\nb\nc\nd\ne\nf\ng\nh\n\ni", b"a\nb\nc\nd\nE\nf\ng\nh\n\ni\n", b"a\nb\nc\nd\nX\nf\ng\nh\n\ni"];
    Case::new("ops", texts.iter().map(|t| t.to_vec()).chain([b"n1".to_vec(), b"n2".to_vec()]).collect(), vec![i % n, 11, i / n])
}

/// lengths, of context and of marker, around the widths of integers
fn special_o01(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut ls: Vec<usize> = vec![126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537];
    ls.extend(cx.fb.large.iter().copied().filter(|n| *n > 100 && *n <= if th { 300_000 } else { 70_000 }).take(12));
    for l in ls {
        let old = numbered(2 * l + 9);
        let mut new = old.clone();
        new[l + 4] = b"x\n".to_vec();
        let mut other = old.clone();
        other[l + 4] = b"y\n".to_vec();
        v.push(Case::new("!ops", [old, new, other].iter().map(|t| t.concat()).collect(), vec![11, OPS * (l as u64 + 8)]));
        v.push(Case::new("!ops", vec![b"a\nb\n".to_vec(), b"a\nc\n".to_vec(), b"a\nd\n".to_vec()], vec![11, 8 + OPS * (l as u64 + 6)]));
    }
    v
}

fn o01(c: &Case, o: &mut Obs) -> R {
    let (x, y, z) = (&c.t[0][..], &c.t[1][..], &c.t[2][..]);
    let names: Vec<String> = c.t[3..].iter().filter_map(|n| s(n)).map(String::from).collect();
    let (mut d, mut f, mut m) = (DiffOptions::new(), PatchFormatter::new(), MergeOptions::new());
    // what the objects must hold
    let fresh = (3u64, "original".to_string(), "modified".to_string(), true, true, false, 7usize, true);
    let mut w = fresh.clone();
    let mut set = 0;
    for (i, op) in c.n.iter().chain(&[11]).enumerate() {
        let arg = (op / OPS) as usize;
        let name = names.get(arg % names.len().max(1)).cloned().unwrap_or_default();
        set += 1;
        match op % OPS {
            0 => {
                w.0 = CONTEXTS.get(arg).copied().unwrap_or((arg as u64).wrapping_sub(8));
                d.set_context_len(w.0 as usize);
            }
            1 => {
                d.set_original_filename(name.clone());
                w.1 = name;
            }
            2 => {
                d.set_modified_filename(name.clone());
                w.2 = name;
            }
            3 => {
                d.set_original_filename(STATIC[arg % 8]);
                w.1 = STATIC[arg % 8].into();
            }
            4 => {
                d.set_modified_filename(STATIC[arg % 8]);
                w.2 = STATIC[arg % 8].into();
            }
            5 => {
                w.3 = arg % 2 == 0;
                f = f.missing_newline_message(w.3);
            }
            6 => {
                w.4 = arg % 2 == 0;
                f = f.suppress_blank_empty(w.4);
            }
            7 => {
                w.5 = true;
                f = f.with_color();
            }
            8 => {
                w.6 = MARKERS.get(if arg < 8 { arg % 6 } else { arg }).copied().unwrap_or(arg.wrapping_sub(6));
                m.set_conflict_marker_length(w.6);
            }
            9 => {
                w.7 = arg % 2 == 0;
                m.set_conflict_style(if w.7 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
            }
            10 => {
                if arg % 2 == 0 {
                    (d, f, m) = (DiffOptions::new(), PatchFormatter::new(), MergeOptions::new());
                } else {
                    (d, f, m) = (DiffOptions::default(), PatchFormatter::default(), MergeOptions::default());
                }
                w = fresh.clone();
            }
            _ => {
                set -= 1;
                o.add("uses of options", 1);
                o.nontrivial |= set >= 2 && x != y;
                let at = format!("after {i} operations");
                let p = guarded("create_patch_bytes", || d.create_patch_bytes(x, y))?;
                let v = view(&p);
                let q = guarded("create_patch_bytes", || view(&DiffOptions::new().set_context_len(w.0 as usize).create_patch_bytes(x, y)))?;
                ensure!(
                    v.orig.as_deref() == Some(w.1.as_bytes()) && v.modi.as_deref() == Some(w.2.as_bytes()),
                    "{at} the patch names {:?} and {:?} instead of {:?} and {:?}",
                    v.orig.as_ref().map(|n| show(n)), v.modi.as_ref().map(|n| show(n)), w.1, w.2
                );
                ensure!(v.hunks == q.hunks, "{at} the hunks are not those of a context length of {}: {:?} instead of {:?}", w.0, v.hunks, q.hunks);
                super::diff::context_rules(&v, x, y, w.0, o).map_err(|e| format!("{at}: {e}"))?;
                if (w.0, &w.1[..], &w.2[..]) == (3, "original", "modified") {
                    let r = guarded("create_patch_bytes", || create_patch_bytes(x, y))?;
                    ensure!(r == p, "{at} options with the default values give another patch than create_patch_bytes");
                }
                let mut out = Vec::new();
                guarded("write_patch_into", || f.write_patch_into(&p, &mut out)).map(|r| r.map_err(|e| e.to_string()))??;
                super::patch::compare_render(&v, &out, w.5, w.3, w.4, &at, o)?;
                if (w.3, w.4, w.5) == (true, true, false) {
                    ensure!(guarded("to_bytes", || p.to_bytes())? == out, "{at} to_bytes is not the form the default formatter writes");
                }
                let canon = super::merge::mopts(w.6, w.7);
                let r = guarded("merge_bytes", || m.merge_bytes(x, y, z))?;
                ensure!(
                    r == guarded("merge_bytes", || canon.merge_bytes(x, y, z))?,
                    "{at} merging is not that of marker length {} and style {}", w.6, if w.7 { "Diff3" } else { "Merge" }
                );
                if let Err(out) = &r {
                    let safe = crate::refm::safe_marker_len(&[x, y, z], 7);
                    let base = guarded("merge_bytes", || super::merge::mopts(safe, true).merge_bytes(x, y, z))?.err().ok_or("a conflict depends on the options")?;
                    let items = crate::refm::parse_conflicts(&base, safe, true).map_err(|e| format!("{at} with marker length {safe}: {e}"))?;
                    ensure!(
                        *out == super::merge::render_items(&items, w.6, w.7),
                        "{at} the conflicts are not written with marker length {} and style {}", w.6, if w.7 { "Diff3" } else { "Merge" }
                    );
                    o.add("conflicts compared", 1);
                }
                if (w.6, w.7) == (7, true) {
                    ensure!(r == guarded("merge_bytes", || merge_bytes(x, y, z))?, "{at} options with the default values merge differently from merge_bytes");
                }
                if let (Some(x), Some(y), Some(z)) = (s(x), s(y), s(z)) {
                    let p = guarded("create_patch", || d.create_patch(x, y))?;
                    ensure!(view(&p) == v, "{at} create_patch gives {:?}, create_patch_bytes {:?}", view(&p), v);
                    if (w.0, &w.1[..], &w.2[..]) == (3, "original", "modified") {
                        ensure!(p == guarded("create_patch", || create_patch(x, y))?, "{at} options with the default values give another patch than create_patch");
                    }
                    let t = guarded("fmt_patch", || f.fmt_patch(&p).to_string())?;
                    super::patch::compare_render(&v, t.as_bytes(), w.5, w.3, w.4, &at, o)?;
                    if (w.3, w.4, w.5) == (true, true, false) {
                        ensure!(guarded("to_string", || p.to_string())? == t, "{at} to_string is not the form the default formatter writes");
                    }
                    let q = guarded("merge", || m.merge(x, y, z))?.map(String::into_bytes).map_err(String::into_bytes);
                    ensure!(q == r, "{at} merge and merge_bytes differ");
                    if (w.6, w.7) == (7, true) {
                        let q = guarded("merge", || merge(x, y, z))?.map(String::into_bytes).map_err(String::into_bytes);
                        ensure!(q == r, "{at} options with the default values merge differently from merge");
                    }
                }
                guarded("Debug", || format!("{d:?}{f:?}{m:?}").len())?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ V01
/// t = [old, new, patch texts...], n = [context]
fn gen_v01(rng: &mut Rng, cx: &Ctx) -> Case {
    let (a, b) = gen::pair(rng, cx);
    let m = gen::patch_model(rng, cx);
    let mut t = vec![a, b, crate::refm::render(&m, true, rng.chance(1, 2))];
    for _ in 0..rng.range(1, 4) {
        let mut v = m.clone();
        vary(rng, &mut v);
        t.push(crate::refm::render(&v, true, rng.chance(1, 2)));
    }
    if rng.chance(1, 3) {
        t.push(gen::patch_text(rng, cx, &m));
    }
    Case::new("family", t, vec![gen::context_len(rng, cx)])
}

/// one small change of a patch
fn vary(rng: &mut Rng, v: &mut PV) {
    let k = rng.below(9);
    let flip = |n: &mut Vec<u8>, rng: &mut Rng| match rng.below(5) {
        3 => n.make_ascii_uppercase(),
        4 if !n.is_empty() => {
            let p = rng.below(n.len());
            if n[p].is_ascii_alphabetic() {
                n[p] ^= 32;
            }
        }
        0 => n.push(b'x'),
        1 if !n.is_empty() => {
            let p = rng.below(n.len());
            if n[p].is_ascii_alphanumeric() {
                n[p] ^= 1;
            }
        }
        _ => {
            n.pop();
        }
    };
    if k == 0 {
        match &mut v.orig {
            Some(n) if rng.chance(2, 3) => flip(n, rng),
            n => *n = if n.is_some() { None } else { Some(Vec::new()) },
        }
        return;
    }
    if k == 1 {
        match &mut v.modi {
            Some(n) if rng.chance(2, 3) => flip(n, rng),
            n => *n = if n.is_some() { None } else { Some(Vec::new()) },
        }
        return;
    }
    if k == 2 {
        std::mem::swap(&mut v.orig, &mut v.modi);
        return;
    }
    if v.hunks.is_empty() {
        return;
    }
    if k == 3 {
        let i = rng.below(v.hunks.len());
        v.hunks.remove(i);
        return;
    }
    let last = v.hunks.len() - 1;
    let i = if rng.chance(1, 2) { last } else { rng.below(last + 1) };
    let h = &mut v.hunks[i];
    match k {
        4 => {
            h.fc = match h.fc.take() {
                None => Some(Vec::new()),
                Some(c) if rng.chance(1, 2) => Some([&c[..], b"x"].concat()),
                Some(_) => None,
            }
        }
        5 => h.os += 1,
        6 => h.ns += 1,
        _ if h.lines.is_empty() => {}
        7 => {
            let j = rng.below(h.lines.len());
            let l = &mut h.lines[j].1;
            let nl = l.last() == Some(&b'\n');
            l.truncate(l.len() - nl as usize);
            flip(l, rng);
            l.retain(|c| *c != b'\n');
            if nl {
                l.push(b'\n');
            }
        }
        _ => {
            // the newline of the last line
            let l = &mut h.lines.last_mut().unwrap().1;
            if l.last() == Some(&b'\n') {
                l.pop();
            } else {
                l.push(b'\n');
            }
        }
    }
}

fn special_v01(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let parts = ["", "--- a\n", "+++ a\n", "--- a\n+++ a\n", "--- a\n+++ b\n", "--- b\n+++ a\n", "--- \n+++ \n", "--- original\n+++ modified\n", "--- \"a\"\n+++ \"b\"\n"];
    let hunks = [
        "", "@@ -1 +1 @@\n-a\n+b\n", "@@ -1 +1 @@ \n-a\n+b\n", "@@ -1 +1 @@ f\n-a\n+b\n", "@@ -1,1 +1,1 @@\n-a\n+b\n", "@@ -1 +1 @@\n+b\n-a\n", "@@ -1 +1 @@\n-b\n+a\n",
        "@@ -2 +1 @@\n-a\n+b\n", "@@ -1 +2 @@\n-a\n+b\n", "@@ -1 +1 @@\n a\n", "@@ -1 +1 @@\n-a\n\\ No newline at end of file\n+b\n", "@@ -1 +1 @@\n-a\n+b\n\\ No newline at end of file\n",
        "@@ -1 +1 @@\n \n", "@@ -1 +1 @@\n\n", "@@ -1 +1 @@\n-a\n+b\n@@ -3 +3 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-b\n", "@@ -0,0 +0,0 @@\n", "@@ -1,0 +1,0 @@\n",
        "@@ -1 +1 @@\n-a\r\n+b\n", "@@ -1 +1 @@\n-A\n+b\n", "@@ -1 +1 @@\n-a \n+b\n", "@@ -1 +1 @@\n-a\n+b\n@@ -3 +3 @@\n",
    ];
    for h in hunks {
        let mut t = vec![b"a\n".to_vec(), b"b\n".to_vec()];
        t.extend(parts.iter().map(|p| [p, h].concat().into_bytes()));
        v.push(Case::new("family", t, vec![3]));
    }
    for p in parts {
        let mut t = vec![b"b\n".to_vec(), b"a\n".to_vec()];
        t.extend(hunks.iter().map(|h| [p, h].concat().into_bytes()));
        v.push(Case::new("family", t, vec![0]));
    }
    // large patches that differ in one place only
    let mut ns = vec![7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 4097];
    ns.extend(cx.fb.sizes.iter().copied().filter(|n| *n < 5000).take(60).flat_map(|n| [n, n + 1, 2 * n + 1]));
    ns.extend(if th { vec![10_000, 65_535, 65_537, 140_000] } else { vec![10_000, 65_537] });
    ns.sort();
    ns.dedup();
    for n in ns {
        let last = n.saturating_sub(1);
        let at = [None, Some((0, 'x')), Some((n / 2, 'A')), Some((last, 'x')), Some((usize::MAX, 'A'))];
        let mut add = |v: &mut Vec<Case>, f: &dyn Fn(usize, Option<(usize, char)>) -> String| {
            let t = [b"a\n".to_vec(), b"b\n".to_vec()].into_iter().chain(at.iter().map(|a| f(n, *a).into_bytes())).collect();
            v.push(Case::new("family", t, vec![1]));
        };
        let x = |i: usize, a: Option<(usize, char)>| match a {
            Some((p, c)) if p == i || p == usize::MAX => c,
            _ => 'a',
        };
        let word = move |n: usize, a: Option<(usize, char)>| (0..n).map(|i| x(i, a)).collect::<String>();
        // lines of a hunk; hunks; characters of a line, of a name, of a function context; numbers
        add(&mut v, &|n, a| format!("@@ -0,0 +1,{n} @@\n{}", (0..n).map(|i| format!("+{}\n", x(i, a))).collect::<String>()));
        if n < 5000 {
            add(&mut v, &|n, a| (0..n).map(|i| format!("@@ -{0} +{0} @@\n-o\n+{1}\n", 2 * i + 1, x(i, a))).collect());
            add(&mut v, &|n, a| (0..n).map(|i| format!("@@ -{0} +{0} @@ {1}\n-o\n+n\n", 2 * i + 1, x(i, a))).collect());
            add(&mut v, &|n, a| format!("@@ -1,{n} +1,{n} @@\n{}-o\n+n\n", (0..n.max(1) - 1).map(|i| format!(" {}\n", x(i, a))).collect::<String>()));
        }
        add(&mut v, &|n, a| format!("@@ -0,0 +1 @@\n+{}\n", word(n, a)));
        add(&mut v, &|n, a| format!("--- {}\n+++ b\n@@ -0,0 +1 @@\n+a\n", word(n, a)));
        add(&mut v, &|n, a| format!("--- a\n+++ {}\n@@ -0,0 +1 @@\n+a\n", word(n, a)));
        add(&mut v, &|n, a| format!("@@ -0,0 +1 @@ {}\n+a\n", word(n, a)));
        let of = |k: usize| [0, 1, 256, 65_536, 1 << 32, 1 << 62][k % 6];
        for (i, w) in ["@@ -{} +1 @@\n-a\n+b\n", "@@ -1 +{} @@\n-a\n+b\n", "@@ -{},0 +1 @@\n+b\n", "@@ -1 +{},0 @@\n-a\n"].iter().enumerate() {
            let t = [b"a\n".to_vec(), b"b\n".to_vec()].into_iter().chain((0..6).map(|k| w.replace("{}", &(n + of(k + i)).to_string()).into_bytes())).collect();
            v.push(Case::new("family", t, vec![1]));
        }
    }
    v
}

macro_rules! family {
    ($name:ident, $t:ty, $create:ident, $parse:ident) => {
        fn $name(old: &$t, new: &$t, texts: &[&$t], written: &[Vec<u8>], ctx: u64, o: &mut Obs) -> R {
            let mut base: Vec<(String, Patch<'_, $t>)> = Vec::new();
            guarded(stringify!($create), || {
                base.push(("created".into(), opts(ctx).$create(old, new)));
                base.push(("created again".into(), opts(ctx).$create(old, new)));
            })?;
            let mut names = opts(ctx);
            names.set_original_filename("modified").set_modified_filename("original");
            base.push(("created the other way".into(), guarded(stringify!($create), || names.$create(new, old))?));
            for (i, t) in texts.iter().enumerate() {
                if let Ok(p) = guarded(stringify!($parse), || Patch::$parse(t))? {
                    base.push((format!("parsed from text {i}"), p));
                }
            }
            let _ = written;
            let rev: Vec<(String, Patch<'_, $t>)> = guarded("reverse", || base.iter().map(|(w, p)| (format!("{w}, reversed"), p.reverse())).collect())?;
            let back: Vec<(String, Patch<'_, $t>)> = guarded("reverse", || rev.iter().map(|(w, p)| (format!("{w} twice"), p.reverse())).collect())?;
            let copies: Vec<(String, Patch<'_, $t>)> = guarded("clone", || {
                base.iter().chain(&rev).map(|(w, p)| {
                    let first = p.clone();
                    let second = first.clone();
                    drop(first);
                    (format!("clone of {w}"), second)
                }).collect()
            })?;
            let all: Vec<(&str, &Patch<'_, $t>, PV)> = base.iter().chain(&rev).chain(&back).chain(&copies).map(|(w, p)| (&w[..], p, view(p))).collect();
            let (mut eq, mut ne) = (0, 0);
            for (i, (w, p, v)) in all.iter().enumerate() {
                for (x, q, u) in &all[i..] {
                    let same = v == u;
                    if same { eq += 1 } else { ne += 1 }
                    let r = guarded("comparing", || (p == q, p != q, q == p))?;
                    ensure!(r == (same, !same, same), "{w} and {x} have {} content but compare {r:?}: {v:?} and {u:?}", if same { "the same" } else { "different" });
                }
            }
            o.add("pairs of equal patches", eq);
            o.add("pairs of unequal patches", ne);
            o.nontrivial |= eq > all.len() && ne > 0;
            // values inside
            let mut hs = Vec::new();
            for (w, p, v) in all.iter().take(base.len()) {
                let r = guarded("reverse", || p.reverse())?;
                ensure!(view(&r) == reversed(v), "{w}: reversed it reads {:?} instead of {:?}", view(&r), reversed(v));
                ensure!(r.hunks().len() == p.hunks().len(), "{w}: reversing changes the number of hunks");
                for (i, (h, hv)) in p.hunks().iter().zip(&v.hunks).enumerate() {
                    let one = guarded("Hunk::reverse", || h.reverse())?;
                    ensure!(one == r.hunks()[i], "{w}: hunk {i} reversed on its own is not hunk {i} of the reversed patch");
                    ensure!(guarded("Hunk::reverse", || one.reverse())? == *h, "{w}: hunk {i} reversed twice differs");
                    ensure!(h.clone() == *h && !(h.clone() != *h), "{w}: the clone of hunk {i} differs from it");
                    for l in h.lines() {
                        let k = l.reverse();
                        ensure!(k.reverse() == *l && (k == *l) == matches!(l, diffy::Line::Context(_)), "{w}: reversing line {l:?} gives {k:?}");
                    }
                    for g in [h.old_range(), h.new_range()] {
                        ensure!(
                            g.range() == (g.start()..g.start() + g.len()) && g.end() == g.start() + g.len() && g.is_empty() == (g.len() == 0),
                            "{w}: the accessors of {g:?} disagree"
                        );
                        ensure!(g.to_string() == if g.len() == 1 { g.start().to_string() } else { format!("{},{}", g.start(), g.len()) }, "{w}: {g:?} is written {g}");
                    }
                    if hs.len() < 12 {
                        hs.push((h, hv));
                    }
                }
                let dbg = guarded("Debug", || format!("{p:?}"))?;
                ensure!(dbg == guarded("Debug", || format!("{:?}", (*p).clone()))?, "{w}: its clone has another Debug form");
                guarded("Debug", || format!("{p:#?}").len())?;
            }
            let key = |h: &HV| h.clone();
            for (h, v) in &hs {
                for (k, u) in &hs {
                    ensure!((h == k) == (key(v) == key(u)) && (h != k) == (key(v) != key(u)), "hunks {v:?} and {u:?} compare wrongly");
                    ensure!((h.old_range() == k.old_range()) == ((v.os, v.ol) == (u.os, u.ol)), "ranges {:?} and {:?} compare wrongly", h.old_range(), k.old_range());
                    ensure!((h.new_range() == k.old_range()) == ((v.ns, v.nl) == (u.os, u.ol)), "ranges {:?} and {:?} compare wrongly", h.new_range(), k.old_range());
                    for (l, a) in h.lines().iter().zip(&v.lines).take(8) {
                        for (m, b) in k.lines().iter().zip(&u.lines).take(8) {
                            ensure!((l == m) == (a == b) && (l != m) == (a != b), "lines {l:?} and {m:?} compare wrongly");
                        }
                    }
                }
            }
            Ok(())
        }
    };
}
family!(family_bytes, [u8], create_patch_bytes, from_bytes);
family!(family_str, str, create_patch, from_str);

fn v01(c: &Case, o: &mut Obs) -> R {
    if c.size() > 4_000_000 {
        return Ok(());
    }
    let ctx = c.n.first().copied().unwrap_or(3);
    let own = guarded("create_patch_bytes", || opts(ctx).create_patch_bytes(&c.t[0], &c.t[1]).to_bytes())?;
    let texts: Vec<&[u8]> = c.t[2..].iter().map(|t| &t[..]).chain([&own[..]]).take(26).collect();
    family_bytes(&c.t[0], &c.t[1], &texts, &[], ctx, o)?;
    if let (Some(a), Some(b)) = (s(&c.t[0]), s(&c.t[1])) {
        let texts: Vec<&str> = texts.iter().filter_map(|t| s(t)).collect();
        family_str(a, b, &texts, &[], ctx, o)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ H01
/// t = versions, n = [per step: context; then flags]
fn gen_h01(rng: &mut Rng, cx: &Ctx) -> Case {
    let voc = gen::vocab(rng, cx);
    let n = gen::n_lines(rng, cx).min(400);
    let mut cur = gen::seq(rng, &voc, n);
    let mut seen = vec![cur.clone()];
    let mut t = vec![gen::join(rng, &cur)];
    for _ in 0..rng.range(1, 7) {
        match rng.below(12) {
            0 => cur = rng.pick(&seen).clone(),
            1 => cur = Vec::new(),
            2 => {
                let n = rng.below(12);
                cur = gen::seq(rng, &voc, n);
            }
            3 => {} // only the final newline may change
            _ => {
                let k = gen::n_edits(rng, cur.len());
                gen::edit(rng, &mut cur, &voc, k);
            }
        }
        seen.push(cur.clone());
        t.push(gen::join(rng, &cur));
    }
    let mut n: Vec<u64> = t.iter().skip(1).map(|_| gen::context_len(rng, cx)).collect();
    n.push(rng.next() % 64);
    Case::new("chain", t, n)
}
fn h01_count(th: bool) -> u64 {
    triple_count(th)
}
fn h01_nth(th: bool, i: u64) -> Case {
    let c = triple_nth(th, i);
    Case::new("chain", c.t, vec![i % 4, (i / 4) % 3, i % 64])
}
fn special_h01(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = special_pairs(th, cx)
        .into_iter()
        .filter(|c| c.size() < 400_000)
        .enumerate()
        .map(|(i, c)| Case::new("!chain", vec![c.t[0].clone(), c.t[1].clone(), c.t[0].clone()], vec![c.n[0], 3, i as u64 % 64]))
        .collect();
    for k in [50usize, 300] {
        // long histories
        let mut t = vec![Vec::new()];
        let mut cur: Vec<Vec<u8>> = Vec::new();
        for i in 0..k {
            cur.insert(i * 7 % (cur.len() + 1), format!("{}\n", i % 9).into_bytes());
            if i % 5 == 4 {
                cur.remove(i * 3 % cur.len());
            }
            t.push(cur.concat());
        }
        for c in [0u64, 1, 3] {
            v.push(Case::new("!chain", t.clone(), (0..k).map(|_| c).chain([c]).collect()));
        }
    }
    v
}

fn h01(c: &Case, o: &mut Obs) -> R {
    let k = c.t.len();
    if k < 2 {
        return Ok(());
    }
    let flags = c.n.last().copied().unwrap_or(0);
    let mut stored: Vec<Vec<u8>> = Vec::new();
    let text = c.t.iter().all(|t| s(t).is_some());
    let suppress = |i: usize| (flags >> (i % 3)) & 1 == 0;
    let mut named = 0;
    for i in 0..k - 1 {
        let mut op = opts(c.n.get(i).copied().unwrap_or(3));
        if flags & 8 != 0 {
            op.set_original_filename(format!("v{i}")).set_modified_filename(format!("v\t{}", i + 1));
            named += 1;
        }
        let f = super::patch::formatter(false, true, suppress(i));
        let mut out = Vec::new();
        if text && flags & 16 != 0 {
            let (a, b) = (s(&c.t[i]).unwrap(), s(&c.t[i + 1]).unwrap());
            let p = guarded("create_patch", || op.create_patch(a, b))?;
            out = guarded("fmt_patch", || f.fmt_patch(&p).to_string())?.into_bytes();
        } else {
            let p = guarded("create_patch_bytes", || op.create_patch_bytes(&c.t[i], &c.t[i + 1]))?;
            guarded("write_patch_into", || f.write_patch_into(&p, &mut out))?.map_err(|e| e.to_string())?;
        }
        stored.push(out);
    }
    let _ = named;
    let mut with_hunks = 0;
    // forward, then backward, by the patches read back
    let read = |i: usize| guarded("from_bytes", || Patch::from_bytes(&stored[i]))?.map_err(|e| format!("the stored patch {i} is not accepted: {e}: {:?}", show(&stored[i])));
    let mut cur = c.t[0].clone();
    for i in 0..k - 1 {
        let p = read(i)?;
        with_hunks += !p.hunks().is_empty() as usize;
        cur = guarded("apply_bytes", || apply_bytes(&cur, &p))?.map_err(|e| format!("version {}: {e}", i + 1))?;
        o.add("patches replayed", 1);
        ensure!(cur == c.t[i + 1], "replaying patch {i} gives {:?} instead of version {}: {:?}", show(&cur), i + 1, show(&c.t[i + 1]));
    }
    for i in (0..k - 1).rev() {
        let p = read(i)?;
        let r = guarded("reverse", || p.reverse())?;
        if flags & 32 != 0 {
            // the reverse is stored as well
            let b = guarded("to_bytes", || r.to_bytes())?;
            let q = guarded("from_bytes", || Patch::from_bytes(&b))?.map_err(|e| format!("the reverse of patch {i} is not accepted: {e}: {:?}", show(&b)))?;
            cur = guarded("apply_bytes", || apply_bytes(&cur, &q))?.map_err(|e| format!("back to version {i}: {e}"))?;
        } else {
            cur = guarded("apply_bytes", || apply_bytes(&cur, &r))?.map_err(|e| format!("back to version {i}: {e}"))?;
        }
        o.add("patches undone", 1);
        ensure!(cur == c.t[i], "undoing patch {i} gives {:?} instead of version {i}: {:?}", show(&cur), show(&c.t[i]));
    }
    if text {
        let mut cur = s(&c.t[0]).unwrap().to_string();
        for i in 0..k - 1 {
            let x = s(&stored[i]).ok_or("a patch of texts is not text")?;
            let p = guarded("from_str", || Patch::from_str(x))?.map_err(|e| format!("the stored patch {i} is not accepted as text: {e}"))?;
            cur = guarded("apply", || apply(&cur, &p))?.map_err(|e| format!("version {} as text: {e}", i + 1))?;
            o.add("patches replayed", 1);
            ensure!(cur.as_bytes() == c.t[i + 1], "replaying patch {i} as text gives {:?} instead of version {}", show(cur.as_bytes()), i + 1);
        }
        for i in (0..k - 1).rev() {
            let x = s(&stored[i]).unwrap();
            let p = guarded("from_str", || Patch::from_str(x))?.map_err(|e| e.to_string())?;
            cur = guarded("apply", || apply(&cur, &p.reverse()))?.map_err(|e| format!("back to version {i} as text: {e}"))?;
            o.add("patches undone", 1);
            ensure!(cur.as_bytes() == c.t[i], "undoing patch {i} as text gives {:?} instead of version {i}", show(cur.as_bytes()));
        }
    }
    o.nontrivial = with_hunks >= 2;
    Ok(())
}

// ------------------------------------------------------------------ A03
/// n = [context, one code per line and one for the end]: bits 0-1 what the patch does, bits 2-3 what the other edits do:
/// 0 nothing, 1 delete the line, 2 replace it, 3 insert before it. t[0]: naming style, optional '-' (no final newline).
fn gen_a03(rng: &mut Rng, cx: &Ctx) -> Case {
    let n = match rng.below(20) {
        0..=9 => rng.range(1, 14),
        10..=18 => rng.range(10, 60),
        _ => gen::size(rng, cx.fb).min(600),
    };
    let (pd, od) = (*rng.pick(&[2usize, 4, 10, 30]), *rng.pick(&[1usize, 2, 3, 6]));
    let mut v = vec![*rng.pick(&[0u64, 1, 1, 2, 3, 3, 5])];
    for _ in 0..=n {
        let mut c = 0;
        if rng.chance(1, pd) {
            c |= 1 + rng.below(3) as u64;
        }
        if rng.chance(1, od) {
            c |= (1 + rng.below(3) as u64) << 2;
        }
        v.push(c);
    }
    let mut t = vec![*rng.pick(b"012345678")];
    if rng.chance(1, 4) {
        t.push(b'-');
    }
    Case::new("script", vec![t], v)
}
fn a03_count(th: bool) -> u64 {
    2 * 16u64.pow(4) + if th { 16u64.pow(5) } else { 0 }
}
fn a03_nth(_: bool, mut i: u64) -> Case {
    let mut v = Vec::new();
    let p4 = 16u64.pow(4);
    if i < 2 * p4 {
        v.push(i / p4);
        i %= p4;
        v.extend((0..4).map(|k| i >> (4 * k) & 15));
    } else {
        i -= 2 * p4;
        v.push(1);
        v.extend((0..5).map(|k| i >> (4 * k) & 15));
    }
    Case::new("script", vec![b"0".to_vec()], v)
}
fn special_a03(_: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut ns = vec![100usize, 255, 256, 257, 1000, 4096, 20_000, 65_536];
    ns.extend(cx.fb.sizes.iter().copied().take(60));
    ns.extend(cx.fb.large.iter().copied().filter(|n| *n < 70_000).take(6));
    for n in ns {
        for (ctx, style) in [(3u64, b'0'), (1, b'1'), (0, b'0'), (3, b'6')] {
            let mut add = |edits: &[(usize, u64)]| {
                let mut c = vec![0u64; n + 2];
                c[0] = ctx;
                for (i, k) in edits {
                    c[1 + (*i).min(n)] |= *k;
                }
                v.push(Case::new("!script", vec![vec![style]], c));
            };
            // everything in front of the change deleted, or much inserted there
            let front = |k: u64| (0..n / 2).map(|i| (i, k)).collect::<Vec<_>>();
            let back = |k: u64| (n / 2 + 10..n).map(|i| (i, k)).collect::<Vec<_>>();
            let change = vec![(n / 2 + 5, 2u64)];
            for (a, b) in [(front(1 << 2), vec![]), (front(3 << 2), vec![]), (vec![], back(1 << 2)), (vec![], back(3 << 2)), (front(3 << 2), back(1 << 2)), (front(1 << 2), back(3 << 2))] {
                add(&[a, b, change.clone()].concat());
            }
            // several hunks with a growing shift between them
            let h: Vec<(usize, u64)> = (0..n).map(|i| (i, if i % 97 == 40 { 2 } else if i % 97 > 60 && i % 3 != 0 { [3 << 2, 1 << 2][(i / 97) % 2] } else { 0 })).collect();
            if n <= 5000 {
                add(&h);
                // insertions only
                add(&(0..n).map(|i| (i, if i % 31 == 10 { 3 } else if i % 31 == 25 { 3 << 2 } else { 0 })).collect::<Vec<_>>());
            }
        }
    }
    v
}

fn a03(c: &Case, obs: &mut Obs) -> R {
    let style = c.t[0].first().copied().unwrap_or(b'0');
    if c.n.len() < 2 {
        return Ok(());
    }
    let ctx = c.n[0].min(1 << 20) as usize;
    let n = c.n.len() - 2;
    if style == b'8' && n > 9000 || style == b'5' && n > 3000 {
        return Ok(());
    }
    let mine: Vec<u64> = c.n[1..].iter().enumerate().map(|(i, k)| match k & 3 {
        1 | 2 if i == n => 0,
        3 if ctx == 0 && i < n => 2,
        3 if ctx == 0 => 0,
        k => k,
    }).collect();
    // lines the patch must find again, gaps it inserts at
    let mut kept = vec![false; n];
    for (i, k) in mine.iter().enumerate().filter(|(_, k)| **k != 0) {
        let (lo, hi) = if *k == 3 { (i.saturating_sub(ctx), (i + ctx).min(n)) } else { (i.saturating_sub(ctx), (i + ctx + 1).min(n)) };
        kept[lo..hi].fill(true);
    }
    let theirs: Vec<u64> = c.n[1..].iter().enumerate().map(|(i, k)| match k >> 2 & 3 {
        1 | 2 if i == n || kept[i] => 0,
        3 if mine[i] == 3 || (i > 0 && kept[i - 1] && i < n && kept[i]) => 0,
        // next to a line the patch removes there must be a kept one
        3 if ctx == 0 && ((i < n && mine[i] != 0) || (i > 0 && mine[i - 1] != 0)) => 0,
        3 if (i < n && matches!(mine[i], 1 | 2)) || (i > 0 && matches!(mine[i - 1], 1 | 2)) => 0,
        k => k,
    }).collect();
    let line = |i: usize| [super::merge::line_name(style, i), b"\n".to_vec()].concat();
    let other = |i: usize, w: &str| [super::merge::line_name(style, i), w.as_bytes().to_vec(), b"\n".to_vec()].concat();
    let build = |m: bool, t: bool| -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        for i in 0..=n {
            let (a, b) = (if m { mine[i] } else { 0 }, if t { theirs[i] } else { 0 });
            if a == 3 {
                v.push(other(i, "+mine"));
            }
            if b == 3 {
                v.push(other(i, "+other"));
            }
            if i == n {
                break;
            }
            match (a, b) {
                (1, _) | (_, 1) => {}
                (2, _) => v.push(other(i, "=mine")),
                (_, 2) => v.push(other(i, "=other")),
                _ => v.push(line(i)),
            }
        }
        v
    };
    let all = [build(false, false), build(true, false), build(false, true), build(true, true)];
    let open = c.t[0].get(1) == Some(&b'-') && n > 0 && [&mine, &theirs].iter().all(|v| v[n] == 0 && v[n - 1] & 1 == 0 && v[n - 1] != 2);
    let [old, new, base, want] = all.map(|v| {
        let mut t = v.concat();
        if open {
            t.pop();
        }
        t
    });
    let (old, new, base, want) = (&old[..], &new[..], &base[..], &want[..]);
    let p = guarded("create_patch_bytes", || opts(ctx as u64).create_patch_bytes(old, new))?;
    let v = view(&p);
    if v.hunks.iter().any(|h| h.ol == 0) {
        return Ok(());
    }
    obs.nontrivial = old != new && old != base;
    obs.add("patches applied to a text edited elsewhere", 1);
    if obs.nontrivial {
        obs.add("with changes on both sides", 1);
    }
    let at = || format!("patch from {:?} to {:?} with context {ctx}, applied to {:?}", show(old), show(new), show(base));
    match guarded("apply_bytes", || apply_bytes(base, &p))? {
        Ok(x) => ensure!(x == want, "{}: {:?} instead of {:?}", at(), show(&x), show(want)),
        Err(e) => return Err(format!("{}: {e}", at())),
    }
    if let (Some(a), Some(b), Some(x), Some(y)) = (s(old), s(new), s(base), s(want)) {
        let p = guarded("create_patch", || opts(ctx as u64).create_patch(a, b))?;
        match guarded("apply", || apply(x, &p))? {
            Ok(r) => ensure!(r == y, "{} as text: {:?} instead of {:?}", at(), show(r.as_bytes()), show(want)),
            Err(e) => return Err(format!("{} as text: {e}", at())),
        }
    }
    if v.hunks.iter().all(|h| h.nl > 0) {
        obs.add("undone in the edited text", 1);
        match guarded("apply_bytes", || apply_bytes(want, &p.reverse()))? {
            Ok(x) => ensure!(x == base, "undoing the {}: {:?} instead of {:?}", at(), show(&x), show(base)),
            Err(e) => return Err(format!("undoing the {}: {e}", at())),
        }
    }
    if ctx > 0 && n <= 3000 {
        obs.add("compared with the merge", 1);
        let r = guarded("merge_bytes", || merge_bytes(old, new, base))?;
        ensure!(r.as_deref() == Ok(want), "the {} succeeds, but merging gives {:?}", at(), r.as_ref().map_or_else(|e| show(e), |x| show(x)));
    }
    Ok(())
}
