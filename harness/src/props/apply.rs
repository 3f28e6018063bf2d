//! A01, A02: applying patches to texts they may or may not have been made for.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::refm::{apply_explained, apply_nearest, lines, render, show, Applied, HV};
use diffy::{apply, apply_bytes, Patch};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "A01", gen: gen_apply, count: enum_count, nth: enum_nth, special: special_apply, check: a01,
            rule: "base texts and patches made for the base, for a drifted variant of it, or at random over a small alphabet; non-trivial: the patch applied and changed something" },
        Prop { id: "A02", gen: gen_apply, count: enum_count, nth: enum_nth, special: special_apply, check: a02,
            rule: "as A01; non-trivial: a hunk was placed away from its stated line, had several candidate places, or had none" },
    ]
}

fn split(t: &[u8]) -> Vec<Vec<u8>> {
    lines(t).iter().map(|l| l.to_vec()).collect()
}

/// t = [base, patch text]
pub fn gen_apply(rng: &mut Rng, cx: &Ctx) -> Case {
    let small = Ctx { fb: cx.fb, utf8: cx.utf8, max_lines: 30 };
    if rng.chance(1, 2) {
        // a real patch and a base that drifted
        let cxx = if rng.chance(1, 8) { cx } else { &small };
        let (old, new) = gen::pair(rng, cxx);
        let ctx = rng.pick(&[0u64, 0, 1, 1, 2, 3]);
        let mut v = view(&opts(*ctx).create_patch_bytes(&old, &new));
        v.orig = None;
        v.modi = None;
        let voc = gen::vocab(rng, cxx);
        let mut b = split(&old);
        for l in b.iter_mut() {
            if l.last() == Some(&b'\n') {
                l.pop();
            }
        }
        let k = rng.below(4);
        gen::edit(rng, &mut b, &voc, k);
        if rng.chance(1, 3) {
            let m = rng.range(1, 12);
            let pre = gen::seq(rng, &voc, m);
            b = [pre, b].concat();
        }
        if rng.chance(1, 5) && !b.is_empty() {
            let c = rng.range(1, 3);
            b = (0..c).flat_map(|_| b.clone()).collect();
        }
        let shift = match rng.below(6) {
            0 => rng.range(1, 9),
            1 => *rng.pick(&[100usize, 10_000, 1 << 40, usize::MAX / 4]),
            _ => 0,
        };
        let down = rng.chance(1, 3);
        for h in v.hunks.iter_mut() {
            if down {
                h.os = h.os.saturating_sub(shift);
                h.ns = h.ns.saturating_sub(shift);
            } else {
                h.os += shift;
                h.ns += shift;
            }
        }
        let base = gen::join(rng, &b);
        let base = if rng.chance(1, 3) { old } else { base };
        return Case::new("apply", vec![base, render(&v, true, false)], vec![]);
    }
    let voc: Vec<Vec<u8>> = if rng.chance(2, 3) {
        rng.pick(&[&["a"][..], &["a", "b"], &["a", "b", "c"], &["", "a"], &["a", "a ", "a\r"]]).iter().map(|x| x.as_bytes().to_vec()).collect()
    } else {
        gen::vocab(rng, cx)
    };
    let long = rng.chance(1, 6);
    let n = rng.below(if long { 40 } else { 10 });
    let b = gen::seq(rng, &voc, n);
    let base = gen::join(rng, &b);
    let p = gen::loose_patch(rng, &voc, &split(&base));
    Case::new("apply", vec![base, render(&p, true, false)], vec![])
}

struct Small {
    bases: Vec<Vec<u8>>,
    hunks: Vec<Vec<(u8, Vec<u8>)>>,
}
fn small(th: bool) -> &'static Small {
    static Q: OnceLock<Small> = OnceLock::new();
    static T: OnceLock<Small> = OnceLock::new();
    (if th { &T } else { &Q }).get_or_init(|| {
        let mut hunks: Vec<Vec<(u8, Vec<u8>)>> = vec![vec![]];
        let mut level = hunks.clone();
        for _ in 0..if th { 4 } else { 3 } {
            let mut next = Vec::new();
            for h in &level {
                for k in b" -+" {
                    for l in [&b"a\n"[..], b"b\n"] {
                        let mut x = h.clone();
                        x.push((*k, l.to_vec()));
                        next.push(x);
                    }
                }
            }
            hunks.extend(next.clone());
            level = next;
        }
        Small { bases: texts(&["a", "b"], if th { 6 } else { 5 }), hunks }
    })
}
fn enum_count(th: bool) -> u64 {
    let t = small(th);
    (t.bases.len() * t.hunks.len() * 8) as u64
}
fn enum_nth(th: bool, i: u64) -> Case {
    let t = small(th);
    let i = i as usize;
    let at = i % 8;
    let ls = t.hunks[i / 8 % t.hunks.len()].clone();
    let base = t.bases[i / 8 / t.hunks.len()].clone();
    let ol = ls.iter().filter(|l| l.0 != b'+').count();
    let nl = ls.iter().filter(|l| l.0 != b'-').count();
    let h = HV { os: at, ol, ns: at, nl, fc: None, lines: ls };
    Case::new("apply", vec![base, render(&PV { orig: None, modi: None, hunks: vec![h] }, true, false)], vec![])
}

fn special_apply(_: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut ns: Vec<usize> = vec![100, 255, 256, 257, 1000, 1024, 4096, 10_000, 65_535, 65_536, 65_537];
    ns.extend(cx.fb.sizes.iter().copied().take(60));
    ns.extend(cx.fb.large.iter().copied().take(8));
    for &n in &ns {
        let n = n.max(8);
        let mut b = vec![b"f\n".to_vec(); n + 4];
        let one = |at: usize, l: &str| HV { os: at, ol: 1, ns: at, nl: 1, fc: None, lines: vec![(b'-', format!("{l}\n").into_bytes()), (b'+', b"new\n".to_vec())] };
        let mk = |b: &Vec<Vec<u8>>, hs: Vec<HV>| Case::new("!apply", vec![b.concat(), render(&PV { orig: None, modi: None, hunks: hs }, true, false)], vec![]);
        // the only match is n lines away, in either direction
        b[1] = b"t\n".to_vec();
        v.push(mk(&b, vec![one(n + 2, "t")]));
        v.push(mk(&b, vec![one(usize::MAX - 1, "t")]));
        b[1] = b"f\n".to_vec();
        b[n + 1] = b"t\n".to_vec();
        v.push(mk(&b, vec![one(2, "t")]));
        v.push(mk(&b, vec![one(0, "t")]));
        // two matches, at distances n/2 - 1 and n/2 + 2
        b[1] = b"t\n".to_vec();
        v.push(mk(&b, vec![one(n / 2, "t")]));
        v.push(mk(&b, vec![one(n / 2 + 4, "t")]));
        // none, in the last of many hunks
        if n <= 2000 {
            let k = n.min(400);
            let mut hs: Vec<HV> = (0..k).map(|i| one(i + 1, "f")).collect();
            let base: Vec<Vec<u8>> = vec![b"f\n".to_vec(); k];
            v.push(mk(&base, hs.clone()));
            hs.push(one(k + 1, "f"));
            v.push(mk(&base, hs));
        }
        // long hunk, mismatch at its far end only
        if n <= 10_000 {
            let base: Vec<Vec<u8>> = (0..n).map(|i| format!("{}\n", i % 3).into_bytes()).collect();
            for bad in [false, true] {
                let mut ls: Vec<(u8, Vec<u8>)> = base.iter().map(|l| (b' ', l.clone())).collect();
                ls[0].0 = b'-';
                if bad {
                    ls[n - 1].1 = b"?\n".to_vec();
                }
                v.push(mk(&base, vec![HV { os: 1, ol: n, ns: 1, nl: n - 1, fc: None, lines: ls }]));
            }
        }
    }
    v
}

/// (view of the parsed patch, result through bytes, result through str)
#[allow(clippy::type_complexity)]
fn run(c: &Case) -> Result<Option<(PV, Vec<(&'static str, Result<Vec<u8>, String>)>)>, String> {
    let (base, text) = (&c.t[0], &c.t[1]);
    let Ok(p) = guarded("from_bytes", || Patch::from_bytes(text))? else { return Ok(None) };
    let mut v = vec![("apply_bytes", guarded("apply_bytes", || apply_bytes(base, &p))?.map_err(|e| e.to_string()))];
    if let (Some(b), Some(t)) = (s(base), s(text)) {
        if let Ok(q) = guarded("from_str", || Patch::from_str(t))? {
            v.push(("apply", guarded("apply", || apply(b, &q))?.map(String::into_bytes).map_err(|e| e.to_string())));
        }
    }
    Ok(Some((view(&p), v)))
}

fn a01(c: &Case, o: &mut Obs) -> R {
    let Some((v, rs)) = run(c)? else { return Ok(()) };
    let mut done: Option<Vec<u8>> = None;
    for (w, r) in rs {
        let Ok(out) = r else {
            o.add("failed applications", 1);
            continue;
        };
        o.add("successful applications", 1);
        o.nontrivial |= out != c.t[0];
        if done.as_ref() == Some(&out) {
            continue;
        }
        match apply_explained(&c.t[0], &v, &out) {
            Some(true) => {}
            Some(false) => return Err(format!("{w}: the result {:?} is not the base with every hunk replaced at a matching place", show(&out))),
            None => o.add("undecided within budget", 1),
        }
        done = Some(out);
    }
    Ok(())
}

fn a02(c: &Case, o: &mut Obs) -> R {
    let Some((v, rs)) = run(c)? else { return Ok(()) };
    let want = apply_nearest(&c.t[0], &v);
    let (oks, errs) = match &want {
        Applied::Ok(a) => (&a[..], &[][..]),
        Applied::Err(b) => (&[][..], &b[..]),
        Applied::Either(a, b) => (&a[..], &b[..]),
        Applied::TooBig => {
            o.add("too many ties", 1);
            return Ok(());
        }
    };
    // stated places that match directly are the trivial ones
    let img = lines(&c.t[0]);
    o.nontrivial = !errs.is_empty()
        || v.hunks.iter().any(|h| {
            let pre: Vec<&[u8]> = h.pre().map(|l| &l[..]).collect();
            let at = if h.nl == 0 { h.ns } else { h.ns.saturating_sub(1) };
            !pre.is_empty() && (img.get(at..at.saturating_add(pre.len())) != Some(&pre[..]) || img.windows(pre.len()).filter(|w| *w == &pre[..]).count() > 1)
        });
    for (w, r) in rs {
        match r {
            Ok(out) => {
                o.add("successful applications", 1);
                ensure!(
                    oks.contains(&out),
                    "{w}: gave {:?}; applying each hunk at the nearest matching place gives {}",
                    show(&out),
                    match oks.first() {
                        Some(x) => format!("{:?}", show(x)),
                        None => format!("an error for hunk {errs:?}"),
                    }
                );
            }
            Err(e) => {
                o.add("failed applications", 1);
                let n: Option<usize> = e.rsplit('#').next().and_then(|x| x.trim().parse().ok());
                ensure!(
                    n.is_some_and(|n| errs.contains(&n)),
                    "{w}: failed with {e:?}; {}",
                    match oks.first() {
                        Some(x) => format!("applying each hunk at the nearest matching place gives {:?}", show(x)),
                        None => format!("the first hunk without a matching place is {errs:?}"),
                    }
                );
            }
        }
    }
    Ok(())
}
