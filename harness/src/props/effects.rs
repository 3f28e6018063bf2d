//! S06, S07: no side effects, no memory kept.
use super::*;
use crate::case::Case;
use crate::ensure;
use crate::mon::{effects, CUR};
use std::sync::atomic::Ordering::Relaxed;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "S06", gen: gen_s06, count: none_count, nth: none_nth, special: special_s06, check: s06,
            rule: "inputs of every kind, accepted and rejected, run through every public operation with the doors to the outside watched; non-trivial: an operation beyond rejecting the input was reached" },
        Prop { id: "S07", gen: gen_s07, count: none_count, nth: none_nth, special: special_s07, check: s07,
            rule: "inputs of every kind, each run several times through every public operation, and long histories of distinct inputs of equal size; non-trivial: an operation beyond rejecting the input was reached" },
    ]
}

/// every public operation on one case
fn all_operations(c: &Case, o: &mut Obs) -> R {
    if c.tag == "batch" {
        o.nontrivial = true;
        for t in c.t.chunks_exact(3) {
            crate::mon::guarded("digest", || super::sys::digest(&t[0], &t[1], &t[2], c.n[0]))?;
        }
        return Ok(());
    }
    super::sys::s02(c, o)
}

fn gen_s06(rng: &mut Rng, cx: &Ctx) -> Case {
    if rng.chance(1, 5) {
        super::sys::gen_s03(rng, cx)
    } else {
        super::sys::gen_s02(rng, cx)
    }
}

fn special_s06(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = super::sys::special_s02(th, cx).into_iter().filter(|c| c.tag != "long").step_by(if th { 1 } else { 5 }).collect();
    v.extend((0..super::sys::LONGS).map(|k| Case::new("long", vec![], vec![k])));
    v
}

fn s06(c: &Case, o: &mut Obs) -> R {
    static TESTED: OnceLock<Result<u64, String>> = OnceLock::new();
    let n = TESTED.get_or_init(effects::self_test).clone()?;
    o.max("kinds of effects the self-test provoked and saw", n);
    let (r, seen) = effects::watched(|| all_operations(c, o));
    o.add("inputs run under watch", 1);
    ensure!(seen.is_empty(), "an operation reached outside: it called {}", seen.join(", "));
    if r.is_err() {
        o.nontrivial = false; // not this property's business
    }
    Ok(())
}

// ------------------------------------------------------------------ S07
fn gen_s07(rng: &mut Rng, cx: &Ctx) -> Case {
    let mut c = gen_s06(rng, cx);
    while c.size() > 30_000 {
        c = gen_s06(rng, cx);
    }
    c
}

const FAMILIES: u64 = 8;
fn special_s07(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = (0..FAMILIES).map(|k| Case::new("!history", vec![], vec![k])).collect();
    v.extend(super::sys::special_s02(th, cx).into_iter().filter(|c| c.tag != "long" && c.size() < 10_000).step_by(7));
    v.extend((0..super::sys::LONGS).map(|k| Case::new("long", vec![], vec![k])));
    v
}

/// the i-th of a family of inputs which all have the same sizes
fn member(family: u64, i: u64) -> Case {
    let id = format!("{:06}", 100_000 + i);
    let t = |v: Vec<String>, tag: &str, n: u64| Case::new(tag, v.into_iter().map(String::into_bytes).collect(), vec![n]);
    match family {
        0 => t(vec![format!("a\n{id}\nb\nc\n"), format!("a\nb\n{id}x\nc\n"), "o".into(), "m".into()], "pair", i % 5),
        1 => t(vec![format!("a\n{id}\nb"), format!("a\n{id}\nc"), format!("d\"{id}"), format!("e\t{id}")], "pair", 3),
        2 => t(vec![format!("--- a/{id}\n+++ \"b\\t{id}\"\n@@ -1,2 +1,2 @@ {id}\n {id}\n-a\n+b\n"), format!("{id}\na\n")], "text", 0),
        3 => t(vec![format!("--- a/{id}\n+++ b\n@@ -1,2 +1,2 @@ {id}\n {id}\n-a\n"), "a\n".into()], "text", 0),
        4 => t(vec![format!("@@ -{id} +{id},2 @@\n-{id}\n+b\n+{id}\n@@ -2{id} +2{id} @@ {id}\n-a\n+{id}\n"), format!("{id}\n")], "text", 0),
        5 => t(vec![format!("a\n{id}\nb\n"), format!("a\nx{id}\nb\n"), format!("a\ny{id}\nb\n")], "triple", i % 12),
        6 => t(vec![format!("a\n{id}\nb\nc\nd\n"), format!("{id}\na\n{id}\nb\nc\nd\n"), format!("a\n{id}\nb\nc\nd\n{id}\n")], "triple", 7),
        _ => t(vec![format!("é{id}\nb\n"), format!("é{id}\nc\n"), format!("--- {id}\n+++ {id}\n@@ -1 +1 @@\n-é{id}\n+c")], "batch", i % 4),
    }
}

fn s07(c: &Case, o: &mut Obs) -> R {
    if c.tag == "!history" {
        let mut run = |from: u64, to: u64| -> Result<i64, String> {
            for i in from..to {
                let c = member(c.n[0], i);
                let mut p = Obs::default();
                let _ = all_operations(&c, &mut p);
                o.nontrivial |= p.nontrivial;
            }
            o.add("inputs of equal size run in a row", (to - from) as usize);
            Ok(CUR.load(Relaxed))
        };
        let (warm, n) = if cfg!(miri) { (2, 4) } else { (1500, 3000) };
        let a = run(0, warm)?;
        let b = run(warm, warm + n)?;
        ensure!(b - a < 16 * 1024 || cfg!(miri), "{n} further inputs of the same sizes, whose results were dropped, leave {} more bytes in use", b - a);
        return Ok(());
    }
    let mut level = [0i64; 6];
    for l in level.iter_mut() {
        let mut p = Obs::default();
        let _ = all_operations(c, &mut p);
        o.nontrivial |= p.nontrivial;
        drop(p);
        *l = CUR.load(Relaxed);
    }
    o.add("inputs run repeatedly", 1);
    o.add("levels of memory compared", 4);
    ensure!(
        !level[2..].windows(2).all(|w| w[1] > w[0]),
        "with all results dropped, memory in use grows with every repetition of the same calls: {level:?} bytes"
    );
    Ok(())
}
