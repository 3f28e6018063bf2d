//! F01-F03, P01, P02: writing and parsing patches.
use super::*;
use crate::case::{pv_from_bin, pv_to_bin, Case};
use crate::ensure;
use crate::refm::{lines, quote_name, render, show, strip_sgr, HV};
use diffy::{Patch, PatchFormatter};
use std::fmt::Write as _;
use std::io;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "F01", gen: gen_any, count: e_count, nth: e_nth, special: special_any, check: f01,
            rule: "created and reversed patches (texts, file names, context length) and parsed patch texts, each written and re-parsed; non-trivial: the patch has a hunk or a file name that needs quoting" },
        Prop { id: "F02", gen: gen_any, count: e_count, nth: e_nth, special: special_any, check: f02,
            rule: "as F01, rendered under all eight formatter settings and both output paths; non-trivial: the patch has a hunk" },
        Prop { id: "F03", gen: gen_fault, count: fault_count, nth: fault_nth, special: none_special, check: f03,
            rule: "a patch, formatter settings and every fault position in its output (all positions up to 700 bytes, else sampled); non-trivial: at least one injected fault was reached inside the output" },
        Prop { id: "P01", gen: gen_p01, count: none_count, nth: none_nth, special: special_p01, check: p01,
            rule: "random well-formed patch models written out with the freedom the format leaves; non-trivial: the patch has a hunk with lines" },
        Prop { id: "P02", gen: gen_p02, count: p02_count, nth: p02_nth, special: special_p02, check: p02,
            rule: "single corruptions of well-formed patches (which must be rejected), token soups and mutated patches (whatever is accepted must be consistent and complete); non-trivial: a rejection by construction, or an accepted text with a hunk" },
    ]
}

fn e_count(th: bool) -> u64 {
    pair_count(th) / if th { 4 } else { 3 }
}
fn e_nth(th: bool, i: u64) -> Case {
    let mut c = pair_nth(th, i * if th { 4 } else { 3 });
    c.n.push(i % 2);
    if i % 5 == 0 {
        let names: [&[u8]; 6] = [b"", b"a\nb", b"t\tab", b"q\"", b"\\", b"\0\r"];
        c.t.push(names[(i / 5 % 6) as usize].to_vec());
        c.t.push(names[(i / 30 % 6) as usize].to_vec());
    }
    c
}

/// n = [context, reverse]
fn gen_any(rng: &mut Rng, cx: &Ctx) -> Case {
    if rng.chance(2, 5) {
        let m = gen::patch_model(rng, cx);
        let mut t = gen::patch_text(rng, cx, &m);
        if rng.chance(1, 4) {
            t = damage(rng, t);
        }
        return Case::new("text", vec![t], vec![]);
    }
    let (a, b) = gen::pair(rng, cx);
    let mut t = vec![a, b];
    if rng.chance(1, 2) {
        t.push(gen::name(rng, cx));
        t.push(gen::name(rng, cx));
    }
    Case::new("pair", t, vec![gen::context_len(rng, cx), rng.below(2) as u64])
}

fn special_any(th: bool, cx: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = special_pairs(th, cx)
        .into_iter()
        .map(|mut c| {
            c.n.push(0);
            c
        })
        .collect();
    for len in [254usize, 255, 256, 257, 1023, 1024, 4096, 65536] {
        for (i, ch) in [b'n', b'"', b'\\', b'\n'].iter().enumerate() {
            let mut n = vec![b'f'; len];
            n[len / 2] = *ch;
            n[len - 1] = *ch;
            v.push(Case::new("!pair", vec![b"a\n".to_vec(), b"b\n".to_vec(), n.clone(), b"m".to_vec()], vec![3, i as u64 % 2]));
        }
    }
    for b in 0..=255u8 {
        // every single-byte name
        let n: Vec<u8> = if b < 128 { vec![b] } else { (b as char).to_string().into_bytes() };
        v.push(Case::new("!pair", vec![b"a\n".to_vec(), b"b\n".to_vec(), n.clone(), [&b"x"[..], &n].concat()], vec![3, 0]));
        v.push(Case::new("!pair", vec![b"a\n".to_vec(), b"b\n".to_vec(), [&n[..], b"y"].concat(), [&n[..], &n].concat()], vec![3, 1]));
    }
    v
}

fn damage(rng: &mut Rng, mut t: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + rng.below(3) {
        let ls = lines(&t).iter().map(|l| l.to_vec()).collect::<Vec<_>>();
        match rng.below(7) {
            0 if !ls.is_empty() => {
                let i = rng.below(ls.len());
                t = [ls[..i].concat(), ls[i + 1..].concat()].concat();
            }
            1 if !ls.is_empty() => {
                let (i, j) = (rng.below(ls.len()), rng.below(ls.len() + 1));
                t = [ls[..j].concat(), ls[i].clone(), ls[j..].concat()].concat();
            }
            2 if !t.is_empty() => {
                let i = rng.below(t.len());
                t[i] = *rng.pick(b"\n\r\t @-+\\\"0123456789,x\0\xff");
            }
            3 if !t.is_empty() => {
                let i = rng.below(t.len());
                t.remove(i);
            }
            4 => {
                let i = rng.below(t.len() + 1);
                t.insert(i, *rng.pick(b"\n\r\t @-+\\\"0123456789,x\0\xff"));
            }
            5 if !t.is_empty() => {
                t.pop();
            }
            _ => {
                let j = rng.below(ls.len() + 1);
                let l: &[u8] = rng.pick(&[
                    &b"\\ No newline at end of file\n"[..],
                    b"@@ -0,0 +0,0 @@\n",
                    b"@@ -1,0 +1,0 @@\n",
                    b" \n",
                    b"\n",
                    b"-",
                    b"+\n",
                    b"--- \n",
                    b"+++ x\n",
                    b"@@ -1 +1 @@ f",
                ]);
                t = [ls[..j].concat(), l.to_vec(), ls[j..].concat()].concat();
            }
        }
    }
    t
}

/// Run `f` on the patch of a case (through the byte interface), reversed if asked.
fn with_bytes(c: &Case, f: &mut dyn FnMut(&Patch<'_, [u8]>) -> R) -> R {
    if c.tag == "text" {
        if let Ok(p) = guarded("from_bytes", || Patch::from_bytes(&c.t[0]))? {
            f(&p)?;
        }
        return Ok(());
    }
    let p = guarded("create_patch_bytes", || case_opts(c, c.n[0]).create_patch_bytes(&c.t[0], &c.t[1]))?;
    if c.n.get(1) == Some(&1) {
        let q = guarded("reverse", || p.reverse())?;
        f(&q)
    } else {
        f(&p)
    }
}
fn with_str(c: &Case, f: &mut dyn FnMut(&Patch<'_, str>) -> R) -> R {
    if c.tag == "text" {
        if let Some(t) = s(&c.t[0]) {
            if let Ok(p) = guarded("from_str", || Patch::from_str(t))? {
                f(&p)?;
            }
        }
        return Ok(());
    }
    let (Some(a), Some(b)) = (s(&c.t[0]), s(&c.t[1])) else { return Ok(()) };
    let p = guarded("create_patch", || case_opts(c, c.n[0]).create_patch(a, b))?;
    if c.n.get(1) == Some(&1) {
        let q = guarded("reverse", || p.reverse())?;
        f(&q)
    } else {
        f(&p)
    }
}

fn wants_quotes(v: &PV) -> bool {
    [&v.orig, &v.modi].iter().any(|n| n.as_ref().is_some_and(|n| quote_name(n) != *n))
}

// ------------------------------------------------------------------ F01
fn f01(c: &Case, o: &mut Obs) -> R {
    with_bytes(c, &mut |p| {
        let v = view(p);
        o.nontrivial |= !v.hunks.is_empty() || wants_quotes(&v);
        for sup in [None, Some(true), Some(false)] {
            let out = guarded("writing", || match sup {
                None => p.to_bytes(),
                Some(b) => {
                    let mut w = Vec::new();
                    PatchFormatter::new().suppress_blank_empty(b).write_patch_into(p, &mut w).unwrap();
                    w
                }
            })?;
            o.add("written and parsed again", 1);
            match guarded("from_bytes", || Patch::from_bytes(&out))? {
                Err(e) => return Err(format!("bytes, suppress {sup:?}: the written patch does not parse ({e}): {:?}", show(&out))),
                Ok(q) => {
                    ensure!(view(&q) == v, "bytes, suppress {sup:?}: parsing the written patch gives {:?} instead of {:?}", view(&q), v);
                    ensure!(q == *p, "bytes, suppress {sup:?}: the patch parsed back is not equal to the one written");
                }
            }
        }
        Ok(())
    })?;
    with_str(c, &mut |p| {
        let v = view(p);
        for sup in [None, Some(true), Some(false)] {
            let out = guarded("formatting", || match sup {
                None => p.to_string(),
                Some(b) => PatchFormatter::new().suppress_blank_empty(b).fmt_patch(p).to_string(),
            })?;
            o.add("written and parsed again", 1);
            match guarded("from_str", || Patch::from_str(&out))? {
                Err(e) => return Err(format!("str, suppress {sup:?}: the formatted patch does not parse ({e}): {:?}", show(out.as_bytes()))),
                Ok(q) => {
                    ensure!(view(&q) == v, "str, suppress {sup:?}: parsing the formatted patch gives {:?} instead of {:?}", view(&q), v);
                    ensure!(q == *p, "str, suppress {sup:?}: the patch parsed back is not equal to the one formatted");
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ F02
pub fn formatter(color: bool, marker: bool, sup: bool) -> PatchFormatter {
    let f = PatchFormatter::new().missing_newline_message(marker).suppress_blank_empty(sup);
    if color {
        f.with_color()
    } else {
        f
    }
}

pub fn compare_render(v: &PV, got: &[u8], color: bool, marker: bool, sup: bool, what: &str, o: &mut Obs) -> R {
    let want = render(v, marker, sup);
    o.add("renderings compared", 1);
    let cfg = format!("{what} (colour {color}, marker {marker}, suppress {sup})");
    if !color {
        ensure!(got == want, "{cfg}: wrote {:?}, the unified format is {:?}", show(got), show(&want));
        return Ok(());
    }
    let (plain, active, n) = strip_sgr(got);
    let (wplain, _, wn) = strip_sgr(&want);
    ensure!(plain == wplain, "{cfg}: without escape sequences {:?}, the unified format is {:?}", show(&plain), show(&wplain));
    if wn == 0 && !want.contains(&0x1b) {
        ensure!(!active, "{cfg}: a style is left active at the end: {:?}", show(got));
        ensure!(n > 0 || v.hunks.is_empty(), "{cfg}: no colour at all");
        o.add("escape sequences seen", n);
    }
    Ok(())
}

fn f02(c: &Case, o: &mut Obs) -> R {
    let big = c.size() > 20_000;
    let combos: Vec<(bool, bool, bool)> =
        (0..8).filter(|i| !big || [0, 7].contains(i)).map(|i| (i & 1 != 0, i & 2 != 0, i & 4 != 0)).collect();
    with_bytes(c, &mut |p| {
        let v = view(p);
        o.nontrivial |= !v.hunks.is_empty();
        for &(col, mk, sup) in &combos {
            let got = guarded("write_patch_into", || {
                let mut w = Vec::new();
                formatter(col, mk, sup).write_patch_into(p, &mut w).map(|_| w)
            })?
            .map_err(|e| format!("writing into a Vec failed: {e}"))?;
            compare_render(&v, &got, col, mk, sup, "byte writer", o)?;
        }
        let got = guarded("to_bytes", || p.to_bytes())?;
        compare_render(&v, &got, false, true, true, "to_bytes", o)
    })?;
    with_str(c, &mut |p| {
        let v = view(p);
        for &(col, mk, sup) in &combos {
            let f = formatter(col, mk, sup);
            let d = guarded("fmt_patch", || f.fmt_patch(p).to_string())?;
            compare_render(&v, d.as_bytes(), col, mk, sup, "Display", o)?;
            let w = guarded("write_patch_into", || {
                let mut w = Vec::new();
                f.write_patch_into(p, &mut w).unwrap();
                w
            })?;
            ensure!(w == d.as_bytes(), "colour {col}, marker {mk}, suppress {sup}: Display gives {:?}, the writer {:?}", show(d.as_bytes()), show(&w));
        }
        let d = guarded("Display", || p.to_string())?;
        compare_render(&v, d.as_bytes(), false, true, true, "Display of Patch", o)?;
        if !big {
            // widths, precisions and other flags are for the whole of it, if for anything, never for its parts
            let f = formatter(true, true, true);
            let (col, n) = (f.fmt_patch(p).to_string(), d.len());
            let all = guarded("formatting with flags", || {
                [
                    (&d, format!("{p:1}")), (&d, format!("{p:.n$}")), (&d, format!("{p:#}")), (&d, format!("{p:+}")), (&d, format!("{p:n$}")),
                    (&d, format!("{p:<3.n$}")), (&col, format!("{:^2}", f.fmt_patch(p))), (&col, format!("{:#}", f.fmt_patch(p))),
                ]
            })?;
            for (i, (want, got)) in all.iter().enumerate() {
                o.add("forms written with formatting flags", 1);
                ensure!(*want == got, "with formatting flags (variant {i}) the patch is written as {:?}, without as {:?}", show(got.as_bytes()), show(want.as_bytes()));
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ F03
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Error,
    Zero,
}
struct Faulty {
    got: Vec<u8>,
    at: usize,
    fault: Option<Fault>,
    kind: io::ErrorKind,
    max: usize,
    interrupt: usize,
    calls: usize,
    fired: bool,
    interrupted: usize,
    short: usize,
}
impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt != 0 && self.calls % self.interrupt == 0 {
            self.interrupted += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.max);
        if self.fault.is_some() && !self.fired {
            let left = self.at.saturating_sub(self.got.len());
            if left == 0 && !b.is_empty() {
                self.fired = true;
                match self.fault {
                    Some(Fault::Error) => return Err(io::Error::new(self.kind, Tag(self.at))),
                    _ => return Ok(0),
                }
            }
            n = n.min(left);
        }
        if n < b.len() {
            self.short += 1;
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Debug)]
struct Tag(usize);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected at {}", self.0)
    }
}
impl std::error::Error for Tag {}

struct FmtFail {
    got: String,
    at: usize,
    fired: bool,
}
impl std::fmt::Write for FmtFail {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if !self.fired && !t.is_empty() && self.got.len() + t.len() > self.at {
            self.fired = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(t);
        Ok(())
    }
}

fn gen_fault(rng: &mut Rng, cx: &Ctx) -> Case {
    let small = Ctx { fb: cx.fb, utf8: cx.utf8, max_lines: 8 };
    let (a, b) = gen::pair(rng, &small);
    let mut t = vec![a, b];
    if rng.chance(1, 2) {
        t.push(gen::name(rng, cx));
        t.push(gen::name(rng, cx));
    }
    if rng.chance(1, 3) {
        let m = gen::patch_model(rng, &small);
        return Case::new("text", vec![gen::patch_text(rng, cx, &m)], vec![0, 0, rng.below(8) as u64, rng.next() % 7]);
    }
    Case::new("pair", t, vec![rng.below(4) as u64, rng.below(2) as u64, rng.below(8) as u64, rng.next() % 7])
}
const FAULT_TEXTS: &[(&str, &str)] = &[
    ("a\n", "b\n"), ("a", "b"), ("a\n", "a"), ("", "x\n"), ("x\n", ""), ("\n\na\n\n", "\n\nb\n\n"), ("a\nb\nc", "a\nc"), ("1\n2\n3\n4\n5\n6\n7\n8\n9\n", "1\nx\n3\n4\n5\n6\n7\n8\ny\n"),
];
const FAULT_NAMES: &[&str] = &["original", "a\tb", "\"", ""];
fn fault_count(_: bool) -> u64 {
    (FAULT_TEXTS.len() * FAULT_NAMES.len() * 8 * 2 * 7) as u64
}
fn fault_nth(_: bool, i: u64) -> Case {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    let (a, b) = FAULT_TEXTS[take(FAULT_TEXTS.len())];
    let n = FAULT_NAMES[take(FAULT_NAMES.len())];
    let (fm, ctx, kind) = (take(8), take(2) * 3, take(7));
    Case::new("pair", vec![a.into(), b.into(), n.into(), n.into()], vec![ctx as u64, 0, fm as u64, kind as u64])
}

const KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::UnexpectedEof,
    io::ErrorKind::TimedOut, io::ErrorKind::StorageFull,
];

fn faults<T: AsRef<[u8]> + ToOwned + ?Sized>(p: &Patch<'_, T>, c: &Case, o: &mut Obs) -> R {
    let fm = *c.n.get(2).unwrap_or(&0);
    let kind = KINDS[*c.n.get(3).unwrap_or(&0) as usize % 7];
    let f = formatter(fm & 1 != 0, fm & 2 != 0, fm & 4 != 0);
    let mut full = Vec::new();
    guarded("write_patch_into", || f.write_patch_into(p, &mut full))?.map_err(|e| format!("writing into a Vec failed: {e}"))?;
    let mk = |at, fault, max, interrupt| Faulty { got: vec![], at, fault, kind, max, interrupt, calls: 0, fired: false, interrupted: 0, short: 0 };
    for (max, int) in [(1usize, 0usize), (1, 2), (3, 0), (7, 3), (usize::MAX, 2), (64, 5)] {
        let mut w = mk(0, None, max, int);
        let r = guarded("write_patch_into", || f.write_patch_into(p, &mut w))?;
        o.add("runs with short or interrupted writes", 1);
        o.add("short writes", w.short);
        o.add("interruptions", w.interrupted);
        o.nontrivial |= w.short + w.interrupted > 0;
        ensure!(r.is_ok(), "writes of at most {max} bytes, every {int}th interrupted: the writer never failed but an error was returned: {:?}", r);
        ensure!(w.got == full, "writes of at most {max} bytes, every {int}th interrupted: {:?} arrived instead of {:?}", show(&w.got), show(&full));
    }
    let step = full.len() / 700 + 1;
    let mut at = 0;
    while at <= full.len() {
        for fault in [Fault::Error, Fault::Zero] {
            for (max, int) in [(usize::MAX, 0usize), (2, 3)] {
                let mut w = mk(at, Some(fault), max, int);
                let r = guarded("write_patch_into", || f.write_patch_into(p, &mut w))?;
                o.add("fault runs", 1);
                if !w.fired {
                    ensure!(r.is_ok() && w.got == full, "no fault was hit (fault at {at}) but the output is incomplete or an error was returned");
                    continue;
                }
                o.add("faults reached", 1);
                o.nontrivial = true;
                let Err(e) = r else {
                    return Err(format!("{fault:?} after {at} bytes was swallowed: success returned, {:?} arrived", show(&w.got)));
                };
                ensure!(w.got[..] == full[..at], "{fault:?} after {at} bytes: {:?} arrived, which is not what the complete output starts with", show(&w.got));
                if fault == Fault::Error {
                    ensure!(
                        e.kind() == kind && e.get_ref().is_some_and(|x| x.to_string() == format!("injected at {at}")),
                        "after {at} bytes: the writer's error ({kind:?}) was replaced by {e:?}"
                    );
                } else {
                    ensure!(e.kind() == io::ErrorKind::WriteZero, "a zero-length write after {at} bytes gave {e:?}");
                }
            }
        }
        at += step;
    }
    Ok(())
}

fn f03(c: &Case, o: &mut Obs) -> R {
    with_bytes(c, &mut |p| faults(p, c, o))?;
    with_str(c, &mut |p| {
        faults(p, c, o)?;
        let fm = *c.n.get(2).unwrap_or(&0);
        let f = formatter(fm & 1 != 0, fm & 2 != 0, fm & 4 != 0);
        let full = f.fmt_patch(p).to_string();
        let step = full.len() / 700 + 1;
        let mut at = 0;
        while at <= full.len() {
            let mut w = FmtFail { got: String::new(), at, fired: false };
            let r = guarded("fmt_patch", || write!(w, "{}", f.fmt_patch(p)))?;
            o.add("fmt fault runs", 1);
            if w.fired {
                ensure!(r.is_err(), "a formatting error after {at} bytes was swallowed");
                ensure!(full.starts_with(&w.got), "after a formatting error at {at} the output {:?} is not what the complete output starts with", show(w.got.as_bytes()));
            } else {
                ensure!(r.is_ok() && w.got == full, "no formatting fault was hit but the output is incomplete or an error was returned");
            }
            at += step;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ P01
fn gen_p01(rng: &mut Rng, cx: &Ctx) -> Case {
    let m = gen::patch_model(rng, cx);
    let t = gen::patch_text(rng, cx, &m);
    Case::new("!model", vec![t, pv_to_bin(&m)], vec![])
}

fn special_p01(_: bool, cx: &Ctx) -> Vec<Case> {
    let mut v = Vec::new();
    let mut rng = Rng::new(77);
    let mut add = |m: &PV| {
        let t = gen::patch_text(&mut rng, cx, m);
        v.push(Case::new("!model", vec![t, pv_to_bin(m)], vec![]));
        let t = render(m, true, true);
        v.push(Case::new("!model", vec![t, pv_to_bin(m)], vec![]));
    };
    let mut ns = vec![254usize, 255, 256, 257, 1000, 4097, 65535, 65536, 65537];
    ns.extend(cx.fb.sizes.iter().copied().take(60));
    let lead = ns.clone();
    for n in ns {
        // long hunk
        let ls: Vec<(u8, Vec<u8>)> = (0..n).map(|i| (b" -+"[i % 3], format!("{i}\n").into_bytes())).collect();
        let ol = ls.iter().filter(|l| l.0 != b'+').count();
        let nl = ls.iter().filter(|l| l.0 != b'-').count();
        add(&PV { orig: Some(b"a".to_vec()), modi: Some(b"b".to_vec()), hunks: vec![HV { os: n, ol, ns: n + 1, nl, fc: None, lines: ls }] });
        // many hunks
        let h = n.min(5000);
        let hunks = (0..h)
            .map(|i| HV { os: 2 * i + 1, ol: 1, ns: 2 * i + 1, nl: 1, fc: (i % 2 == 0).then(|| vec![b'f'; i % 70]), lines: vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec())] })
            .collect();
        add(&PV { orig: None, modi: Some(vec![b'n'; n]), hunks });
        // long line and function context
        add(&PV {
            orig: Some(vec![b'o'; n]),
            modi: None,
            hunks: vec![HV { os: 1, ol: 1, ns: 1, nl: 2, fc: Some(vec![b'c'; n]), lines: vec![(b' ', [vec![b'z'; n], b"\n".to_vec()].concat()), (b'+', vec![b'w'; n])] }],
        });
    }
    // just so many hunks, lines, and bytes in a line or name
    for n in cx.fb.large.iter().map(|n| n + 1).filter(|n| *n < 150_000).take(8) {
        let hunks = (0..n).map(|i| HV { os: 2 * i + 1, ol: 1, ns: 2 * i + 1, nl: 1, fc: None, lines: vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec())] }).collect();
        add(&PV { orig: None, modi: None, hunks });
        let lines = (0..n).map(|i| (b'+', format!("{i}\n").into_bytes())).collect();
        add(&PV { orig: None, modi: None, hunks: vec![HV { os: 0, ol: 0, ns: 1, nl: n, fc: None, lines }] });
    }
    for n in cx.fb.bytes().map(|n| n + 1) {
        for (k, op) in [(1, b' '), (3, b'-'), (3, b'+')] {
            let mut lines: Vec<(u8, Vec<u8>)> = (0..k).map(|i| (b' ', format!("{i}\n").into_bytes())).collect();
            lines[k / 2] = (op, [vec![b'z'; n], b"\n".to_vec()].concat());
            let (ol, nl) = (k - (op == b'+') as usize, k - (op == b'-') as usize);
            add(&PV { orig: Some(b"a".to_vec()), modi: None, hunks: vec![HV { os: 1, ol, ns: 1, nl, fc: None, lines }] });
        }
        let one = HV { os: 1, ol: 0, ns: 1, nl: 1, fc: Some(vec![b'c'; n]), lines: vec![(b'+', b"w\n".to_vec())] };
        add(&PV { orig: Some(vec![b'o'; n]), modi: Some(b"b".to_vec()), hunks: vec![one] });
    }
    let small = PV { orig: Some(b"a".to_vec()), modi: Some(b"b".to_vec()), hunks: vec![HV { os: 1, ol: 1, ns: 1, nl: 1, fc: None, lines: vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec())] }] };
    for n in &lead {
        // long leading text: many lines, one long line, many empty lines
        for pre in [b" text of line\n".repeat(*n), [vec![b'-'; *n + 4], b"\n".to_vec()].concat(), b"\n".repeat(*n)] {
            v.push(Case::new("!model", vec![[pre, render(&small, true, true)].concat(), pv_to_bin(&small)], vec![]));
        }
    }
    let mut add = |m: &PV| {
        let t = gen::patch_text(&mut rng, cx, m);
        v.push(Case::new("!model", vec![t, pv_to_bin(m)], vec![]));
        let t = render(m, true, true);
        v.push(Case::new("!model", vec![t, pv_to_bin(m)], vec![]));
    };
    for b in 0..=127u8 {
        add(&PV { orig: Some(vec![b]), modi: Some(vec![b'x', b, b'y']), hunks: vec![HV { os: 0, ol: 0, ns: 1, nl: 1, fc: None, lines: vec![(b'+', if b == b'\n' { vec![b] } else { vec![b, b'\n'] })] }] });
        add(&PV { orig: Some(vec![b, b]), modi: None, hunks: vec![] });
        if b != b'\n' {
            add(&PV { orig: None, modi: None, hunks: vec![HV { os: 1, ol: 1, ns: 1, nl: 1, fc: Some(vec![b]), lines: vec![(b'-', vec![b]), (b'+', vec![b, b, b'\n'])] }] });
        }
    }
    // every peculiar line as every kind of line at the beginning, in the middle and at the end of hunks of several sizes,
    // in the first, the last and the only hunk, and as function context
    for tok in gen::peculiar(cx) {
        for k in [0usize, 1, 2, 4, 9] {
            for op in [b' ', b'-', b'+'] {
                let mut ps = vec![0, k / 2, k];
                ps.dedup();
                for &p in &ps {
                    for end in 0..if p == k && !tok.is_empty() { 2 } else { 1 } {
                        let mut ls: Vec<(u8, Vec<u8>)> = (0..k).map(|i| (b"- + -"[(i + p) % 5], format!("l{i}\n").into_bytes())).collect();
                        ls.insert(p, (op, if end == 0 { [&tok[..], b"\n"].concat() } else { tok.clone() }));
                        let hunk = |at: usize, fc: bool| {
                            let ol = ls.iter().filter(|l| l.0 != b'+').count();
                            let nl = ls.iter().filter(|l| l.0 != b'-').count();
                            HV { os: at, ol, ns: at, nl, fc: fc.then(|| tok.clone()), lines: ls.clone() }
                        };
                        let plain = |at: usize| HV { os: at, ol: 1, ns: at, nl: 1, fc: None, lines: vec![(b'-', b"x\n".to_vec()), (b'+', b"y\n".to_vec())] };
                        let hunks = match (k + p + op as usize) % 3 {
                            0 if end == 0 => vec![hunk(1, k == 1), plain(40)],
                            1 => vec![plain(1), hunk(20, k == 2)],
                            _ => vec![hunk(1, k % 2 == 0)],
                        };
                        add(&PV { orig: Some(b"a".to_vec()), modi: Some(b"b".to_vec()), hunks });
                    }
                }
            }
        }
    }
    v
}

fn check_parsed<T: AsRef<[u8]> + ToOwned + ?Sized>(p: &Patch<'_, T>, m: &PV, w: &str) -> R {
    let v = view(p);
    if v != *m {
        for (a, b) in v.hunks.iter().zip(&m.hunks) {
            ensure!(a == b, "{w}: parsed hunk {:?} instead of {:?}", brief(a), brief(b));
        }
        return Err(format!(
            "{w}: parsed names {:?}, {:?} and {} hunks instead of {:?}, {:?} and {}",
            v.orig.map(|n| show(&n)), v.modi.map(|n| show(&n)), v.hunks.len(),
            m.orig.as_ref().map(|n| show(n)), m.modi.as_ref().map(|n| show(n)), m.hunks.len()
        ));
    }
    for h in p.hunks() {
        for r in [h.old_range(), h.new_range()] {
            ensure!(
                r.range() == (r.start()..r.start() + r.len()) && r.end() == r.start() + r.len() && r.is_empty() == (r.len() == 0),
                "{w}: range accessors disagree for {r:?}"
            );
        }
    }
    Ok(())
}
fn brief(h: &HV) -> String {
    let ls: Vec<String> = h.lines.iter().take(12).map(|(k, l)| format!("{}{}", *k as char, show(l))).collect();
    format!("-{},{} +{},{} fc {:?} {:?}", h.os, h.ol, h.ns, h.nl, h.fc.as_ref().map(|f| show(f)), ls)
}

fn p01(c: &Case, o: &mut Obs) -> R {
    let m = pv_from_bin(&c.t[1]).ok_or("bad case")?;
    o.nontrivial = m.hunks.iter().any(|h| !h.lines.is_empty());
    o.add("hunks compared", m.hunks.len());
    match guarded("from_bytes", || Patch::from_bytes(&c.t[0]))? {
        Ok(p) => guarded("accessors", || check_parsed(&p, &m, "bytes"))??,
        Err(e) => return Err(format!("bytes: well-formed patch rejected: {e}")),
    }
    if let Some(t) = s(&c.t[0]) {
        match guarded("from_str", || Patch::from_str(t))? {
            Ok(p) => guarded("accessors", || check_parsed(&p, &m, "str"))??,
            Err(e) => return Err(format!("str: well-formed patch rejected: {e}")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P02
const CORRUPTIONS: usize = 31;

/// One corruption of a well-formed patch that makes it contradict itself. None: not applicable here.
pub fn corrupt(rng: &mut Rng, m: &PV, kind: usize) -> Option<Vec<u8>> {
    // a plain rendering with known line structure
    let mut v: Vec<Vec<u8>> = Vec::new();
    if let Some(o) = &m.orig {
        v.push([b"--- ", &quote_name(o)[..], b"\n"].concat());
    }
    if let Some(o) = &m.modi {
        v.push([b"+++ ", &quote_name(o)[..], b"\n"].concat());
    }
    let names = v.len();
    let mut heads = Vec::new();
    let mut bodies: Vec<(usize, usize)> = Vec::new(); // (hunk, index in v) of body lines without marker lines
    let mut markers = Vec::new(); // (index in v, sign)
    let head = |h: &HV| format!("@@ -{},{} +{},{} @@\n", h.os, h.ol, h.ns, h.nl).into_bytes();
    for (hi, h) in m.hunks.iter().enumerate() {
        heads.push(v.len());
        v.push(head(h));
        for (k, l) in &h.lines {
            bodies.push((hi, v.len()));
            let mut x = vec![*k];
            x.extend(l);
            if l.last() != Some(&b'\n') {
                x.push(b'\n');
                v.push(x);
                markers.push((v.len(), *k));
                v.push(b"\\ No newline at end of file\n".to_vec());
            } else {
                v.push(x);
            }
        }
    }
    let has = |i: usize| i < m.hunks.len();
    let any_hunk = || has(0);
    let hdr = |v: &mut Vec<Vec<u8>>, hi: usize, a: String, b: String| v[heads[hi]] = format!("@@ -{a} +{b} @@\n").into_bytes();
    let hi = if m.hunks.is_empty() { 0 } else { rng.below(m.hunks.len()) };
    let h = m.hunks.get(hi);
    let d = 1 + rng.geo(1);
    let num = |rng: &mut Rng| rng.pick(&["18446744073709551616", "99999999999999999999999999", "", "x", "-1", "1x", " 1", "1 ", "0x1", "1.0", "1,2", "٣"]).to_string();
    match kind {
        0 => hdr(&mut v, hi, format!("{},{}", h?.os, h?.ol + d), format!("{},{}", h?.ns, h?.nl)),
        1 => hdr(&mut v, hi, format!("{},{}", h?.os, h?.ol), format!("{},{}", h?.ns, h?.nl + d)),
        2 => hdr(&mut v, hi, format!("{},{}", h?.os, h?.ol.checked_sub(1)?), format!("{},{}", h?.ns, h?.nl)),
        3 => hdr(&mut v, hi, format!("{},{}", h?.os, h?.ol), format!("{},{}", h?.ns, h?.nl.checked_sub(1)?)),
        4 => {
            // drop a body line (with its marker)
            if bodies.is_empty() {
                return None;
            }
            let i = rng.pick(&bodies).1;
            v.remove(i);
            if v.get(i).is_some_and(|l| l.starts_with(b"\\")) {
                v.remove(i);
            }
        }
        5 => {
            if bodies.is_empty() {
                return None;
            }
            let i = rng.pick(&bodies).1;
            let l = v[i].clone();
            v.insert(i, l);
        }
        6 | 7 | 8 | 9 => {
            let bad = num(rng);
            let (mut a, mut b, mut c, mut e) = (h?.os.to_string(), h?.ol.to_string(), h?.ns.to_string(), h?.nl.to_string());
            match kind {
                6 => a = bad,
                7 => b = bad,
                8 => c = bad,
                _ => e = bad,
            }
            if (kind == 6 || kind == 8) && (a == "1,2" || c == "1,2") {
                return None;
            }
            hdr(&mut v, hi, format!("{a},{b}"), format!("{c},{e}"));
        }
        10 | 11 => {
            // start + length is not representable
            let big = usize::MAX - rng.below(h?.ol.max(h?.nl).max(1));
            if kind == 10 {
                if hi + 1 != m.hunks.len() || big.checked_add(h?.ol).is_some() {
                    return None;
                }
                hdr(&mut v, hi, format!("{big},{}", h?.ol), format!("{},{}", h?.ns, h?.nl));
            } else {
                if hi + 1 != m.hunks.len() || big.checked_add(h?.nl).is_some() {
                    return None;
                }
                hdr(&mut v, hi, format!("{},{}", h?.os, h?.ol), format!("{big},{}", h?.nl));
            }
        }
        12 | 13 => {
            // a hunk that starts before the previous one ends
            if hi == 0 {
                return None;
            }
            let p = &m.hunks[hi - 1];
            let h = h?;
            let (end, len) = if kind == 12 { (p.os + p.ol, p.ol) } else { (p.ns + p.nl, p.nl) };
            if len == 0 || end == 0 {
                return None;
            }
            let at = end - 1 - rng.below(end);
            if kind == 12 {
                hdr(&mut v, hi, format!("{at},{}", h.ol), format!("{},{}", h.ns, h.nl));
            } else {
                hdr(&mut v, hi, format!("{},{}", h.os, h.ol), format!("{at},{}", h.nl));
            }
        }
        14 => {
            // swap two hunks
            if m.hunks.len() < 2 || m.hunks.iter().any(|h| h.ol == 0 && h.nl == 0) {
                return None;
            }
            let i = rng.below(m.hunks.len() - 1);
            let (a, b) = (&m.hunks[i], &m.hunks[i + 1]);
            if a.os + a.ol > b.os || b.os + b.ol <= a.os || markers.iter().any(|x| x.0 >= heads[i]) {
                return None;
            }
            let e = heads.get(i + 2).copied().unwrap_or(v.len());
            let second = v[heads[i + 1]..e].to_vec();
            let first = v[heads[i]..heads[i + 1]].to_vec();
            v.splice(heads[i]..e, second.into_iter().chain(first));
        }
        15 | 16 => {
            // duplicate file header
            if names == 0 {
                return None;
            }
            let i = rng.below(names);
            let l = v[i].clone();
            let pre = l[..4].to_vec();
            v.insert(rng.range(0, names), if kind == 15 { l } else { [&pre[..], b"other\n"].concat() });
        }
        17 => {
            // special character in an unquoted name
            if names == 0 {
                return None;
            }
            let i = rng.below(names);
            let ch: &[u8] = rng.pick(&[&b"\""[..], b"\\", b"\r", b"\0"]);
            let mut n = [b"a".to_vec(), ch.to_vec(), b"b".to_vec()].concat();
            match rng.below(4) {
                0 => n.remove(0),
                1 => n.pop().unwrap(),
                _ => 0,
            };
            v[i] = [&v[i][..4], &n[..], b"\n"].concat();
        }
        18 => {
            if names == 0 {
                return None;
            }
            let i = rng.below(names);
            let q: &[u8] = rng.pick(&[
                &b"\"a\\x\""[..], b"\"a\\\"", b"\"a\"b\"", b"\"\\\"", b"\"a\0\"", b"\"a\r\"", b"\"\\ \"", b"\"\\N\"", b"\"\"\"", b"\"a", b"a\"", b"\"", b"\"\\1\"", b"\"\\\\\\\"", b"\"\\q\"x", b"\"\\12\"", b"\"\\400\"", b"\"\\38\"", b"\"\\1x2\"", b"\"\\e\"",
            ]);
            v[i] = [&v[i][..4], q, b"\n"].concat();
        }
        20 => {
            // a line that cannot be in a hunk
            if !any_hunk() {
                return None;
            }
            let at = rng.range(heads[0] + 1, v.len());
            let l = rng.pick(&["?x\n", "x\n", "\tx\n", "\r\n", "diff --git a/a b/b\n", "\\\n", "\\ no newline at end of file\n", "\\No newline at end of file\n", "=x\n", "<\n", ">\n", "*** a\n", "\u{a0}x\n", "Index: x\n", "0\n"]);
            v.insert(at, l.as_bytes().to_vec());
        }
        21 => {
            // marker straight after a header
            if !any_hunk() {
                return None;
            }
            v.insert(heads[hi] + 1, b"\\ No newline at end of file\n".to_vec());
        }
        22 => {
            // marker twice
            let (i, _) = *markers.first()?;
            v.insert(i, b"\\ No newline at end of file\n".to_vec());
        }
        23 | 24 => {
            // the side goes on after it was ended by a marker, header adjusted
            if !any_hunk() {
                return None;
            }
            let (p, c) = if kind == 23 { (b'-', &b"-"[..]) } else { (b'+', &b"+"[..]) };
            let mut h = m.hunks[hi].clone();
            let k = h.lines.iter().position(|l| l.0 == p)?;
            if h.lines[k].1.last() != Some(&b'\n') {
                return None;
            }
            h.lines[k].1.pop();
            let e = h.lines.len();
            let sign = *rng.pick(&[c[0], b' ']);
            h.lines.push((sign, rng.pick(&[&b"more\n"[..], b"\n"]).to_vec()));
            if rng.chance(1, 2) {
                h.lines.swap(e, k + 1);
            }
            h.ol += (sign != b'+') as usize;
            h.nl += (sign != b'-') as usize;
            let one = PV { orig: None, modi: None, hunks: vec![HV { os: 1, ns: 1, ..h }] };
            return Some(render(&one, true, false));
        }
        25 => {
            // anything after a context line ended by a marker
            let h = h?;
            let k = h.lines.iter().position(|l| l.0 == b' ')?;
            let mut h = h.clone();
            if h.lines[k].1.last() != Some(&b'\n') || k + 1 >= h.lines.len() {
                return None;
            }
            h.lines[k].1.pop();
            return Some(render(&PV { orig: None, modi: None, hunks: vec![HV { os: 1, ns: 1, ..h }] }, true, false));
        }
        26 => {
            // header without its closing @@
            let h = h?;
            v[heads[hi]] = format!("@@ -{},{} +{},{}{}\n", h.os, h.ol, h.ns, h.nl, rng.pick(&["", " ", " @", "@@", " f"])).into_bytes();
        }
        27 => {
            let h = h?;
            let (a, b, c, e) = (h.os, h.ol, h.ns, h.nl);
            let opts = [
                format!("@@ {a},{b} +{c},{e} @@\n"), format!("@@ -{a},{b} {c},{e} @@\n"), format!("@@ +{a},{b} -{c},{e} @@\n"), format!("@@@ -{a},{b} +{c},{e} @@\n"),
                format!("@@-{a},{b} +{c},{e} @@\n"), format!("@@ -{a},{b}+{c},{e} @@\n"), format!("@@ -{a},{b} @@\n"), "@@ @@\n".to_string(), "@@\n".into(), format!("@@  -{a},{b} +{c},{e} @@\n"),
                format!("@@ -{a};{b} +{c},{e} @@\n"), format!("@@ -{a},{b},{b} +{c},{e} @@\n"), format!("@@ -{a},{b} +{c},{e} +{c},{e} @@\n"), "@\n".into(),
            ];
            let l = rng.pick(&opts).as_bytes().to_vec();
            if hi == 0 && !l.starts_with(b"@@ ") && !(names > 0) {
                return None; // would be leading text
            }
            v[heads[hi]] = l;
        }
        28 => {
            // the text stops early
            let (bh, i) = *bodies.last()?;
            if bh + 1 != m.hunks.len() {
                return None;
            }
            let keep = rng.range(heads[bh] + 1, i);
            v.truncate(keep);
            if v.last().is_some_and(|l| l.starts_with(b"\\")) {
                // still fewer lines than stated
            }
        }
        _ => {
            // change the sign of a changed line
            if bodies.is_empty() {
                return None;
            }
            let i = rng.pick(&bodies).1;
            let new = *rng.pick(b" -+");
            if v[i][0] == new {
                return None;
            }
            v[i][0] = new;
        }
    }
    Some(v.concat())
}

/// Every escape in a quoted name, alone and between other characters, on either line.
pub fn quoted_names() -> Vec<Vec<u8>> {
    let mut esc: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b'\\', b]).collect();
    esc.extend((0..=255u8).map(|b| vec![b]));
    for i in 0..0o1000 {
        esc.push(format!("\\{i:03o}").into_bytes());
        esc.push(format!("\\x{:02x}", i & 255).into_bytes());
        if i < 64 {
            esc.push(format!("\\{i:o}").into_bytes());
            esc.push(format!("\\{i:02o}").into_bytes());
        }
    }
    for e in ["\\u0041", "\\u00e9", "\\ud800", "\\u{41}", "\\u{d800}", "\\u{110000}", "\\U0001f980", "\\12", "\\012", "\\0012", "\\79", "\\309", "\\39", "\\0", "\\09", "\\00", "\\300\\200", "\\355\\240\\200", "\\303\u{e9}", "\\303\\251", "\\303", "\\251", "\\377", "\\400", "\\777", "\\8", "\\18", "\\x", "\\xg", "\\x4", "\\e", "\\a", "\\cA", "\\M-a"] {
        esc.push(e.as_bytes().to_vec());
    }
    let mut v = Vec::new();
    for (i, e) in esc.iter().enumerate() {
        for (pre, post) in [(&b""[..], &b""[..]), (b"a", b"b"), (b"\\\\", b"\\\\"), (b"\\", b""), (b"", b"0")] {
            let n = [b"\"", pre, &e[..], post, b"\""].concat();
            v.push(match i % 3 {
                0 => [b"--- ", &n[..], b"\n+++ b\n"].concat(),
                1 => [b"--- a\n+++ ", &n[..], b"\n"].concat(),
                _ => [b"+++ ", &n[..], b"\t2020-01-01\n@@ -1 +1 @@\n-a\n+b\n"].concat(),
            });
        }
    }
    v
}

fn special_p02(th: bool, _: &Ctx) -> Vec<Case> {
    let mut v: Vec<Case> = quoted_names().into_iter().chain(super::sys::one_character(th)).map(|t| Case::new("any", vec![t], vec![])).collect();
    // unquoted and half-quoted names with every byte
    for b in 0..=255u8 {
        for n in [vec![b], vec![b'a', b], vec![b, b'a'], vec![b'"', b], vec![b, b'"'], vec![b'"', b, b'"'], vec![b'a', b, b'a']] {
            for p in [&b"--- "[..], b"+++ "] {
                v.push(Case::new("any", vec![[p, &n[..], b"\n@@ -1 +1 @@\n-a\n+b\n"].concat()], vec![]));
            }
        }
        // header punctuation and body signs
        for l in [format!("@@ -1 +1 @@{}\n-a\n+b\n", b as char), format!("@@ -1{0} +1 @@\n-a\n+b\n", b as char), format!("@@{0}-1 +1 @@\n-a\n+b\n", b as char), format!("@@ -1 +1 @{}\n-a\n+b\n", b as char), format!("@@ -1,1 +1{}1 @@\n-a\n+b\n", b as char)] {
            v.push(Case::new("any", vec![l.into_bytes()], vec![]));
        }
        v.push(Case::new("any", vec![[&b"@@ -1,2 +1,2 @@\n-a\n+b\n"[..], &[b], b"x\n"].concat()], vec![]));
        v.push(Case::new("any", vec![[&b"@@ -1,2 +1,2 @@\n-a\n+b\n"[..], &[b], b"\n"].concat()], vec![]));
    }
    v
}

fn gen_p02(rng: &mut Rng, cx: &Ctx) -> Case {
    match rng.below(10) {
        0..=4 => loop {
            let m = gen::patch_model(rng, cx);
            let k = rng.below(CORRUPTIONS);
            if let Some(t) = corrupt(rng, &m, k) {
                return Case::new("!reject", vec![t], vec![k as u64]);
            }
        },
        5..=7 => {
            let m = gen::patch_model(rng, cx);
            let t = gen::patch_text(rng, cx, &m);
            Case::new("any", vec![damage(rng, t)], vec![])
        }
        _ => Case::new("any", vec![soup(rng, cx)], vec![]),
    }
}

/// lines of patch syntax in random order, with small numbers so that counts match now and then
pub fn soup(rng: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let mut t = Vec::new();
    let n = rng.range(1, 12);
    for _ in 0..n {
        let l: Vec<u8> = match rng.below(17) {
            0..=3 => {
                let mut r = || match rng.below(8) {
                    0 => rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 32, 1 << 63]).to_string(),
                    1 => rng.pick(&["", "x", "+1", "-1", "00", "007", "18446744073709551616"]).to_string(),
                    _ => rng.below(5).to_string(),
                };
                let (a, b, c, d) = (r(), r(), r(), r());
                let l = rng.below(4);
                let mut h = match l {
                    0 => format!("@@ -{a} +{c} @@"),
                    1 => format!("@@ -{a},{b} +{c} @@"),
                    2 => format!("@@ -{a} +{c},{d} @@"),
                    _ => format!("@@ -{a},{b} +{c},{d} @@"),
                };
                if rng.chance(1, 4) {
                    h.push_str(rng.pick(&[" f", "f", " ", " @@ g", "\r", " é"]));
                }
                h.into_bytes()
            }
            4..=6 => [b" ", &rng.pick(&[&b"a"[..], b"", b"b", b" "])[..]].concat(),
            7..=8 => [b"-", &rng.pick(&[&b"a"[..], b"", b"b", b"-- x"])[..]].concat(),
            9..=10 => [b"+", &rng.pick(&[&b"a"[..], b"", b"b", b"++ x"])[..]].concat(),
            11 => b"\\ No newline at end of file".to_vec(),
            12 => Vec::new(),
            13 => [&rng.pick(&[&b"--- "[..], b"+++ ", b"---", b"--- \"", b"+++ \""])[..], &rng.pick(&[&b"a"[..], b"", b"a\tb", b"\"", b"\\\"", b"\\n\"", b"a\\", b"\xff\"", b"\t\""])[..]].concat(),
            14 => gen::name(rng, cx),
            15 => [&rng.pick(&[&b"--- "[..], b"+++ "])[..], &gen::quoted(rng)[..]].concat(),
            _ => rng.pick(&[&b"@"[..], b"@@", b"@@ ", b"\\", b"\t", b"\xff", b"\xc3", b"diff", b"\0"])[..].to_vec(),
        };
        t.extend(l);
        if rng.chance(15, 16) {
            t.push(b'\n');
        }
    }
    t
}

/// all texts of up to five lines out of a small stock of patch lines after a fixed header
const STOCK: [&str; 9] = [" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "@@ -1 +1 @@\n", "@@ -2,0 +2 @@\n", "@@ -1,2 +1,2 @@\n", "+b"];
fn p02_count(th: bool) -> u64 {
    9u64.pow(if th { 6 } else { 5 })
}
fn p02_nth(th: bool, mut i: u64) -> Case {
    let mut t = Vec::new();
    for _ in 0..if th { 6 } else { 5 } {
        t.extend(STOCK[(i % 9) as usize].bytes());
        i /= 9;
    }
    Case::new("any", vec![t], vec![])
}

/// A file name as the text states it, what follows "--- ".
pub fn read_name(l: &[u8]) -> Result<Vec<u8>, &'static str> {
    let e = l.iter().position(|c| *c == b'\t').or_else(|| l.iter().position(|c| *c == b'\n')).ok_or("no end")?;
    let n = &l[..e];
    if n.len() < 2 || n[0] != b'"' || n[n.len() - 1] != b'"' {
        return if n.iter().any(|c| b"\n\t\0\r\"\\".contains(c)) { Err("special character without quotes") } else { Ok(n.to_vec()) };
    }
    let (n, mut i, mut v) = (&n[1..n.len() - 1], 0, Vec::new());
    while i < n.len() {
        match n[i] {
            b'\\' => {
                i += 1;
                v.push(match n.get(i) {
                    Some(d @ b'0'..=b'3') if n[i + 1..].len() > 1 && n[i + 1..i + 3].iter().all(|d| (b'0'..=b'7').contains(d)) => {
                        i += 2;
                        (d - b'0') * 64 + (n[i - 1] - b'0') * 8 + (n[i] - b'0')
                    }
                    Some(b'a') => 7,
                    Some(b'b') => 8,
                    Some(b'v') => 11,
                    Some(b'f') => 12,
                    Some(b'n') => b'\n',
                    Some(b't') => b'\t',
                    Some(b'0') => 0,
                    Some(b'r') => b'\r',
                    Some(c @ (b'"' | b'\\')) => *c,
                    Some(_) => return Err("unknown escape"),
                    None => return Err("unfinished escape"),
                })
            }
            b'\n' | b'\t' | 0 | b'\r' | b'"' => return Err("special character without escape"),
            c => v.push(c),
        }
        i += 1;
    }
    Ok(v)
}

/// The numbers and the function context of a hunk header.
fn read_header(l: &[u8]) -> Option<((usize, usize, usize, usize), Option<Vec<u8>>)> {
    let l = l.strip_prefix(b"@@ ")?;
    let e = l.windows(3).position(|w| w == b" @@")?;
    let mut r = std::str::from_utf8(&l[..e]).ok()?.splitn(2, ' ');
    let num = |t: &str| {
        let mut p = t.splitn(2, ',');
        let a = p.next()?.parse().ok()?;
        Some((a, p.next().map_or(Some(1), |b| b.parse().ok())?))
    };
    let (a, b) = (num(r.next()?.strip_prefix('-')?)?, num(r.next()?.strip_prefix('+')?)?);
    let fc = l[e + 3..].strip_prefix(b" ").map(|f| f.strip_suffix(b"\n").unwrap_or(f).to_vec());
    Some(((a.0, a.1, b.0, b.1), fc))
}

/// What must be true of any accepted text.
fn accepted(v: &PV, text: &[u8], o: &mut Obs) -> R {
    for (hi, h) in v.hunks.iter().enumerate() {
        let e = |m: &str| format!("hunk #{}: {m}: {}", hi + 1, brief(h));
        let ol = h.lines.iter().filter(|l| l.0 != b'+').count();
        let nl = h.lines.iter().filter(|l| l.0 != b'-').count();
        ensure!(ol == h.ol && nl == h.nl, "{}", e("accepted although the header states other counts"));
        ensure!(h.os.checked_add(h.ol).is_some() && h.ns.checked_add(h.nl).is_some(), "{}", e("accepted although start plus length is not representable"));
        if hi > 0 {
            let p = &v.hunks[hi - 1];
            ensure!(p.os + p.ol <= h.os && p.ns + p.nl <= h.ns, "{}", e("accepted although it starts before the previous hunk ends"));
        }
    }
    // the file header: the lines from the first that looks like one up to the first hunk
    let ls = lines(text);
    let is = |l: &&[u8], p: &[u8]| l.starts_with(p);
    let from = ls.iter().position(|l| is(l, b"--- ") || is(l, b"+++ ") || is(l, b"@@ ")).unwrap_or(ls.len());
    let (mut orig, mut modi) = (None, None);
    for l in ls[from..].iter().take_while(|l| is(l, b"--- ") || is(l, b"+++ ")) {
        let slot = if l[0] == b'-' { &mut orig } else { &mut modi };
        ensure!(slot.is_none(), "accepted a second {:?} line", &show(&l[..3]));
        *slot = Some(read_name(&l[4..]).map_err(|e| format!("accepted the file name line {:?}: {e}", show(l)))?);
    }
    ensure!(v.orig == orig && v.modi == modi, "accepted with the names {:?} and {:?}, the text says {:?} and {:?}", v.orig, v.modi, orig, modi);
    o.add("accepted names compared", orig.is_some() as usize + modi.is_some() as usize);
    let Some(first) = ls.iter().position(|l| l.starts_with(b"@@ ")) else {
        ensure!(v.hunks.is_empty(), "hunks out of nowhere");
        return Ok(());
    };
    for (h, l) in v.hunks.iter().zip(ls[first..].iter().filter(|l| l[0] == b'@')) {
        let want = read_header(l).ok_or_else(|| format!("accepted the hunk header {:?}", show(l)))?;
        ensure!((h.os, h.ol, h.ns, h.nl) == want.0 && h.fc == want.1, "the hunk header {:?} was read as {}", show(l), brief(h));
    }
    let mut hs: Vec<Vec<(u8, Vec<u8>)>> = Vec::new();
    for l in &ls[first..] {
        match l[0] {
            b'@' => hs.push(vec![]),
            b'\\' => {
                let x = hs.last_mut().and_then(|h| h.last_mut()).ok_or("accepted a marker without a line before it")?;
                ensure!(x.1.pop() == Some(b'\n'), "accepted a marker after a line without newline");
            }
            b'\n' => hs.last_mut().unwrap().push((b' ', b"\n".to_vec())),
            k => {
                ensure!(b" -+".contains(&k), "accepted a hunk line that starts with {:?}", k as char);
                hs.last_mut().unwrap().push((k, l[1..].to_vec()));
            }
        }
    }
    let got: Vec<Vec<(u8, Vec<u8>)>> = v.hunks.iter().map(|h| h.lines.clone()).collect();
    ensure!(got == hs, "accepted, but the lines are {got:?} instead of {hs:?}");
    // a side that was ended stays ended
    for h in &hs {
        let (mut o_end, mut n_end) = (false, false);
        for (i, (k, l)) in h.iter().enumerate() {
            let both = *k == b' ';
            if (*k != b'+' && o_end) || (*k != b'-' && n_end) {
                return Err("accepted a line on a side that was already ended by a marker".into());
            }
            if l.last() != Some(&b'\n') {
                ensure!(!both || i + 1 == h.len(), "accepted a line after a context line that ends both texts");
                o_end |= *k == b'-';
                n_end |= *k == b'+';
            }
        }
    }
    o.add("accepted hunks verified", v.hunks.len());
    Ok(())
}

fn p02(c: &Case, o: &mut Obs) -> R {
    let t = &c.t[0];
    let reject = c.tag == "!reject";
    let b = guarded("from_bytes", || Patch::from_bytes(t).map(|p| view(&p)).map_err(|e| e.to_string()))?;
    let st = match s(t) {
        Some(x) => Some(guarded("from_str", || Patch::from_str(x).map(|p| view(&p)).map_err(|e| e.to_string()))?),
        None => None,
    };
    for (w, r) in [("bytes", Some(b)), ("str", st)] {
        let Some(r) = r else { continue };
        match r {
            Ok(v) => {
                ensure!(!reject, "{w}: accepted a patch that contradicts itself (corruption {}): {:?} as {:?}", c.n[0], show(t), v.hunks.iter().map(brief).collect::<Vec<_>>());
                o.add("accepted", 1);
                o.nontrivial |= !v.hunks.is_empty();
                accepted(&v, t, o).map_err(|e| format!("{w}: {e}"))?;
            }
            Err(_) => {
                o.add(if reject { "rejected as required" } else { "rejected" }, 1);
                o.nontrivial |= reject;
            }
        }
    }
    Ok(())
}
