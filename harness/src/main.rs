//! Monitored workloads for diffy: see /verif/DESIGN.md.
#![allow(clippy::type_complexity)]
mod case;
mod gen;
mod mon;
mod props;
mod refm;
mod rng;

use case::{jstr, Case};
use gen::{Ctx, Feedback};
use props::{Obs, Prop};
use rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

/// logical steps one case may take before it counts as not ending
const CASE_STEPS: u64 = 3_000_000_000;

struct Args {
    pos: Vec<String>,
    kv: HashMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.kv.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| usage(&format!("bad --{k}"))))
    }
    fn flag(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
}

fn usage(m: &str) -> ! {
    eprintln!("dvmon: {m}");
    std::process::exit(64)
}

fn main() {
    let mut a = Args { pos: Vec::new(), kv: HashMap::new() };
    let mut it = std::env::args().skip(1).peekable();
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            let v = match it.peek() {
                Some(v) if !v.starts_with("--") => it.next().unwrap(),
                _ => String::new(),
            };
            a.kv.insert(k.into(), v);
        } else {
            a.pos.push(x);
        }
    }
    mon::install_panic_hook();
    // the stack size an ordinary thread has
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || command(a)).expect("thread");
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("dvmon: internal panic: {}", mon::last_panic());
            std::process::exit(70)
        }
    }
}

fn command(a: Args) -> i32 {
    match a.pos.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        Some("tally") => tally(&a),
        Some("digest") if a.pos.len() == 3 => {
            props::sys::digest_cmd(&a.pos[1], &a.pos[2]);
            0
        }
        Some("ir") => {
            let sizes: Vec<usize> = a.get("sizes").unwrap_or("1000").split(',').map(|s| s.parse().unwrap_or_else(|_| usage("bad --sizes"))).collect();
            props::sys::ir::run(a.num("shard", 0) as usize, a.num("shards", 1) as usize, &sizes, a.get("out").unwrap_or_else(|| usage("--out")));
            0
        }
        Some("emit") => emit(&a),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => usage("run | replay | tally | digest | list"),
    }
}

fn prop(a: &Args) -> Prop {
    let id = a.get("prop").unwrap_or_else(|| usage("--prop"));
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage("no such property"))
}

fn feedback(a: &Args, live: bool) -> Feedback {
    let mut cs: Vec<u64> = Vec::new();
    if let Some(t) = a.get("consts").and_then(|f| std::fs::read_to_string(f).ok()) {
        cs.extend(t.lines().filter_map(|l| l.parse::<u64>().ok()));
    }
    if live {
        cs.extend(mon::consts());
    }
    let mut f = Feedback::from_consts(&cs);
    if let Some(t) = a.get("dict").and_then(|f| std::fs::read_to_string(f).ok()) {
        f.add_dict(&t);
    }
    f
}

/// Run one check on one case; a panic of the check itself outside a guarded call is reported too.
fn one(p: &Prop, c: &Case, o: &mut Obs) -> Result<(), String> {
    mon::STEP_LIMIT.store(mon::steps().saturating_add(CASE_STEPS), Relaxed);
    let r = mon::guarded("the check", || (p.check)(c, o));
    match r {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

/// Change a case a little.
fn mutate(rng: &mut Rng, c: &Case, fb: &Feedback) -> Case {
    let mut c = c.clone();
    for _ in 0..rng.range(1, 4) {
        if !c.n.is_empty() && rng.chance(1, 6) {
            let i = rng.below(c.n.len());
            c.n[i] = match rng.below(5) {
                0 => c.n[i].wrapping_add(1),
                1 => c.n[i].saturating_sub(1),
                2 => rng.below(8) as u64,
                3 if c.tag != "triple" => gen::size(rng, fb) as u64,
                _ => rng.below(64) as u64,
            };
            continue;
        }
        if c.t.is_empty() {
            return c;
        }
        let i = rng.below(c.t.len());
        let utf8 = std::str::from_utf8(&c.t[i]).is_ok();
        let j = rng.below(c.t.len());
        let other = refm::lines(&c.t[j]).into_iter().map(|l| l.to_vec()).collect::<Vec<_>>();
        let mut ls: Vec<Vec<u8>> = refm::lines(&c.t[i]).into_iter().map(|l| l.to_vec()).collect();
        match rng.below(9) {
            0 if !ls.is_empty() => {
                let p = rng.below(ls.len());
                ls.remove(p);
            }
            1 if !ls.is_empty() => {
                let p = rng.below(ls.len());
                let l = ls[p].clone();
                let q = rng.below(ls.len() + 1);
                ls.insert(q, l);
            }
            2 if ls.len() > 1 => {
                let (p, q) = (rng.below(ls.len()), rng.below(ls.len()));
                ls.swap(p, q);
            }
            3 if !other.is_empty() => {
                let q = rng.below(ls.len() + 1);
                ls.insert(q, rng.pick(&other).clone());
            }
            4 if !ls.is_empty() => {
                let p = rng.below(ls.len());
                let mut l = if fb.tokens.is_empty() { b"x".to_vec() } else { rng.pick(&fb.tokens).clone() };
                l.push(b'\n');
                ls[p] = l;
            }
            5 => {
                // change the final newline
                if let Some(l) = ls.last_mut() {
                    if l.last() == Some(&b'\n') {
                        l.pop();
                    } else {
                        l.push(b'\n');
                    }
                }
            }
            _ => {
                let t = &mut c.t[i];
                if t.is_empty() {
                    t.push(b'a');
                    continue;
                }
                let p = rng.below(t.len());
                match rng.below(4) {
                    0 => {
                        t.remove(p);
                    }
                    1 => t.insert(p, *rng.pick(b"\n ab@-+\\\t\r0123456789,\"")),
                    2 => t[p] = *rng.pick(b"\n ab@-+\\\t\r0123456789,\""),
                    _ if !fb.tokens.is_empty() => {
                        let k = rng.pick(&fb.tokens).clone();
                        t.splice(p..p, k);
                    }
                    _ => {}
                }
                if utf8 && std::str::from_utf8(t).is_err() {
                    *t = String::from_utf8_lossy(t).into_owned().into_bytes();
                }
                continue;
            }
        }
        c.t[i] = ls.concat();
    }
    c
}

fn run(a: &Args) -> i32 {
    let p = prop(a);
    let flavour = a.get("flavour").unwrap_or("mon").to_string();
    let mon_flavour = flavour == "mon";
    let seed = a.num("seed", 1);
    let (shard, shards) = (a.num("shard", 0), a.num("shards", 1).max(1));
    let secs = a.num("secs", 5);
    let max = a.num("max", u64::MAX);
    let thorough = a.get("tier") == Some("thorough");
    let outf = a.get("out").unwrap_or_else(|| usage("--out")).to_string();
    let known: HashSet<String> = a.get("known").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
    let mut cur = a.get("cur").map(|f| std::fs::File::create(f).expect("cur"));
    let mut fb = feedback(a, false);
    let max_lines = a.num("max-lines", if thorough { 3000 } else { 1500 }) as usize;

    let start = Instant::now();
    let end = start + Duration::from_secs(secs);
    let pid = hash_bytes(7, p.id.as_bytes());
    let base = mix(mix(seed ^ pid) ^ hash_bytes(3, flavour.as_bytes()));

    let mut total = Obs::default();
    let mut evals: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut corpus: Vec<Case> = Vec::new();
    let mut failure: Option<(Case, String)> = None;
    let mut inconclusive: Vec<String> = Vec::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();

    let mut go = |src: &'static str, c: Case, corpus: &mut Vec<Case>| -> bool {
        if let Some(f) = &mut cur {
            f.seek(SeekFrom::Start(0)).expect("cur");
            f.write_all(&c.to_bin()).expect("cur");
        }
        let e0 = mon::new_edges();
        let mut o = Obs::default();
        let r = one(&p, &c, &mut o);
        *evals.entry(src).or_default() += 1;
        if o.nontrivial && hashes.insert(c.hash()) && c.size() < 500 && samples.len() < 3 && (hashes.len() % 37 == 1) {
            samples.push(c.json());
        }
        for (k, v) in o.counts {
            *total.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            total.max(k, v);
        }
        if mon_flavour && mon::new_edges() > e0 && !c.tag.starts_with('!') && c.size() < 20_000 {
            corpus.push(c.clone());
        }
        match r {
            Ok(()) => true,
            Err(e) if e.starts_with("inconclusive:") => {
                inconclusive.push(e);
                inconclusive.len() < 3
            }
            Err(e) => {
                let h = format!("{:016x}", c.hash());
                if known.contains(&h) {
                    *known_seen.entry(h).or_default() += 1;
                    return true;
                }
                failure = Some((c, e));
                false
            }
        }
    };

    let mut ok = true;
    let mut sp_done = 0u64;
    let mut sp_all = 0u64;
    if !a.flag("no-special") {
        let sp = (p.special)(thorough, &Ctx { fb: &fb, utf8: false, max_lines });
        sp_all = sp.len() as u64;
        // the first ones in order; the others scrambled, and elsewhere in each flavour, so that no part is cut off everywhere
        let (head, tail) = (sp_all.min(40), sp_all.saturating_sub(40).max(1));
        let (step, from) = (coprime(tail), if mon_flavour { 0 } else { tail * 6 / 10 * coprime(tail) % tail });
        let mut sp: Vec<Option<Case>> = sp.into_iter().map(Some).collect();
        for i in (shard..sp_all).step_by(shards as usize) {
            let k = if i < head { i } else { head + (from + (i - head) * step) % tail };
            let c = sp[k as usize].take().expect("each boundary case once");
            if start.elapsed() > Duration::from_secs(secs) * 6 / 10 {
                break;
            }
            ok = go("boundary cases", c, &mut corpus);
            sp_done += 1;
            if !ok {
                break;
            }
        }
    }
    // small inputs, in a fixed pseudo-random order so that a cut-off is a sample of all of them
    let n_enum = if a.flag("no-enum") { 0 } else { (p.count)(thorough) };
    let mut en_done = 0u64;
    if ok && n_enum > 0 {
        let step = coprime(n_enum);
        let cut = start + Duration::from_secs(secs) * 7 / 10;
        let mut i = shard;
        let mut late = false;
        while i < n_enum && !late {
            let k = ((i as u128 * step as u128 + seed as u128) % n_enum as u128) as u64;
            ok = go("enumerated cases", (p.nth)(thorough, k), &mut corpus);
            en_done += 1;
            if !ok {
                break;
            }
            late = en_done % 64 == 0 && Instant::now() > cut;
            i += shards;
        }
    }
    let en_mine = (n_enum + shards - 1 - shard.min(n_enum)) / shards;
    // cases made elsewhere (for interpreters too slow to make their own)
    if let Some(f) = a.get("cases") {
        let b = std::fs::read(f).expect("cases");
        let mut p = 0;
        let mut i = 0;
        while ok && p + 8 <= b.len() {
            let n = u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
            if i % shards == shard {
                ok = go("cases from a file", Case::from_bin(&b[p + 8..p + 8 + n]).expect("case"), &mut corpus);
                if Instant::now() > end {
                    break;
                }
            }
            p += 8 + n;
            i += 1;
        }
    }
    let mut i = 0u64;
    while ok && a.get("cases").is_none() && i < max && Instant::now() < end {
        if mon_flavour && i % 4000 == 300 {
            fb = feedback(a, true);
        }
        let mut rng = Rng::new(mix(base ^ mix(shard)) ^ mix(i));
        let cx = Ctx { fb: &fb, utf8: false, max_lines };
        if !corpus.is_empty() && rng.chance(1, 4) {
            let k = rng.below(corpus.len()).max(rng.below(corpus.len()));
            let c = mutate(&mut rng, &corpus[k], &fb);
            ok = go("mutated cases", c, &mut corpus);
        } else {
            let c = (p.gen)(&mut rng, &cx);
            ok = go("random cases", c, &mut corpus);
        }
        i += 1;
    }
    let _ = go;

    // results
    let mut viol = String::from("null");
    if let Some((c, e)) = failure {
        let f = format!("{outf}.case");
        std::fs::write(&f, c.to_bin()).expect("case");
        std::fs::write(format!("{outf}.raw"), jstr(&e)).expect("raw");
        let s = if a.flag("no-shrink") { c.clone() } else { case::shrink(&c, &mut |c| matches!(one(&p, c, &mut Obs::default()), Err(e) if !e.starts_with("inconclusive:"))) };
        let e = match one(&p, &s, &mut Obs::default()) {
            Err(e) => e,
            Ok(()) => e,
        };
        std::fs::write(&f, s.to_bin()).expect("case");
        viol = format!("{{\"message\":{},\"case\":{},\"hash\":\"{:016x}\"}}", jstr(&e.chars().take(4000).collect::<String>()), if s.size() < 6000 { s.json() } else { jstr("large, see the .case file") }, s.hash());
    }
    let mut hs: Vec<u64> = hashes.into_iter().collect();
    hs.sort();
    std::fs::write(format!("{outf}.hashes"), hs.iter().flat_map(|h| h.to_le_bytes()).collect::<Vec<u8>>()).expect("hashes");
    let map = |m: &BTreeMap<&'static str, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","));
    let list = |v: &mut dyn Iterator<Item = String>| format!("[{}]", v.collect::<Vec<_>>().join(","));
    let j = format!(
        "{{\"prop\":\"{}\",\"flavour\":\"{flavour}\",\"evals\":{},\"counts\":{},\"maxima\":{},\"distinct\":{},\"samples\":{},\"edges\":{},\"guards\":{},\"consts\":{},\"enum_done\":{en_done},\"enum_mine\":{en_mine},\"enum_all\":{n_enum},\"special_done\":{sp_done},\"special_all\":{sp_all},\"inconclusive\":{},\"known\":{},\"violation\":{viol},\"rule\":{},\"steps\":{},\"secs\":{:.2}}}",
        p.id,
        map(&evals),
        map(&total.counts),
        map(&total.maxima),
        hs.len(),
        list(&mut samples.iter().cloned()),
        list(&mut mon::edge_list().iter().map(|e| e.to_string())),
        mon::GUARDS.load(Relaxed),
        list(&mut mon::consts().iter().map(|e| e.to_string())),
        list(&mut inconclusive.iter().map(|e| jstr(e))),
        list(&mut known_seen.keys().map(|k| jstr(k))),
        jstr(p.rule),
        mon::steps(),
        start.elapsed().as_secs_f64(),
    );
    std::fs::write(&outf, j).expect("out");
    i32::from(viol != "null")
}

fn coprime(n: u64) -> u64 {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let mut s = (n as f64 * 0.618_033_988) as u64 | 1;
    while gcd(s, n) != 1 {
        s += 2;
    }
    s
}

/// write small random cases to a file
fn emit(a: &Args) -> i32 {
    let p = prop(a);
    let (n, size) = (a.num("max", 100), a.num("max-size", 200) as usize);
    let fb = feedback(a, false);
    let mut out = Vec::new();
    let (mut i, mut k) = (0u64, 0u64);
    while k < n && i < 1000 * n {
        let mut rng = Rng::new(mix(mix(a.num("seed", 1)) ^ i));
        i += 1;
        let c = (p.gen)(&mut rng, &Ctx { fb: &fb, utf8: false, max_lines: 6 });
        if c.size() <= size && c.t.iter().any(|t| t.len() > 4) {
            let b = c.to_bin();
            out.extend((b.len() as u64).to_le_bytes());
            out.extend(b);
            k += 1;
        }
    }
    std::fs::write(a.get("out").unwrap_or_else(|| usage("--out")), out).expect("emit");
    0
}

/// exit 0: the case passes; 1: violation; 2: inconclusive
fn replay(a: &Args) -> i32 {
    let p = prop(a);
    let f = a.pos.get(1).unwrap_or_else(|| usage("replay <file>"));
    let b = std::fs::read(f).unwrap_or_else(|e| usage(&format!("{f}: {e}")));
    let Some(c) = Case::from_bin(&b) else { usage("not a case file") };
    if a.flag("show") {
        println!("{}", c.json());
    }
    let mut o = Obs::default();
    match one(&p, &c, &mut o) {
        Ok(()) => {
            println!("pass");
            0
        }
        Err(e) if e.starts_with("inconclusive:") => {
            println!("{e}");
            2
        }
        Err(e) => {
            println!("{e}");
            if a.flag("shrink") {
                let s = case::shrink(&c, &mut |c| matches!(one(&p, c, &mut Obs::default()), Err(e) if !e.starts_with("inconclusive:")));
                println!("{}", s.json());
            }
            1
        }
    }
}

/// number of distinct hashes in sorted hash files
fn tally(a: &Args) -> i32 {
    let mut v: Vec<u64> = Vec::new();
    for f in &a.pos[1..] {
        let b = std::fs::read(f).unwrap_or_default();
        v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}
