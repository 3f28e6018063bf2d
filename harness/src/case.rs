//! Test cases, their serialised form, and shrinking.
use crate::refm::{lines, HV, PV};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    /// a leading '!' means: carries its own expectation, do not shrink or mutate
    pub tag: String,
    pub t: Vec<Vec<u8>>,
    pub n: Vec<u64>,
}

impl Case {
    pub fn new(tag: &str, t: Vec<Vec<u8>>, n: Vec<u64>) -> Case {
        Case { tag: tag.into(), t, n }
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::rng::hash_bytes(1, self.tag.as_bytes());
        for t in &self.t {
            h = crate::rng::hash_bytes(h, t);
        }
        for n in &self.n {
            h = crate::rng::mix(h ^ n);
        }
        h
    }
    pub fn to_bin(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let put = |v: &mut Vec<u8>, b: &[u8]| {
            v.extend((b.len() as u64).to_le_bytes());
            v.extend_from_slice(b);
        };
        put(&mut v, self.tag.as_bytes());
        v.extend((self.t.len() as u64).to_le_bytes());
        for t in &self.t {
            put(&mut v, t);
        }
        v.extend((self.n.len() as u64).to_le_bytes());
        for n in &self.n {
            v.extend(n.to_le_bytes());
        }
        v
    }
    pub fn from_bin(b: &[u8]) -> Option<Case> {
        let mut p = 0;
        let mut u = || -> Option<u64> {
            let x = b.get(p..p + 8)?;
            p += 8;
            Some(u64::from_le_bytes(x.try_into().ok()?))
        };
        let l = u()? as usize;
        let tag = String::from_utf8(b.get(8..8 + l)?.to_vec()).ok()?;
        p = 8 + l;
        let u = |p: &mut usize| -> Option<u64> {
            let x = b.get(*p..*p + 8)?;
            *p += 8;
            Some(u64::from_le_bytes(x.try_into().ok()?))
        };
        let nt = u(&mut p)? as usize;
        let mut t = Vec::new();
        for _ in 0..nt {
            let l = u(&mut p)? as usize;
            t.push(b.get(p..p + l)?.to_vec());
            p += l;
        }
        let nn = u(&mut p)? as usize;
        let mut n = Vec::new();
        for _ in 0..nn {
            n.push(u(&mut p)?);
        }
        Some(Case { tag, t, n })
    }
    pub fn json(&self) -> String {
        let hex = |b: &[u8]| b.iter().map(|c| format!("{c:02x}")).collect::<String>();
        format!(
            "{{\"tag\":{},\"n\":[{}],\"t_hex\":[{}],\"t_text\":[{}]}}",
            jstr(&self.tag),
            self.n.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","),
            self.t.iter().map(|t| format!("\"{}\"", hex(t))).collect::<Vec<_>>().join(","),
            self.t.iter().map(|t| jstr(&crate::refm::show(t))).collect::<Vec<_>>().join(",")
        )
    }
    pub fn size(&self) -> usize {
        self.t.iter().map(|t| t.len()).sum()
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// models carried inside cases
pub fn pv_to_bin(p: &PV) -> Vec<u8> {
    let mut v = Vec::new();
    let num = |v: &mut Vec<u8>, n: usize| v.extend((n as u64).to_le_bytes());
    let opt = |v: &mut Vec<u8>, o: &Option<Vec<u8>>| match o {
        None => v.extend(u64::MAX.to_le_bytes()),
        Some(b) => {
            v.extend((b.len() as u64).to_le_bytes());
            v.extend_from_slice(b);
        }
    };
    opt(&mut v, &p.orig);
    opt(&mut v, &p.modi);
    num(&mut v, p.hunks.len());
    for h in &p.hunks {
        for n in [h.os, h.ol, h.ns, h.nl] {
            num(&mut v, n);
        }
        opt(&mut v, &h.fc);
        num(&mut v, h.lines.len());
        for (k, l) in &h.lines {
            v.push(*k);
            opt(&mut v, &Some(l.clone()));
        }
    }
    v
}

pub fn pv_from_bin(b: &[u8]) -> Option<PV> {
    struct R<'a>(&'a [u8]);
    impl R<'_> {
        fn num(&mut self) -> Option<u64> {
            let (a, r) = (self.0.get(..8)?, self.0.get(8..)?);
            let x = u64::from_le_bytes(a.try_into().ok()?);
            self.0 = r;
            Some(x)
        }
        fn opt(&mut self) -> Option<Option<Vec<u8>>> {
            let n = self.num()?;
            if n == u64::MAX {
                return Some(None);
            }
            let x = self.0.get(..n as usize)?.to_vec();
            self.0 = &self.0[n as usize..];
            Some(Some(x))
        }
    }
    let mut r = R(b);
    let orig = r.opt()?;
    let modi = r.opt()?;
    let nh = r.num()?;
    let mut hunks = Vec::new();
    for _ in 0..nh {
        let (os, ol, ns, nl) = (r.num()? as usize, r.num()? as usize, r.num()? as usize, r.num()? as usize);
        let fc = r.opt()?;
        let m = r.num()?;
        let mut ls = Vec::new();
        for _ in 0..m {
            let k = *r.0.first()?;
            r.0 = &r.0[1..];
            ls.push((k, r.opt()??));
        }
        hunks.push(HV { os, ol, ns, nl, fc, lines: ls });
    }
    Some(PV { orig, modi, hunks })
}

/// Reduce a failing case; `fails` must be deterministic.
pub fn shrink(c: &Case, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut best = c.clone();
    if best.tag.starts_with('!') {
        return best;
    }
    let start = Instant::now();
    let mut tries = 0;
    let mut ok = |c: &Case, tries: &mut u32| -> bool {
        *tries += 1;
        *tries < 4000 && start.elapsed().as_secs() < 8 && fails(c)
    };
    loop {
        let before = best.clone();
        for i in 0..best.t.len() {
            // drop chunks of lines
            let mut chunk = lines(&best.t[i]).len().div_ceil(2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let ls = lines(&best.t[i]);
                    if at >= ls.len() {
                        break;
                    }
                    let end = (at + chunk).min(ls.len());
                    let mut c = best.clone();
                    c.t[i] = [ls[..at].concat(), ls[end..].concat()].concat();
                    if ok(&c, &mut tries) {
                        best = c;
                    } else {
                        at += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            // shorten lines
            if best.t[i].len() < 4000 {
                let mut p = 0;
                while p < best.t[i].len() {
                    let mut c = best.clone();
                    let e = (p + (best.t[i].len() / 16).max(1)).min(best.t[i].len());
                    c.t[i].drain(p..e);
                    if ok(&c, &mut tries) {
                        best = c;
                    } else {
                        p = e;
                    }
                }
            }
        }
        for i in 0..best.n.len() {
            for cand in [0, 1, 2, 3, best.n[i] / 2, best.n[i].saturating_sub(1)] {
                if cand < best.n[i] {
                    let mut c = best.clone();
                    c.n[i] = cand;
                    if ok(&c, &mut tries) {
                        best = c;
                        break;
                    }
                }
            }
        }
        if best.tag == "script" {
            let mut i = 0;
            while i < best.n.len() {
                let mut c = best.clone();
                c.n.remove(i);
                if ok(&c, &mut tries) {
                    best = c;
                } else {
                    i += 1;
                }
            }
        }
        if best == before || tries >= 4000 || start.elapsed().as_secs() >= 8 {
            return best;
        }
    }
}
