//! Prints pairs of short lines that collide in common line hashes (rustc -O tools/collide.rs && ./collide > harness/src/collide.txt).
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn poly(b: &[u8], init: u64, m: u64) -> u64 {
    b.iter().fold(init, |h, c| h.wrapping_mul(m).wrapping_add(*c as u64))
}
fn fnv(b: &[u8], basis: u64, p: u64, a: bool) -> u64 {
    b.iter().fold(basis, |h, c| if a { (h ^ *c as u64).wrapping_mul(p) } else { h.wrapping_mul(p) ^ *c as u64 })
}
fn fnv32(b: &[u8], a: bool) -> u64 {
    b.iter().fold(0x811c9dc5u32, |h, c| if a { (h ^ *c as u32).wrapping_mul(16777619) } else { h.wrapping_mul(16777619) ^ *c as u32 }) as u64
}
fn crc(b: &[u8], poly: u32) -> u64 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ poly } else { c >> 1 };
        }
    }
    c as u64
}
fn jenkins(b: &[u8]) -> u64 {
    let mut h = 0u32;
    for c in b {
        h = h.wrapping_add(*c as u32);
        h = h.wrapping_add(h << 10);
        h ^= h >> 6;
    }
    h = h.wrapping_add(h << 3);
    h ^= h >> 11;
    h.wrapping_add(h << 15) as u64
}
fn sip(b: &[u8], how: u8) -> u64 {
    let mut h = DefaultHasher::new();
    match how {
        0 => b.hash(&mut h),
        1 => std::str::from_utf8(b).unwrap().hash(&mut h),
        2 => h.write(b),
        _ => std::str::from_utf8(b).unwrap().to_string().into_bytes().iter().for_each(|c| c.hash(&mut h)),
    }
    h.finish()
}
fn fx(b: &[u8]) -> u64 {
    let mut h = 0u64;
    for w in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..w.len()].copy_from_slice(w);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x517cc1b727220a95);
    }
    h
}
fn murmur3(b: &[u8]) -> u64 {
    let mut h = 0u32;
    let mix = |k: u32| k.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593);
    let mut it = b.chunks_exact(4);
    for w in &mut it {
        h = (h ^ mix(u32::from_le_bytes(w.try_into().unwrap()))).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
    }
    let mut k = 0u32;
    for (i, c) in it.remainder().iter().enumerate() {
        k |= (*c as u32) << (8 * i);
    }
    h ^= mix(k);
    h ^= b.len() as u32;
    h = (h ^ h >> 16).wrapping_mul(0x85ebca6b);
    h = (h ^ h >> 13).wrapping_mul(0xc2b2ae35);
    (h ^ h >> 16) as u64
}
fn pjw(b: &[u8]) -> u64 {
    let mut h = 0u32;
    for c in b {
        h = (h << 4).wrapping_add(*c as u32);
        let g = h & 0xf0000000;
        h = (h ^ g >> 24) & !g;
    }
    h as u64
}
fn word(mut i: u64) -> Vec<u8> {
    // eight letters, spread over the alphabet
    i = i.wrapping_mul(0x9e3779b97f4a7c15);
    i = (i ^ i >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    i = (i ^ i >> 27).wrapping_mul(0x94d049bb133111eb);
    i ^= i >> 31;
    (0..8).map(|_| { let c = b'a' + (i % 26) as u8; i /= 26; c }).collect()
}
fn main() {
    let lo = |h: u64| h & 0xffff_ffff;
    let hi = |h: u64| h >> 32;
    let fold = |h: u64| (h ^ h >> 32) & 0xffff_ffff;
    let nl = |b: &[u8]| [b, b"\n"].concat();
    let fs: Vec<(&str, Box<dyn Fn(&[u8]) -> u64>)> = vec![
        ("fnv1a-32", Box::new(|b| fnv32(b, true))),
        ("fnv1-32", Box::new(|b| fnv32(b, false))),
        ("fnv1a-64 low", Box::new(move |b| lo(fnv(b, 0xcbf29ce484222325, 0x100000001b3, true)))),
        ("fnv1a-64 fold+nl", Box::new(move |b| fold(fnv(&nl(b), 0xcbf29ce484222325, 0x100000001b3, true)))),
        ("fnv1a-64 fold", Box::new(move |b| fold(fnv(b, 0xcbf29ce484222325, 0x100000001b3, true)))),
        ("fnv1a-64 high+nl", Box::new(move |b| hi(fnv(&nl(b), 0xcbf29ce484222325, 0x100000001b3, true)))),
        ("djb2-32", Box::new(move |b| lo(poly(b, 5381, 33)))),
        ("djb2x-32", Box::new(move |b| lo(b.iter().fold(5381u64, |h, c| h.wrapping_mul(33) ^ *c as u64)))),
        ("sdbm-32", Box::new(move |b| lo(poly(b, 0, 65599)))),
        ("bkdr131-32", Box::new(move |b| lo(poly(b, 0, 131)))),
        ("bkdr257-32", Box::new(move |b| lo(poly(b, 0, 257)))),
        ("java31-32", Box::new(move |b| lo(poly(b, 0, 31)))),
        ("crc32", Box::new(|b| crc(b, 0xedb88320))),
        ("crc32c", Box::new(|b| crc(b, 0x82f63b78))),
        ("jenkins", Box::new(jenkins)),
        ("murmur3", Box::new(murmur3)),
        ("murmur3+nl", Box::new(move |b| murmur3(&nl(b)))),
        ("pjw", Box::new(pjw)),
        ("mod 1e9+7 256", Box::new(|b| b.iter().fold(0u64, |h, c| (h * 256 + *c as u64) % 1_000_000_007))),
        ("mod 1e9+7 131", Box::new(|b| b.iter().fold(0u64, |h, c| (h * 131 + *c as u64) % 1_000_000_007))),
        ("mod 1e9+7 31", Box::new(|b| b.iter().fold(0u64, |h, c| (h * 31 + *c as u64) % 1_000_000_007))),
        ("fx low", Box::new(move |b| lo(fx(b)))),
        ("fx high", Box::new(move |b| hi(fx(b)))),
        ("fx low+nl", Box::new(move |b| lo(fx(&nl(b))))),
        ("fx high+nl", Box::new(move |b| hi(fx(&nl(b))))),
        ("fx str low+nl", Box::new(move |b| lo(fx(&[&nl(b)[..], b"\xff"].concat())))),
    ];
    let mut all: Vec<(String, Box<dyn Fn(&[u8]) -> u64>)> = fs.into_iter().map(|(n, f)| (n.to_string(), f)).collect();
    for how in 0..4u8 {
        for part in 0..3 {
            for t in [false, true] {
                all.push((format!("sip how {how} part {part} nl {t}"), Box::new(move |b| {
                    let b = if t { nl(b) } else { b.to_vec() };
                    let h = sip(&b, how);
                    [lo(h), hi(h), fold(h)][part]
                })));
            }
        }
    }
    println!("Aa BB any width 31\naB b! any width 33\nad bc sum\nab ba sum-xor\naabb abab adler-ish");
    // two words of eight bytes each, equal in a 64-bit FxHash
    let k = 0x517cc1b727220a95u64;
    let f = |w: &[u8]| u64::from_le_bytes(w.try_into().unwrap()).wrapping_mul(k).rotate_left(5);
    let w2 = *b"linelines"[..8].first_chunk::<8>().unwrap();
    let mut found = 0;
    let w1 = word(1);
    for i in 2..10_000_000u64 {
        let v1 = word(i);
        let v2 = (u64::from_le_bytes(w2) ^ f(&w1) ^ f(&v1)).to_le_bytes();
        if v2.iter().all(|c| (b'!'..b'~').contains(c)) {
            println!("{}{} {}{} fx-64", String::from_utf8_lossy(&w1), String::from_utf8_lossy(&w2), String::from_utf8_lossy(&v1), String::from_utf8_lossy(&v2));
            found += 1;
            if found == 2 {
                break;
            }
        }
    }
    for (name, f) in all {
        let mut v: Vec<(u64, u64)> = (0..400_000).map(|i| (f(&word(i)), i)).collect();
        v.sort();
        let mut n = 0;
        for w in v.windows(2) {
            if w[0].0 == w[1].0 && word(w[0].1) != word(w[1].1) && n < 2 {
                println!("{} {} {name}", String::from_utf8(word(w[0].1)).unwrap(), String::from_utf8(word(w[1].1)).unwrap());
                n += 1;
            }
        }
        if n == 0 {
            eprintln!("none for {name}");
        }
    }
}
