//! What contracts/lib/trust.rs assumes of the standard library, compared with the standard library
//! itself: exhaustively where the domain is small, on a fixed pseudo-random sample elsewhere.
use std::io::Write;

type R = Result<u64, String>;
macro_rules! same { ($a:expr, $b:expr, $($t:tt)*) => { let (a, b) = ($a, $b); if a != b { return Err(format!("{}: {:?} and {:?}", format!($($t)*), a, b)); } } }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> usize { (self.next() % n) as usize }
}

fn le(v: u64, n: usize) -> Vec<u8> { (0..n).map(|i| (v >> (8 * i)) as u8).collect() }
/// to_le_bytes and from_le_bytes of the six types
fn le_bytes() -> R {
    let mut r = Rng(1);
    let mut n = 0;
    let mut vs: Vec<u64> = vec![0, 1, 0x80, 0x7fc00000, 0x7f800001, 0xffc12345, 0x7ff0000000000001, 0xfff8000012345678, 1 << 63, u64::MAX];
    for i in 0..64 { vs.push(1 << i); vs.push((1u64 << i).wrapping_sub(1)); for b in 0..256u64 { vs.push(b << (i / 8 * 8)); } }
    for _ in 0..300_000 { vs.push(r.next()); }
    for v in vs {
        let (a, b) = (le(v, 8), le(v, 4));
        let (mut a8, mut b4) = ([0u8; 8], [0u8; 4]);
        a8.copy_from_slice(&a); b4.copy_from_slice(&b);
        same!(v.to_le_bytes(), a8, "u64 {}", v);
        same!((v as i64).to_le_bytes(), a8, "i64 {}", v);
        same!(f64::from_bits(v).to_le_bytes(), a8, "f64 {}", v);
        same!((v as u32).to_le_bytes(), b4, "u32 {}", v);
        same!((v as i32).to_le_bytes(), b4, "i32 {}", v);
        same!(f32::from_bits(v as u32).to_le_bytes(), b4, "f32 {}", v);
        same!(u64::from_le_bytes(a8), v, "u64 {}", v);
        same!(i64::from_le_bytes(a8), v as i64, "i64 {}", v);
        same!(f64::from_le_bytes(a8).to_bits(), v, "f64 {}", v);
        same!(u32::from_le_bytes(b4), v as u32, "u32 {}", v);
        same!(i32::from_le_bytes(b4), v as i32, "i32 {}", v);
        same!(f32::from_le_bytes(b4).to_bits(), v as u32, "f32 {}", v);
        n += 12;
    }
    Ok(n)
}
fn ceil_div() -> R {
    for a in 0..4096usize { for b in 1..64usize {
        same!((a as f64 / b as f64).ceil() as usize, (a + b - 1) / b, "ceil {}/{}", a, b);
        same!((a as f32 / b as f32).ceil() as usize, (a + b - 1) / b, "ceil {}/{}", a, b);
    } }
    Ok(4096 * 63 * 2)
}
fn pow() -> R {
    let mut n = 0;
    for b in (0..70_000u64).chain((1 << 32) - 1000..1 << 32) {
        let mut p = 1u64;
        for e in 0..40 {
            if p > u32::MAX as u64 { break; }
            same!((b as u32).pow(e) as u64, p, "{}^{}", b, e);
            p *= b;
            n += 1;
        }
    }
    Ok(n)
}
fn white(b: u8) -> bool { b == 32 || (9..=13).contains(&b) }
fn trim(b: &[u8]) -> &[u8] {
    let mut b = b;
    while !b.is_empty() && white(b[0]) { b = &b[1..]; }
    while !b.is_empty() && white(b[b.len() - 1]) { b = &b[..b.len() - 1]; }
    b
}
fn lines(mut b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    while !b.is_empty() {
        match b.iter().position(|x| *x == 10) {
            None => { v.push(b); break; }
            Some(i) => { let l = &b[..i]; v.push(if l.last() == Some(&13) { &l[..i - 1] } else { l }); b = &b[i + 1..]; }
        }
    }
    v
}
fn hex(b: &[u8]) -> Option<u128> {
    if b.is_empty() { return None; }
    let mut v = 0u128;
    for x in b { v = v * 16 + match x { 48..=57 => x - 48, 97..=102 => x - 87, 65..=70 => x - 55, _ => return None } as u128; }
    Some(v)
}
fn text() -> R {
    let mut n = 0;
    let set = [b' ', b'\t', b'\n', b'\r', b'a', 0x0b, 0x0c, 0x1c, 0x1f, 0, 0x7f];
    for l in 0..6u32 {
        for mut k in 0..set.len().pow(l) {
            let b: Vec<u8> = (0..l).map(|_| { let c = set[k % set.len()]; k /= set.len(); c }).collect();
            let s = String::from_utf8(b.clone()).unwrap();
            same!(s.trim().as_bytes(), trim(&b), "trim {:?}", s);
            same!(s.lines().map(|x| x.as_bytes()).collect::<Vec<_>>(), lines(&b), "lines {:?}", s);
            n += 2;
        }
    }
    let mut r = Rng(2);
    let mut one = |b: Vec<u8>| -> R {
        let s = String::from_utf8(b.clone()).unwrap();
        if let Some(v) = hex(&b) {
            let want = if v <= u32::MAX as u128 { Some(v as u32) } else { None };
            same!(u32::from_str_radix(&s, 16).ok(), want, "hexadecimal {:?}", s);
        }
        Ok(1)
    };
    for a in 0..128u8 { n += one(vec![a])?; for b in 0..128u8 { n += one(vec![a, b])?; } }
    for _ in 0..200_000 { let l = 1 + r.below(12); n += one((0..l).map(|_| b"0123456789abcdefABCDEF"[r.below(22)]).collect())?; }
    Ok(n)
}
/// The characters of a valid encoding.
fn utf8(b: &[u8]) -> Option<Vec<u32>> {
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        let (k, mut c) = match b[i] { 0..=0x7f => (0, b[i] as u32), 0xc0..=0xdf => (1, b[i] as u32 & 31), 0xe0..=0xef => (2, b[i] as u32 & 15), 0xf0..=0xf7 => (3, b[i] as u32 & 7), _ => return None };
        if i + k >= b.len() { return None; }
        for j in 1..=k { if b[i + j] & 0xc0 != 0x80 { return None; } c = c << 6 | (b[i + j] & 63) as u32; }
        if c < [0, 0x80, 0x800, 0x10000][k] || c > 0x10ffff || (0xd800..0xe000).contains(&c) { return None; }
        v.push(c);
        i += k + 1;
    }
    Some(v)
}
fn strings() -> R {
    let mut n = 0;
    let mut one = |b: Vec<u8>| -> R {
        let w = utf8(&b);
        let g = String::from_utf8(b.clone()).ok();
        same!(g.as_ref().map(|s| s.chars().map(|c| c as u32).collect::<Vec<_>>()), w, "text {:?}", b);
        if let Some(s) = g { same!(s.as_bytes(), &b[..], "octets of {:?}", s); same!(s.into_bytes(), b, "octets"); }
        Ok(1)
    };
    for a in 0..256u32 { n += one(vec![a as u8])?; for b in 0..256u32 { n += one(vec![a as u8, b as u8])?; } }
    let set = [0u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
    for l in 3..5u32 { for mut k in 0..set.len().pow(l) { n += one((0..l).map(|_| { let c = set[k % set.len()]; k /= set.len(); c }).collect())?; } }
    Ok(n)
}
fn vectors() -> R {
    let mut n = 0;
    let mut r = Rng(3);
    for c in (0..5000).chain([65_535, 65_536, 1 << 20]) {
        same!(Vec::<(Vec<u8>, Vec<u8>, u8)>::with_capacity(c).capacity(), c, "capacity");
        same!(Vec::<u8>::with_capacity(c).capacity(), c, "capacity");
        n += 2;
    }
    for l in 0..12usize { for a in 0..=l { for b in a..=l {
        let v: Vec<u8> = (0..l as u8).collect();
        let mut d = v.clone();
        d.drain(a..b);
        same!(d, [&v[..a], &v[b..]].concat(), "drain {}..{} of {}", a, b, l);
        if a == 0 { let mut d = v.clone(); d.drain(..b); same!(d, v[b..].to_vec(), "drain ..{} of {}", b, l); }
        let (mut x, mut y) = (v.clone(), v[a..b].to_vec());
        x.append(&mut y);
        same!((x, y.len()), ([&v[..], &v[a..b]].concat(), 0), "append");
        let mut x = v.clone();
        x.extend_from_slice(&v[a..b]);
        same!(x, [&v[..], &v[a..b]].concat(), "extend_from_slice");
        let mut x = v.clone();
        x.extend(v[a..b].iter());
        same!(x, [&v[..], &v[a..b]].concat(), "extend");
        let mut x = v.clone();
        same!(Write::write_all(&mut x, &v[a..b]).is_ok(), true, "write_all");
        same!(x, [&v[..], &v[a..b]].concat(), "write_all");
        same!(Vec::from(&v[a..b]), (a as u8..b as u8).collect::<Vec<u8>>(), "Vec::from");
        same!(v[a..b].to_owned(), (a as u8..b as u8).collect::<Vec<u8>>(), "to_owned");
        let mut x = vec![7; b - a];
        x.clone_from_slice(&v[a..b]);
        same!(&x[..], &v[a..b], "clone_from_slice");
        let mut x = v.clone();
        x.resize(b, 99);
        same!((x.len(), x[..].to_vec()), (b, v[..b].to_vec()), "resize");
        let mut x = v[..a].to_vec();
        x.resize(b, 99);
        same!(x, [&v[..a], &vec![99; b - a][..]].concat(), "resize");
        n += 10;
    } } }
    let mut q = std::collections::VecDeque::new();
    let mut m: Vec<u64> = vec![];
    for _ in 0..20_000 {
        match r.below(5) {
            0 | 1 => { let x = r.next(); q.push_front(x); m.insert(0, x); }
            2 => { let x = r.next(); q.push_back(x); m.push(x); }
            3 => { same!(q.pop_back(), m.pop(), "pop_back"); }
            _ => { same!(q.pop_front(), if m.is_empty() { None } else { Some(m.remove(0)) }, "pop_front"); }
        }
        let i = r.below(m.len() as u64 + 3);
        same!(q.get(i), m.get(i), "get");
        same!((q.front(), q.back(), q.len(), q.is_empty()), (m.first(), m.last(), m.len(), m.is_empty()), "ends");
        n += 2;
    }
    Ok(n)
}
fn small() -> R {
    for a in 0..=255u8 { for b in 0..=a { let mut x = a; x -= &b; same!(x, a - b, "-="); } }
    for a in [None, Some(1), Some(2)] { for b in [None, Some(1), Some(3)] {
        same!(a.or(b), if a.is_some() { a } else { b }, "or");
        same!(a.and(b), if a.is_some() { b } else { None }, "and");
        same!(a.as_ref().copied(), a, "copied");
        let mut x = a; same!((x.replace(9), x), (a, Some(9)), "Option::replace");
        same!(a.map_or(5, |v| v + 1), match a { Some(v) => v + 1, None => 5 }, "map_or");
        same!(a.or_else(|| b), if a.is_some() { a } else { b }, "or_else");
    } }
    let mut x = 3; same!((std::mem::replace(&mut x, 4), x), (3, 4), "mem::replace");
    for r in [Ok(3), Err(4)] as [Result<u32, u32>; 2] {
        same!((r.unwrap_or(7), r.unwrap_or_default()), match r { Ok(v) => (v, v), Err(_) => (7, 0) }, "unwrap_or");
    }
    for i in [i64::MIN, -1, 0, 1, i64::MAX, 1 << 31, -(1 << 31)] { same!((i.is_negative(), (i as i32).is_negative()), (i < 0, (i as i32) < 0), "is_negative"); }
    same!((u64::from(true), u64::from(false)), (1, 0), "from bool");
    Ok(40_000)
}

pub fn all() -> R {
    let mut n = 0;
    for f in [le_bytes, ceil_div, pow, text, strings, vectors, small] as [fn() -> R; 7] { n += f()?; }
    Ok(n)
}
