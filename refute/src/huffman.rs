//! httlib-huffman against the code of RFC 7541, appendix B, as a list of bit strings.
use crate::src::Src;
use crate::{Prop, R};
use httlib_huffman::{decode, encode, DecoderSpeed};
use std::collections::HashMap;
use std::sync::OnceLock;

/// The 257 codes as bits.
pub fn rfc() -> &'static Vec<Vec<bool>> {
    static T: OnceLock<Vec<Vec<bool>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for part in include_str!("rfc.txt").split('(').skip(1) {
            let p = part.split(')').next().unwrap();
            let mut it = p.split(',');
            let (a, b) = match (it.next(), it.next()) { (Some(a), Some(b)) => (a.trim(), b.trim()), _ => continue };
            let (n, h) = match (a.parse::<u32>(), b.strip_prefix("0x")) { (Ok(n), Some(h)) => (n, u32::from_str_radix(h, 16).unwrap()), _ => continue };
            v.push((0..n).map(|i| h >> (n - 1 - i) & 1 == 1).collect());
        }
        assert_eq!(v.len(), 257);
        v
    })
}
fn by_code() -> &'static HashMap<Vec<bool>, usize> {
    static T: OnceLock<HashMap<Vec<bool>, usize>> = OnceLock::new();
    T.get_or_init(|| rfc().iter().enumerate().map(|(i, c)| (c.clone(), i)).collect())
}
pub fn bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1)).collect() }
pub fn bytes(b: &[bool]) -> Vec<u8> { b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | ((*x as u8) << (7 - i)))).collect() }
pub fn ref_encode(s: &[u8]) -> Vec<u8> {
    let mut b: Vec<bool> = s.iter().flat_map(|c| rfc()[*c as usize].iter().copied()).collect();
    while b.len() % 8 != 0 { b.push(true); }
    bytes(&b)
}
pub fn ref_decode(src: &[u8]) -> Option<Vec<u8>> {
    let (mut out, mut cur) = (vec![], vec![]);
    for x in bits(src) {
        cur.push(x);
        if let Some(c) = by_code().get(&cur) {
            if *c == 256 { return None; }
            out.push(*c as u8);
            cur.clear();
        }
        if cur.len() > 30 { return None; }
    }
    if cur.len() < 8 && cur.iter().all(|x| *x) { Some(out) } else { None }
}
pub const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];

fn text(s: &mut Src) -> Vec<u8> {
    match s.below(6) {
        0 => { // symbols with codes of a chosen length
            let n = s.len(40);
            let l = s.pick(&[5usize, 6, 7, 8, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30]);
            let c: Vec<u8> = (0..256).filter(|i| rfc()[*i].len() == l).map(|i| i as u8).collect();
            if c.is_empty() { vec![] } else { (0..n).map(|_| s.pick(&c)).collect() }
        }
        1 => { // long and short codes mixed
            let n = s.len(40);
            (0..n).map(|_| if s.bool() { s.pick(&[b'0', b'a', b'e', b's', b't', b'1']) } else { s.u8() }).collect()
        }
        2 if s.one_in(12) => { let b = s.bytes(24); let n = s.len(70000); if b.is_empty() { b } else { b.iter().cycle().take(n).copied().collect() } }
        _ => s.bytes(3000),
    }
}
fn show(b: &[u8]) -> String { if b.len() > 60 { format!("{:?}... ({} octets)", &b[..60], b.len()) } else { format!("{:?}", b) } }

fn check_encode(t: &[u8], pre: &[u8]) -> R {
    let mut dst = pre.to_vec();
    let r = encode(t, &mut dst);
    if r.is_err() { return Err(format!("encoding {} gives {:?}", show(t), r)); }
    let mut want = pre.to_vec();
    want.extend(ref_encode(t));
    if dst != want { return Err(format!("encoding {} after {} gives {}, the RFC code is {}", show(t), show(pre), show(&dst), show(&want))); }
    Ok(())
}
fn check_round_trip(t: &[u8], pre: &[u8], speeds: &[DecoderSpeed]) -> R {
    let mut e = vec![];
    encode(t, &mut e).map_err(|x| format!("encoding {}: {:?}", show(t), x))?;
    for sp in speeds {
        let mut d = pre.to_vec();
        let r = decode(&e, &mut d, *sp);
        if r.is_err() || d[..pre.len().min(d.len())] != *pre || d[pre.len()..] != *t {
            return Err(format!("{} encoded is {}, and decoding that at {:?} after {} gives {:?} and {}", show(t), show(&e), sp, show(pre), r, show(&d)));
        }
    }
    Ok(())
}
fn check_decode(b: &[u8], pre: &[u8], speeds: &[DecoderSpeed]) -> R {
    let want = ref_decode(b);
    for sp in speeds {
        let mut d = pre.to_vec();
        let r = decode(b, &mut d, *sp);
        let bad = match &want {
            Some(w) => r.is_err() || d.len() < pre.len() || d[..pre.len()] != *pre || d[pre.len()..] != w[..],
            None => r.is_ok() || d.len() < pre.len() || d[..pre.len()] != *pre,
        };
        if bad { return Err(format!("decoding {} at {:?} after {} gives {:?} and {}; expected {}", show(b), sp, show(pre), r, show(&d),
            match &want { Some(w) => format!("the string {}", show(w)), None => "an error".into() })); }
    }
    Ok(())
}
fn pre(s: &mut Src) -> Vec<u8> { match s.below(4) { 0 => s.bytes(64), 1 => vec![0xff; 3], _ => vec![] } }

fn u01(s: &mut Src) -> R {
    let (t, p) = (text(s), pre(s));
    s.note(|| format!("string {:?} appended to {:?}", t, p));
    check_encode(&t, &p)
}
fn u02(s: &mut Src) -> R {
    let (t, p) = (text(s), pre(s));
    s.note(|| format!("string {:?} decoded after {:?}", t, p));
    if t.len() > 5000 { let sp = s.pick(&SPEEDS); check_round_trip(&t, &p, &[sp]) } else { check_round_trip(&t, &p, &SPEEDS) }
}
/// Strings of octets that are nearly encodings.
fn nearly(s: &mut Src) -> Vec<u8> {
    let mut b: Vec<bool> = text(s).iter().take(200).flat_map(|c| rfc()[*c as usize].iter().copied()).collect();
    match s.below(8) {
        0 => { b.extend(&rfc()[256]); if s.bool() { b.extend(text(s).iter().take(20).flat_map(|c| rfc()[*c as usize].iter().copied())); } }
        1 => { let n = s.below(40); b.extend((0..n).map(|_| true)); }
        2 => { let n = s.below(12); b.extend((0..n).map(|_| false)); }
        3 => { let n = s.below(30) as usize; let c = s.below(257) as usize; b.extend(rfc()[c].iter().take(n)); }
        4 => { let n = s.below(30) as usize; for _ in 0..n.min(b.len()) { b.pop(); } }
        5 => { if !b.is_empty() { let i = s.below(b.len() as u64) as usize; b[i] = !b[i]; } }
        _ => {}
    }
    let fill = s.one_in(10);
    while b.len() % 8 != 0 { b.push(!fill); }
    bytes(&b)
}
fn u03(s: &mut Src) -> R {
    ceil_as_assumed()?;
    let k = DecoderSpeed::known();
    if k[..] != SPEEDS[..] { return Err(format!("DecoderSpeed::known lists {:?}", k)); }
    let b = if s.one_in(4) { s.bytes(300) } else { nearly(s) };
    let p = pre(s);
    s.note(|| format!("octets {:?} decoded after {:?}", b, p));
    check_decode(&b, &p, &SPEEDS)
}
fn small_text(s: &mut Src) -> Vec<u8> { let n = s.below(4); (0..n).map(|_| s.u8()).collect() }
fn u01_small(s: &mut Src) -> R { let t = small_text(s); check_encode(&t, &[7]) }
fn u02_small(s: &mut Src) -> R { let t = small_text(s); check_round_trip(&t, &[7], &SPEEDS) }
fn u03_small(s: &mut Src) -> R { let t = small_text(s); check_decode(&t, &[7], &SPEEDS) }

/// One entry of a table: (next row, symbol, bits left over)
type E = (Option<u8>, Option<u16>, u8);
fn entry(sp: usize, row: usize, key: usize) -> Option<E> {
    use httlib_huffman::decoder::*;
    match sp {
        1 => table1::DECODE_TABLE.get(row).and_then(|r| r.get(key)).copied(),
        2 => table2::DECODE_TABLE.get(row).and_then(|r| r.get(key)).copied(),
        3 => table3::DECODE_TABLE.get(row).and_then(|r| r.get(key)).copied(),
        4 => table4::DECODE_TABLE.get(row).and_then(|r| r.get(key)).copied(),
        _ => table5::DECODE_TABLE.get(row).and_then(|r| r.get(key)).copied(),
    }
}
fn walk(sp: usize, c: usize, more: u64) -> R {
    let code = &rfc()[c];
    let n = (code.len() + sp - 1) / sp * sp;
    let mut b = code.clone();
    for i in 0..n - code.len() { b.push(more >> i & 1 == 1); }
    let mut row = 0;
    for (i, k) in b.chunks(sp).enumerate() {
        let key = k.iter().fold(0, |a, x| a * 2 + *x as usize);
        let at = || format!("table of speed {}, code of {} and then {:b}: row {}, key {}", sp, c, more, row, key);
        match entry(sp, row, key) {
            None => return Err(format!("{}: outside the table", at())),
            Some((_, Some(x), l)) => {
                if (i + 1) * sp != n || x as usize != c || l as usize != n - code.len() { return Err(format!("{}: gives symbol {} with {} bits left over", at(), x, l)); }
                return Ok(());
            }
            Some((Some(r), None, 0)) if (i + 1) * sp < n => row = r as usize,
            Some(e) => return Err(format!("{}: entry {:?}", at(), e)),
        }
    }
    Err(format!("table of speed {}: the code of {} leads to no symbol", sp, c))
}
fn u04(s: &mut Src) -> R {
    if s.one_in(5) {
        let b = if s.bool() { nearly(s) } else { s.bytes(40) };
        s.note(|| format!("octets {:?}", b));
        return check_decode(&b, &[], &SPEEDS);
    }
    let (sp, c, more) = (s.below(5) as usize + 1, s.below(257) as usize, s.below(32));
    s.note(|| format!("speed {}, code of {}, then {:b}", sp, c, more));
    walk(sp, c, more)
}
fn u04_small(s: &mut Src) -> R {
    let (sp, c, more) = (s.below(5) as usize + 1, s.below(257) as usize, s.below(32));
    let e = httlib_huffman::encoder::table::ENCODE_TABLE[c];
    let v = rfc()[c].iter().fold(0u32, |a, x| a * 2 + *x as u32);
    if e != (rfc()[c].len() as u8, v) { return Err(format!("the table of the encoder has {:?} for {}, the code is {} bits, {:#x}", e, c, rfc()[c].len(), v)); }
    walk(sp, c, more)
}
/// trust::ceil_div stands for a float expression: is it the same number wherever its contract applies?
pub fn ceil_as_assumed() -> R {
    static T: OnceLock<R> = OnceLock::new();
    T.get_or_init(|| {
        for a in 0..4096usize {
            for b in 1..64usize {
                if (a as f64 / b as f64).ceil() as usize != (a + b - 1) / b || (a as f32 / b as f32).ceil() as usize != (a + b - 1) / b { return Err(format!("ceil({}/{})", a, b)); }
            }
        }
        Ok(())
    }).clone()
}
fn speed(n: usize) -> DecoderSpeed { match n { 1 => DecoderSpeed::OneBit, 2 => DecoderSpeed::TwoBits, 3 => DecoderSpeed::ThreeBits, 4 => DecoderSpeed::FourBits, _ => DecoderSpeed::FiveBits } }
fn show_code(c: &[bool]) -> String { c.iter().map(|x| if *x { '1' } else { '0' }).collect() }
/// Some prefix-free code: the leaves of a tree, some left out, in any order.
fn prefix_code(s: &mut Src) -> Vec<Vec<bool>> {
    let mut v: Vec<Vec<bool>> = vec![vec![false], vec![true]];
    let n = if s.one_in(6) { 60 + s.below(260) } else { s.below(14) };
    for _ in 0..n {
        let mut i = s.below(v.len() as u64) as usize;
        if s.one_in(3) { i = (0..v.len()).max_by_key(|j| v[*j].len()).unwrap(); }
        if s.one_in(4) { // a long way down from here
            for _ in 0..s.below(12) {
                if v[i].len() >= 30 { break; }
                let mut o = v[i].clone();
                let b = s.bool();
                v[i].push(b);
                o.push(!b);
                if s.bool() { v.push(o); }
            }
        }
        if v[i].len() < 30 { let mut o = v[i].clone(); o.push(true); v[i].push(false); v.push(o); }
    }
    for _ in 0..s.below(4) { if v.len() > 1 { let i = s.below(v.len() as u64) as usize; v.swap_remove(i); } }
    for i in 0..v.len() { if s.bool() { let j = s.below(v.len() as u64) as usize; v.swap(i, j); } }
    v
}
fn check_flat(codes: &[Vec<bool>], sp: usize) -> R {
    use std::collections::HashSet;
    let mut begin: HashSet<&[bool]> = HashSet::new();
    begin.insert(&[]);
    for c in codes { let mut i = sp; while i < c.len() { begin.insert(&c[..i]); i += sp; } }
    if begin.len() > 256 { return Ok(()); } // rows are numbered by an octet
    let list: Vec<(u8, u32)> = codes.iter().map(|c| (c.len() as u8, c.iter().fold(0u32, |a, x| a * 2 + *x as u32))).collect();
    let t = httlib_huffman::flattener::flatten(&list, speed(sp));
    let mut whole: HashMap<Vec<bool>, (u16, u8)> = HashMap::new();
    for (i, c) in codes.iter().enumerate() {
        let l = (sp - c.len() % sp) % sp;
        for v in 0..1u32 << l {
            let mut b = c.clone();
            for k in (0..l).rev() { b.push(v >> k & 1 == 1); }
            whole.insert(b, (i as u16, l as u8));
        }
    }
    let mut todo: Vec<(usize, Vec<bool>)> = vec![(0, vec![])];
    while let Some((r, path)) = todo.pop() {
        for k in 0..1usize << sp {
            let mut b = path.clone();
            for j in (0..sp).rev() { b.push(k >> j & 1 == 1); }
            let e = match t.get(r).and_then(|x| x.get(k)) { Some(e) => *e, None => return Err(format!("speed {}: there is no entry for {}, row {}, key {}", sp, show_code(&b), r, k)) };
            let w = match whole.get(&b) { Some((i, l)) => (Some(*i), *l), None => (None, 0) };
            if (e.1, e.2) != w { return Err(format!("speed {}: {} gives symbol {:?} with {} bits left over, expected {:?}", sp, show_code(&b), e.1, e.2, w)); }
            if e.0.is_some() != begin.contains(&b[..]) { return Err(format!("speed {}: after {} the table {}, but a code {}", sp, show_code(&b), if e.0.is_some() { "goes on" } else { "ends" }, if e.0.is_some() { "does not" } else { "does" })); }
            if let Some(n) = e.0 {
                if b.len() > 40 { return Err(format!("speed {}: the table never ends, at {}", sp, show_code(&b))); }
                todo.push((n as usize, b));
            }
        }
    }
    Ok(())
}
fn check_parse(s: &mut Src, codes: &[Vec<bool>]) -> R {
    let mut text = String::new();
    let mut want = vec![];
    let end = s.pick(&["\n", "\r\n"]);
    for (i, c) in codes.iter().enumerate() {
        let v = c.iter().fold(0u32, |a, x| a * 2 + *x as u32);
        let mut b = String::from("|");
        for (k, x) in c.iter().enumerate() { if k > 0 && k % 8 == 0 { b.push('|'); } b.push(if *x { '1' } else { '0' }); }
        let h = if s.one_in(4) { format!("{:X}", v) } else { format!("{:x}", v) };
        let h = match s.below(6) { 0 => format!("{:<9}", h), 1 => format!("{:^9}", h), _ => format!("{:>9}", h) };
        text += &format!("    ({:3})  {:<39}{}", i % 1000, b, h);
        if !s.one_in(4) { text += &format!("  [{:2}]", c.len()); }
        if i + 1 < codes.len() || s.bool() { text += end; }
        want.push((c.len() as u16, v));
    }
    s.note(|| format!("text:\n{}", text));
    let got = httlib_huffman::parser::parse(&text);
    if got != want {
        let i = (0..want.len().max(got.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return Err(format!("line {}: parsed as {:?}, it is {:?} ({})", i, got.get(i), want.get(i), text.lines().nth(i).unwrap_or("")));
    }
    Ok(())
}
fn u05(s: &mut Src) -> R {
    let mut codes = if s.one_in(40) { rfc().clone() } else { prefix_code(s) };
    if codes.len() == 257 && s.bool() { for i in 0..257 { let j = s.below(257) as usize; codes.swap(i, j); } }
    s.note(|| format!("codes {}", codes.iter().map(|c| show_code(c)).collect::<Vec<_>>().join(" ")));
    if s.one_in(3) { return check_parse(s, &codes); }
    check_flat(&codes, s.below(5) as usize + 1)
}
fn u05_small(s: &mut Src) -> R {
    let mut v: Vec<Vec<bool>> = vec![vec![false], vec![true]];
    for _ in 0..s.below(5) {
        let i = s.below(v.len() as u64) as usize;
        let mut o = v[i].clone();
        o.push(true);
        v[i].push(false);
        v.push(o);
    }
    if s.bool() { v.reverse(); }
    if s.bool() { v.pop(); }
    s.note(|| format!("codes {}", v.iter().map(|c| show_code(c)).collect::<Vec<_>>().join(" ")));
    check_flat(&v, s.below(5) as usize + 1)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "U01", random: u01, small: Some(u01_small) },
        Prop { id: "U02", random: u02, small: Some(u02_small) },
        Prop { id: "U03", random: u03, small: Some(u03_small) },
        Prop { id: "U04", random: u04, small: Some(u04_small) },
        Prop { id: "U05", random: u05, small: Some(u05_small) },
    ]
}
