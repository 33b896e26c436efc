//! httlib-hpack against a reading of RFC 7541 written down here from scratch.
use crate::huffman::{ref_decode, ref_encode};
use crate::src::Src;
use crate::{Prop, R};
use httlib_hpack::table::Table;
use httlib_hpack::{Decoder, DecoderError, Encoder};
use std::collections::VecDeque;
use std::sync::OnceLock;

type V = Vec<u8>;
type Field = (V, V, u8);

fn stat() -> &'static Vec<(V, V)> {
    static T: OnceLock<Vec<(V, V)>> = OnceLock::new();
    T.get_or_init(|| {
        let v: Vec<(V, V)> = include_str!("static.txt").lines().map(|l| { let (a, b) = l.split_once('|').unwrap(); (a.into(), b.into()) }).collect();
        assert_eq!(v.len(), 61);
        v
    })
}

/// The two tables as one.
#[derive(Clone, Debug)]
struct Ref { dy: VecDeque<(V, V)>, max: u64 }
impl Ref {
    fn new(max: u32) -> Ref { Ref { dy: VecDeque::new(), max: max as u64 } }
    fn size(&self) -> u64 { self.dy.iter().map(|e| e.0.len() as u64 + e.1.len() as u64 + 32).sum() }
    fn get(&self, i: u64) -> Option<(V, V)> {
        if i == 0 { None } else if i <= 61 { Some(stat()[i as usize - 1].clone()) } else { self.dy.get((i - 62) as usize).cloned() }
    }
    /// As in 4.4: room is made first, then the entry goes in if it fits.
    fn insert(&mut self, n: &[u8], v: &[u8]) {
        let e = n.len() as u64 + v.len() as u64 + 32;
        while !self.dy.is_empty() && self.size() + e > self.max { self.dy.pop_back(); }
        if e <= self.max { self.dy.push_front((n.to_vec(), v.to_vec())); }
    }
    fn resize(&mut self, m: u64) {
        self.max = m;
        while self.size() > m { self.dy.pop_back(); }
    }
    fn len(&self) -> u64 { 61 + self.dy.len() as u64 }
    fn find(&self, n: &[u8], v: &[u8]) -> Option<(u64, bool)> {
        let mut name = None;
        for i in 1..=self.len() {
            let e = if i <= 61 { &stat()[i as usize - 1] } else { &self.dy[i as usize - 62] };
            if e.0 == n {
                if e.1 == v { return Some((i, true)); }
                if name.is_none() { name = Some((i, false)); }
            }
        }
        name
    }
}
fn int(v: u64, pattern: u8, bits: u32) -> V {
    let m = (1u64 << bits) - 1;
    if v < m { return vec![pattern | v as u8]; }
    let mut o = vec![pattern | m as u8];
    let mut r = v - m;
    loop {
        if r < 128 { o.push(r as u8); return o; }
        o.push((r % 128) as u8 + 128);
        r /= 128;
    }
}
/// The same number in more octets than needed.
fn long_int(v: u64, pattern: u8, bits: u32, extra: u64) -> V {
    let mut o = int(v, pattern, bits);
    if o.len() > 1 && extra > 0 {
        *o.last_mut().unwrap() += 128;
        for _ in 1..extra { o.push(128); }
        o.push(0);
    }
    o
}
fn string(t: &[u8], huff: bool) -> V {
    let raw = if huff { ref_encode(t) } else { t.to_vec() };
    let mut o = int(raw.len() as u64, if huff { 128 } else { 0 }, 7);
    o.extend(raw);
    o
}
#[derive(Clone, Debug)]
enum Item { Idx(u32), Name(u32, V, u8), Lit(V, V, u8), Size(u32) }

fn mode(f: u8) -> u8 { if f & 4 != 0 { 4 } else if f & 8 != 0 { 8 } else { 0 } }
fn head(m: u8) -> (u8, u32) { match m { 4 => (0x40, 6), 8 => (0x10, 4), _ => (0, 4) } }
/// What has to be written for an item, and the header it stands for.
fn expect(t: &mut Ref, x: &Item) -> Option<(V, Option<Field>)> {
    let named = |t: &mut Ref, i: u64, v: &V, f: u8| -> Option<(V, Option<Field>)> {
        let n = t.get(i)?.0;
        let (p, b) = head(mode(f));
        let mut o = int(i, p, b);
        o.extend(string(v, f & 2 != 0));
        if mode(f) == 4 { t.insert(&n, v); }
        Some((o, Some((n, v.clone(), mode(f)))))
    };
    match x {
        Item::Idx(i) => { let e = t.get(*i as u64)?; Some((int(*i as u64, 128, 7), Some((e.0, e.1, 0)))) }
        Item::Name(i, v, f) => named(t, *i as u64, v, *f),
        Item::Lit(n, v, f) => {
            if f & 0x10 != 0 {
                match t.find(n, v) {
                    Some((i, true)) if mode(*f) != 8 => return Some((int(i, 128, 7), Some((n.clone(), v.clone(), 0)))),
                    Some((i, _)) => return named(t, i, v, *f),
                    None => {}
                }
            }
            let (p, _) = head(mode(*f));
            let mut o = vec![p];
            o.extend(string(n, f & 1 != 0));
            o.extend(string(v, f & 2 != 0));
            if mode(*f) == 4 { t.insert(n, v); }
            Some((o, Some((n.clone(), v.clone(), mode(*f)))))
        }
        Item::Size(m) => { t.resize(*m as u64); Some((int(*m as u64, 0x20, 5), None)) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail { Short, Long, Index, Input, Size }
fn read_int(b: &[u8], bits: u32) -> Result<(u64, usize), Fail> {
    let m = (1u64 << bits) - 1;
    let first = *b.first().ok_or(Fail::Short)? as u64 & m;
    if first < m { return Ok((first, 1)); }
    let mut v = m;
    for i in 1..5 {
        let o = *b.get(i).ok_or(Fail::Short)?;
        v += ((o & 127) as u64) << (7 * (i - 1));
        if o < 128 { return Ok((v, i + 1)); }
    }
    Err(Fail::Long)
}
fn read_string(b: &[u8]) -> Result<(V, usize), Fail> {
    let (n, u) = read_int(b, 7)?;
    if n > (b.len() - u) as u64 { return Err(Fail::Short); }
    let raw = &b[u..u + n as usize];
    let t = if b[0] & 128 != 0 { ref_decode(raw).ok_or(Fail::Input)? } else { raw.to_vec() };
    Ok((t, u + n as usize))
}
/// One representation.
fn ref_step(t: &mut Ref, limit: u64, b: &[u8]) -> Result<(Option<Field>, usize), Fail> {
    if b[0] & 0x80 != 0 {
        let (i, u) = read_int(b, 7)?;
        let e = t.get(i).ok_or(Fail::Index)?;
        return Ok((Some((e.0, e.1, 0)), u));
    }
    if b[0] & 0xe0 == 0x20 {
        let (m, u) = read_int(b, 5)?;
        if m > limit { return Err(Fail::Size); }
        t.resize(m);
        return Ok((None, u));
    }
    let (bits, mark) = if b[0] & 0x40 != 0 { (6, 4) } else if b[0] & 0x10 != 0 { (4, 8) } else { (4, 0) };
    let (i, mut u) = read_int(b, bits)?;
    let n = if i == 0 { let (n, k) = read_string(&b[u..])?; u += k; n } else { t.get(i).ok_or(Fail::Index)?.0 };
    let (v, k) = read_string(&b[u..])?;
    u += k;
    if mark == 4 { t.insert(&n, &v); }
    Ok((Some((n, v, mark)), u))
}
fn ref_run(t: &mut Ref, limit: u64, b: &[u8], most: usize) -> (Vec<Field>, usize, Option<Fail>) {
    let (mut out, mut u, mut k) = (vec![], 0, 0);
    while u < b.len() && k < most {
        match ref_step(t, limit, &b[u..]) {
            Ok((f, n)) => { out.extend(f); u += n; }
            Err(e) => return (out, u, Some(e)),
        }
        k += 1;
    }
    (out, u, None)
}
fn fail_of(e: &DecoderError) -> Option<Fail> {
    Some(match e {
        DecoderError::IntegerUnderflow => Fail::Short,
        DecoderError::IntegerOverflow => Fail::Long,
        DecoderError::InvalidIndex => Fail::Index,
        DecoderError::InvalidInput => Fail::Input,
        DecoderError::InvalidMaxDynamicSize => Fail::Size,
        _ => return None,
    })
}
fn show(b: &[u8]) -> String {
    if b.len() > 60 { format!("{:02x?}... ({} octets)", &b[..60], b.len()) } else { format!("{:02x?}", b) }
}
fn show_f(f: &[Field]) -> String { let s = f.iter().map(|x| format!("({:?}, {:?}, {})", String::from_utf8_lossy(&x.0), String::from_utf8_lossy(&x.1), x.2)).collect::<Vec<_>>().join(", "); if s.len() > 400 { s.chars().take(400).collect::<String>() + "..." } else { s } }

// ------------------------------------------------------------------ generators
fn limit(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => 4096,
        1 => s.below(3) as u32,
        2 => u32::MAX,
        3 => s.int(32) as u32,
        _ => s.below(300) as u32,
    }
}
fn word(s: &mut Src, value: bool) -> V {
    match s.below(10) {
        0..=2 => { let e = &stat()[s.below(61) as usize]; if value { e.1.clone() } else { e.0.clone() } }
        3..=6 => { let n = s.below(3) as usize; let c = s.pick(&[b'a', b'b']); vec![c; n] }
        7 => s.bytes(40),
        8 if s.one_in(20) => s.bytes(70000),
        _ => s.bytes(300),
    }
}
fn pair(s: &mut Src, t: &Ref) -> (V, V) {
    match s.below(6) {
        0 | 1 => { let i = s.below(t.len()) + 1; t.get(i).unwrap() } // something that is there
        2 => { let i = s.below(t.len()) + 1; (t.get(i).unwrap().0, word(s, true)) }
        3 => { // something nearly there
            let i = s.below(t.len()) + 1;
            let (mut n, mut v) = t.get(i).unwrap();
            let x = if s.bool() { &mut n } else { &mut v };
            match s.below(4) { 0 => { x.pop(); } 1 => x.push(b'a'), 2 => { if let Some(c) = x.first_mut() { *c ^= 0x20; } } _ => { if let Some(c) = x.last_mut() { *c = c.wrapping_add(1); } } }
            (n, v)
        }
        _ => (word(s, false), word(s, true)),
    }
}
fn flags(s: &mut Src) -> u8 { if s.one_in(6) { s.u8() } else { s.below(32) as u8 } }
fn index(s: &mut Src, t: &Ref) -> u32 {
    match s.below(10) {
        0 => 0,
        1 => s.int(32) as u32,
        2 => (t.len() + 1) as u32,
        3..=6 if !t.dy.is_empty() => 62 + s.below(t.dy.len() as u64) as u32,
        _ => s.below(t.len()) as u32 + 1,
    }
}
fn item(s: &mut Src, t: &Ref) -> Item {
    match s.below(12) {
        0 | 1 => Item::Idx(index(s, t)),
        2..=4 => { let i = index(s, t); let f = flags(s); Item::Name(i, word(s, true), f) }
        5 => Item::Size(if s.bool() { let z = t.size(); (z + s.below(9)).saturating_sub(4) as u32 } else { limit(s) }),
        _ => { let (n, v) = pair(s, t); Item::Lit(n, v, flags(s)) }
    }
}

// ------------------------------------------------------------------ encoder
/// Does the encoder do `x` as it should? (header meant, octets written; None: refused)
/// The item with its flags put together from the names the crate has for them.
fn with_names(x: &Item) -> Item {
    let mut x = x.clone();
    if let Item::Name(_, _, f) | Item::Lit(_, _, f) = &mut x {
        let mut g = *f & 0xe0;
        for (bit, name) in [(0x1, Encoder::HUFFMAN_NAME), (0x2, Encoder::HUFFMAN_VALUE), (0x4, Encoder::WITH_INDEXING), (0x8, Encoder::NEVER_INDEXED), (0x10, Encoder::BEST_FORMAT)] {
            if *f & bit != 0 { g |= name; }
        }
        *f = g;
    }
    x
}
fn encode(e: &mut Encoder, t: &mut Ref, x: &Item, dst: &mut V, direct: bool) -> Result<Option<(Option<Field>, usize)>, String> {
    let before = dst.clone();
    let max = t.max;
    let named = with_names(x);
    let r = match &named {
        Item::Idx(i) => if direct { e.encode_indexed(*i, dst) } else { e.encode(*i, dst) },
        Item::Name(i, v, f) => if direct { e.encode_indexed_name(*i, v.clone(), *f, dst) } else { e.encode((*i, v.clone(), *f), dst) },
        Item::Lit(n, v, f) => if direct && f & 0x10 == 0 { e.encode_literal(n.clone(), v.clone(), *f, dst) } else { e.encode((n.clone(), v.clone(), *f), dst) },
        Item::Size(m) => e.update_max_dynamic_size(*m, dst),
    };
    let was = t.clone();
    let want = expect(t, x);
    let mut all = before.clone();
    if let Some((o, _)) = &want { all.extend(o); }
    if r.is_ok() != want.is_some() || *dst != all {
        return Err(format!("{:?} with {} entries in a table of {} octets, after {}: returns {:?} and leaves {}, expected {}", x, was.dy.len(), max, show(&before), r, show(dst),
            match &want { Some(_) => show(&all), None => "an error and nothing written".into() }));
    }
    let m = e.max_dynamic_size();
    if m as u64 != t.max { return Err(format!("after {:?} the encoder says its table may have {} octets, not {}", x, m, t.max)); }
    Ok(want.map(|(o, f)| (f, o.len())))
}
/// Is the table of the encoder the one it should be?
fn probe_encoder(e: &mut Encoder, t: &Ref) -> R {
    let n = t.len() as u32;
    for i in [n + 1, n + 2, 0] {
        let mut d = vec![];
        if e.encode(i, &mut d).is_ok() { return Err(format!("the encoder has an entry {} although there are {}", i, n)); }
    }
    for (k, x) in t.dy.iter().enumerate().take(200) {
        let i = 62 + k as u32;
        let mut d = vec![];
        if e.encode(i, &mut d).is_err() { return Err(format!("the encoder has no entry {} although there are {}", i, n)); }
        let (i, full) = t.find(&x.0, &x.1).unwrap();
        assert!(full);
        let mut d = vec![];
        let r = e.encode((x.0.clone(), x.1.clone(), 0x10u8), &mut d);
        if r.is_err() || d != int(i, 128, 7) { return Err(format!("the header ({}, {}) is at index {} but the encoder writes {}", show(&x.0), show(&x.1), i, show(&d))); }
    }
    Ok(())
}
fn enc_session(s: &mut Src, mut gen: impl FnMut(&mut Src, &Ref) -> Item, probe: u64) -> R {
    let m = limit(s);
    let (mut e, mut t) = if m == 4096 && s.bool() { (Encoder::default(), Ref::new(4096)) } else { (Encoder::with_dynamic_size(m), Ref::new(m)) };
    s.note(|| format!("encoder with a table of {}", m));
    let mut dst = if s.one_in(4) { s.bytes(10) } else { vec![] };
    let n = s.below(20);
    for _ in 0..n {
        let x = gen(s, &t);
        let direct = s.bool();
        s.note(|| format!("{:?}{}", x, if direct { " (direct)" } else { "" }));
        encode(&mut e, &mut t, &x, &mut dst, direct)?;
        if dst.len() > 10000 || s.one_in(8) { dst.clear(); }
        if s.one_in(probe) { probe_encoder(&mut e, &t)?; }
    }
    probe_encoder(&mut e, &t)
}

// ------------------------------------------------------------------ decoder
/// Octets that are a representation, or nearly.
fn rep(s: &mut Src, t: &Ref, limit: u64) -> V {
    match s.below(14) {
        0 => s.bytes(20),
        1 => { let v = s.int(40); let (p, b) = s.pick(&[(0x80u8, 7u32), (0x40, 6), (0x20, 5), (0x10, 4), (0, 4)]); int(v, p, b) }
        2 => { let m = (limit + s.below(5)).saturating_sub(2); let x = s.below(3); long_int(if s.bool() { m } else { limit.min(s.int(32)) }, 0x20, 5, x) }
        3 => { let z = t.size(); int((z + s.below(9)).saturating_sub(4), 0x20, 5) }
        4 | 5 => { let x = s.below(3); long_int(index(s, t) as u64, 0x80, 7, x) }
        6..=9 => {
            let (p, b) = s.pick(&[(0x40u8, 6u32), (0x40, 6), (0x10, 4), (0, 4)]);
            let x = s.below(3);
            let mut o = long_int(index(s, t) as u64, p, b, x);
            o.extend(str_rep(s, true));
            o
        }
        _ => {
            let mut o = vec![s.pick(&[0x40u8, 0x40, 0x10, 0])];
            o.extend(str_rep(s, false));
            o.extend(str_rep(s, true));
            o
        }
    }
}
fn str_rep(s: &mut Src, value: bool) -> V {
    let h = s.bool();
    let mut raw = word(s, value);
    if h && !s.one_in(6) { raw = ref_encode(&raw); }
    if h && s.one_in(8) && !raw.is_empty() { let i = s.below(raw.len() as u64) as usize; raw[i] ^= 1 << s.below(8); }
    if h && s.one_in(10) { raw.push(0xff); }
    let n = if s.one_in(15) { s.int(32) } else { raw.len() as u64 };
    let x = if s.one_in(5) { s.below(4) } else { 0 };
    let mut o = long_int(n, if h { 128 } else { 0 }, 7, x);
    o.extend(raw);
    o
}
fn probe_decoder(d: &mut Decoder, t: &Ref) -> R {
    let n = t.len();
    let idx: Vec<u64> = (62..=n).take(200).chain([0, n + 1, n + 2]).collect();
    for i in idx {
        let mut b = int(i, 0x80, 7);
        let mut out = vec![];
        let r = d.decode(&mut b, &mut out);
        let want: Vec<Field> = t.get(i).into_iter().map(|e| (e.0, e.1, 0)).collect();
        if out != want || r.is_ok() == want.is_empty() { return Err(format!("index {} of the decoder's table is {} ({:?}), it should be {}; entries: {}", i, show_f(&out), r, show_f(&want), t.dy.len())); }
    }
    Ok(())
}
/// One call of the decoder.
fn decode(d: &mut Decoder, t: &mut Ref, limit: u64, buf: &mut V, out: &mut Vec<Field>, most: Option<usize>) -> Result<Option<Fail>, String> {
    let (b0, o0, was) = (buf.clone(), out.clone(), t.clone());
    let r = match most {
        None => d.decode(buf, out),
        Some(n) => {
            let mut o = Vec::with_capacity(n);
            let c = o.capacity();
            let r = d.decode_exact(buf, &mut o);
            out.append(&mut o);
            if c != n { return Ok(None); }
            r
        }
    };
    let (w, used, fail) = ref_run(t, limit, &b0, most.unwrap_or(usize::MAX));
    let mut all = o0.clone();
    all.extend(w);
    let ok = match (&r, &fail) { (Ok(n), None) => *n == used, (Err(e), Some(f)) => fail_of(e) == Some(*f), _ => false };
    if !ok || *out != all || *buf != b0[used..] {
        return Err(format!("decoding {} with {} entries in a table of {} octets and the limit {}{}: returns {:?}, {} octets left, delivers {}; expected {:?}, {} taken of {} octets, {}",
            show(&b0), was.dy.len(), was.max, limit, if let Some(n) = most { format!(" (at most {})", n) } else { String::new() },
            r, buf.len(), show_f(&out[o0.len().min(out.len())..]), fail, used, b0.len(), show_f(&all[o0.len()..])));
    }
    for x in &out[o0.len()..] {
        if (x.2 & Decoder::WITH_INDEXING != 0) != (x.2 == 4) || (x.2 & Decoder::NEVER_INDEXED != 0) != (x.2 == 8) {
            return Err(format!("decoding {} delivers {}, which by the names of the flags is with indexing: {}, never indexed: {}", show(&b0), show_f(&[x.clone()]),
                x.2 & Decoder::WITH_INDEXING != 0, x.2 & Decoder::NEVER_INDEXED != 0));
        }
    }
    if d.max_dynamic_size() as u64 != limit { return Err(format!("the decoder reports the limit {} instead of {}", d.max_dynamic_size(), limit)); }
    Ok(fail)
}
fn dec_session(s: &mut Src, mut gen: impl FnMut(&mut Src, &Ref, u64) -> V) -> R {
    let m = limit(s);
    let (mut d, mut t) = if m == 4096 && s.bool() { (Decoder::default(), Ref::new(4096)) } else { (Decoder::with_dynamic_size(m), Ref::new(m)) };
    let mut lim = m as u64;
    s.note(|| format!("decoder with the limit {}", m));
    let (mut buf, mut out): (V, Vec<Field>) = (vec![], vec![]);
    if s.one_in(6) { out.push((vec![1], vec![2], 3)); }
    let n = s.below(12);
    for _ in 0..n {
        if s.one_in(8) { let l = limit(s); d.set_max_dynamic_size(l); lim = l as u64; s.note(|| format!("limit {}", l)); }
        let mut tt = t.clone();
        let k = s.below(4);
        let mut add = vec![];
        for _ in 0..k { let r = gen(s, &tt, lim); let _ = ref_run(&mut tt, lim, &r, 9); add.extend(r); }
        if s.one_in(6) { let c = s.below(add.len() as u64 + 1) as usize; add.truncate(c); }
        let most = if s.one_in(3) { Some(s.below(4) as usize) } else { None };
        s.note(|| format!("{} octets left, add {}; most {:?}", buf.len(), show(&add), most));
        buf.extend(&add);
        let f = decode(&mut d, &mut t, lim, &mut buf, &mut out, most)?;
        if f.is_some() && f != Some(Fail::Short) || buf.len() > 100000 || s.one_in(4) { buf.clear(); }
        if s.one_in(4) { probe_decoder(&mut d, &t)?; }
    }
    probe_decoder(&mut d, &t)
}

// ------------------------------------------------------------------ properties
/// A table with so many entries that indices take several octets.
fn big(n: u64) -> (Encoder<'static>, Decoder<'static>, Ref) {
    let (mut e, mut d, mut t) = (Encoder::with_dynamic_size(u32::MAX), Decoder::with_dynamic_size(u32::MAX), Ref::new(u32::MAX));
    let mut b = vec![];
    for i in 0..n {
        let name = vec![b'n', i as u8, (i >> 8) as u8, (i >> 16) as u8];
        e.encode((name.clone(), vec![], 4u8), &mut b).unwrap();
        t.dy.push_front((name, vec![]));
    }
    d.decode(&mut b, &mut vec![]).unwrap();
    (e, d, t)
}
fn h01(s: &mut Src) -> R {
    match s.below(5) {
        0 => {
            let v = s.int(32) as u32;
            s.note(|| format!("size update {}", v));
            let (mut e, mut t) = (Encoder::default(), Ref::new(4096));
            let mut dst = s.bytes(4);
            let k = dst.len();
            encode(&mut e, &mut t, &Item::Size(v), &mut dst, false)?;
            let mut d = Decoder::with_dynamic_size(u32::MAX);
            let mut b = dst[k..].to_vec();
            let r = d.decode(&mut b, &mut vec![]);
            let short = dst.len() - k <= 5;
            if r.is_ok() != short { return Err(format!("the size update {} is written as {} and read back as {:?}", v, show(&dst[k..]), r)); }
            Ok(())
        }
        1 => { // any octets as a number of any prefix size
            let mut b = match s.below(3) { 0 => s.bytes(8), _ => { let n = s.below(7); (0..n).map(|_| s.pick(&[0x80u8, 0xff, 0x7f, 0, 1, 0x81, 0xfe])).collect() } };
            b.insert(0, s.pick(&[0xffu8, 0xff, 0x7f, 0x3f, 0x3f, 0x1f, 0x0f, 0xfe, 0x3e]));
            if s.one_in(3) { b.insert(0, s.pick(&[0u8, 0x40, 0x10])); }
            let l = if s.bool() { u32::MAX } else { limit(s) };
            s.note(|| format!("octets {} at the limit {}", show(&b), l));
            let (mut d, mut t) = (Decoder::with_dynamic_size(l), Ref::new(l));
            decode(&mut d, &mut t, l as u64, &mut b, &mut vec![], None)?;
            Ok(())
        }
        2 if s.one_in(40) => {
            let n = s.pick(&[2u64, 66, 67, 200, 194, 195, 4000, 17000]) + s.below(3);
            let (mut e, mut d, mut t) = big(n);
            for i in [61, 62, 63, 64, 78, 126, 127, 128, 255, 256, n + 60, n + 61, n + 62] {
                for x in [Item::Idx(i as u32), Item::Name(i as u32, vec![], 0), Item::Name(i as u32, vec![], 8)] {
                    s.note(|| format!("{:?} with {} entries", x, n));
                    let mut b = vec![];
                    if let Some((f, _)) = encode(&mut e, &mut t, &x, &mut b, false)? {
                        let mut out = vec![];
                        decode(&mut d, &mut t, u32::MAX as u64, &mut b, &mut out, None)?;
                        if out != f.into_iter().collect::<Vec<_>>() { return Err(format!("{:?} is read back as {}", x, show_f(&out))); }
                    }
                }
            }
            Ok(())
        }
        3 => { // lengths
            let n = s.len(40000);
            let (mut e, mut t) = (Encoder::with_dynamic_size(0), Ref::new(0));
            let f = flags(s) & !0x10;
            s.note(|| format!("a string of {} octets, flags {}", n, f));
            let mut b = vec![];
            let x = Item::Lit(vec![b'a'; n], vec![0; s.len(300)], f);
            encode(&mut e, &mut t, &x, &mut b, false)?;
            let (mut d, mut t) = (Decoder::with_dynamic_size(0), Ref::new(0));
            decode(&mut d, &mut t, 0, &mut b, &mut vec![], None)?;
            Ok(())
        }
        _ => dec_session(s, |s, t, _| { let x = s.below(5); let v = s.int(34); let (p, b) = s.pick(&[(0x80u8, 7u32), (0x40, 6), (0x20, 5), (0x10, 4), (0, 4)]); if s.bool() { long_int(v, p, b, x) } else { let mut o = long_int(index(s, t) as u64, p, b, x); if p < 0x80 && p != 0x20 { o.extend(str_rep(s, true)); } o } }),
    }
}
fn h01_small(s: &mut Src) -> R {
    let n = s.below(4);
    let p = s.pick(&[0xffu8, 0x3f, 0x7f, 0x1f, 0x0f]);
    let mut b = vec![p];
    for _ in 0..n { b.push(s.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff])); }
    for _ in 0..s.below(3) { b.push(0); }
    let (mut d, mut t) = (Decoder::with_dynamic_size(u32::MAX), Ref::new(u32::MAX));
    decode(&mut d, &mut t, u32::MAX as u64, &mut b, &mut vec![], None)?;
    let (mut e, mut t) = (Encoder::default(), Ref::new(4096));
    let v = s.below(600) as u32;
    encode(&mut e, &mut t, &Item::Size(v), &mut vec![], false)?;
    Ok(())
}
/// Never a panic, never more taken than given, always an end.
/// A block of very many headers: neither time nor stack may run out.
fn long_block(s: &mut Src) -> R {
    let i = 1 + s.below(61) as usize;
    let n = 8000 + s.below(8000) as usize;
    s.note(|| format!("{} times the header {} of the static table", n, i));
    let mut b = vec![0x80 | i as u8; n];
    let mut out = vec![];
    let r = Decoder::default().decode(&mut b, &mut out).clone_ok();
    let mut one = vec![];
    let r1 = Decoder::default().decode(&mut vec![0x80 | i as u8], &mut one).clone_ok();
    if r1 != Some(1) || one.len() != 1 { return Err(format!("one octet gave {:?} and {} headers", r1, one.len())); }
    if r != Some(n) || !b.is_empty() || out.len() != n || out.iter().any(|x| *x != one[0]) { return Err(format!("{} octets gave {:?} and {} headers, {} octets are left", n, r, out.len(), b.len())); }
    Ok(())
}
fn h02(s: &mut Src) -> R {
    if !s.enumerating() && s.one_in(5000) { return long_block(s); }
    let m = limit(s);
    let mut d = Decoder::with_dynamic_size(m);
    s.note(|| format!("decoder with the limit {}", m));
    let t = Ref::new(m);
    let n = s.below(8);
    for _ in 0..n {
        if s.one_in(8) { d.set_max_dynamic_size(limit(s)); }
        let mut b = vec![];
        for _ in 0..s.below(4) { b.extend(rep(s, &t, m as u64)); }
        if s.one_in(4) { let c = s.below(b.len() as u64 + 1) as usize; b.truncate(c); }
        if s.one_in(4) { for _ in 0..3 { if !b.is_empty() { let i = s.below(b.len() as u64) as usize; b[i] = s.u8(); } } }
        if s.one_in(4) { let x = s.bytes(200); b.extend(x); }
        s.note(|| format!("octets {}", show(&b)));
        let k = b.len();
        let mut out = if s.one_in(3) { Vec::with_capacity(s.below(3) as usize) } else { Vec::new() };
        let r = if s.one_in(3) { d.decode_exact(&mut b, &mut out) } else { d.decode(&mut b, &mut out) };
        if b.len() > k || r.clone_ok().map_or(false, |n| n > k) { return Err(format!("{} octets were given, {:?} and {} left", k, r, b.len())); }
    }
    Ok(())
}
trait CloneOk { fn clone_ok(&self) -> Option<usize>; }
impl CloneOk for Result<usize, DecoderError> { fn clone_ok(&self) -> Option<usize> { self.as_ref().ok().copied() } }
fn bytes_small(s: &mut Src) -> V {
    let n = s.below(5);
    (0..n).map(|_| s.pick(&[0u8, 1, 2, 0x0f, 0x10, 0x1f, 0x20, 0x21, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x82, 0xbe, 0xbf, 0xff])).collect()
}
fn h09_small(s: &mut Src) -> R {
    let mut b = bytes_small(s);
    let (mut d, mut t) = (Decoder::with_dynamic_size(70), Ref::new(70));
    let mut pre = vec![0x40, 1, b'a', 1, b'b', 0x40, 0, 0];
    decode(&mut d, &mut t, 70, &mut pre, &mut vec![], None)?;
    decode(&mut d, &mut t, 70, &mut b, &mut vec![], None)?;
    probe_decoder(&mut d, &t)
}
fn h02_small(s: &mut Src) -> R {
    let mut b = bytes_small(s);
    let k = b.len();
    let mut d = Decoder::with_dynamic_size(40);
    let r = d.decode(&mut b, &mut vec![]);
    if b.len() > k || r.clone_ok().map_or(false, |n| n > k) { return Err(format!("{} octets were given, {:?} and {} left", k, r, b.len())); }
    Ok(())
}
fn h03(s: &mut Src) -> R {
    let name = word(s, false);
    let value = if s.one_in(4) { let n = s.len(20000); vec![s.u8(); n] } else { word(s, true) };
    let f = flags(s) & !0x10;
    let i = if s.bool() { s.below(61) as u32 + 1 } else { 0 };
    let rest = s.bytes(5);
    let x = if i > 0 { Item::Name(i, value, f) } else { Item::Lit(name, value, f) };
    s.note(|| format!("{:?} followed by {:?}", x, rest));
    let (mut e, mut t) = (Encoder::with_dynamic_size(0), Ref::new(0));
    let mut b = vec![];
    let want = encode(&mut e, &mut t, &x, &mut b, s.bool())?.unwrap().0.unwrap();
    let n = b.len();
    // cut short
    for _ in 0..3 {
        let k = s.below(n as u64) as usize;
        let mut c = b[..k].to_vec();
        let mut out = vec![];
        let (mut d, mut t) = (Decoder::with_dynamic_size(0), Ref::new(0));
        let r = decode(&mut d, &mut t, 0, &mut c, &mut out, None)?;
        if k > 0 && r != Some(Fail::Short) { return Err(format!("{} of {} octets give {:?}", k, n, r)); }
    }
    b.extend(&rest);
    let mut d = Decoder::with_dynamic_size(0);
    let mut out = Vec::with_capacity(1);
    let r = d.decode_exact(&mut b, &mut out);
    if r != Ok(n) || b != rest || out != vec![want.clone()] { return Err(format!("{} is read back as {} ({:?}, {} octets left)", show_f(&[want]), show_f(&out), r, b.len())); }
    // as anyone may write it
    dec_session(s, |s, _, _| { let mut o = vec![s.pick(&[0x40u8, 0x10, 0])]; o.extend(str_rep(s, false)); o.extend(str_rep(s, true)); o })
}
fn table_session(s: &mut Src, look: fn(&mut Src, &Table, &Ref) -> R) -> R {
    let m = limit(s);
    let (mut x, mut t) = if m == 4096 && s.bool() { (Table::default(), Ref::new(4096)) } else { (Table::with_dynamic_size(m), Ref::new(m)) };
    s.note(|| format!("table of {}", m));
    look(s, &x, &t)?;
    for _ in 0..s.below(25) {
        if s.one_in(5) {
            let k = if s.bool() { (t.size() + s.below(9)).saturating_sub(4) as u32 } else { limit(s) };
            s.note(|| format!("resize {}", k));
            x.update_max_dynamic_size(k);
            t.resize(k as u64);
        } else {
            let (n, v) = pair(s, &t);
            s.note(|| format!("insert {:?} {:?}", n, v));
            x.insert(n.clone(), v.clone());
            t.insert(&n, &v);
        }
        look(s, &x, &t)?;
    }
    Ok(())
}
fn look_sizes(_: &mut Src, x: &Table, t: &Ref) -> R {
    let got = (x.dynamic_size() as u64, x.max_dynamic_size() as u64, x.dynamic_len(), x.len() as u64);
    let want = (t.size(), t.max, t.dy.len(), t.len());
    if got != want { return Err(format!("size, maximum, entries, all entries are {:?}, they should be {:?}", got, want)); }
    for (k, e) in t.dy.iter().enumerate() {
        if x.get(62 + k as u32) != Some((&e.0[..], &e.1[..])) { return Err(format!("entry {} is not ({}, {}) but {:?}", 62 + k, show(&e.0), show(&e.1), x.get(62 + k as u32))); }
    }
    if x.get(62 + t.dy.len() as u32).is_some() { return Err(format!("there are more than {} dynamic entries", t.dy.len())); }
    Ok(())
}
fn look_indices(s: &mut Src, x: &Table, t: &Ref) -> R {
    let more = [s.int(32), u32::MAX as u64, t.len() + 1, t.len() + 62];
    for i in (0..=t.len() + 2).chain(more) {
        let want = t.get(i);
        if x.get(i as u32) != want.as_ref().map(|e| (&e.0[..], &e.1[..])) { return Err(format!("index {} is {:?}, it should be {:?} ({} dynamic entries)", i, x.get(i as u32), want, t.dy.len())); }
    }
    let mut it = x.iter();
    for i in 1..=t.len() + 1 {
        let want = t.get(i);
        let got = it.next();
        if got != want.as_ref().map(|e| (&e.0[..], &e.1[..])) { return Err(format!("entry {} of the iterator is {:?}, it should be {:?}", i, got, want)); }
    }
    Ok(())
}
fn look_search(s: &mut Src, x: &Table, t: &Ref) -> R {
    for _ in 0..3 {
        let (n, v) = pair(s, t);
        let got = x.find(&n, &v).map(|r| (r.0 as u64, r.1));
        if got != t.find(&n, &v) { return Err(format!("searching ({:?}, {:?}) gives {:?}, it should be {:?}", n, v, got, t.find(&n, &v))); }
    }
    Ok(())
}
fn h04(s: &mut Src) -> R {
    match s.below(3) {
        0 => dec_session(s, |s, t, l| match s.below(6) { 0 => rep(s, t, l), 1 => int((t.size() + s.below(9)).saturating_sub(4), 0x20, 5), _ => { let (n, v) = pair(s, t); let mut o = vec![0x40]; o.extend(string(&n, false)); o.extend(string(&v, false)); o } }),
        1 => enc_session(s, |s, t| if s.one_in(5) { Item::Size((t.size() + s.below(9)).saturating_sub(4) as u32) } else { let (n, v) = pair(s, t); Item::Lit(n, v, 4) }, 6),
        _ => table_session(s, look_sizes),
    }
}
fn h05(s: &mut Src) -> R {
    if s.bool() { return table_session(s, look_indices); }
    dec_session(s, |s, t, l| if s.one_in(4) { rep(s, t, l) } else { let (p, b) = s.pick(&[(0x80u8, 7u32), (0x80, 7), (0x40, 6), (0, 4), (0x10, 4)]); let mut o = int(index(s, t) as u64, p, b); if p != 0x80 { o.push(0); } o })
}
fn h05_small(s: &mut Src) -> R {
    let i = s.below(70);
    let m = s.pick(&[0u32, 33, 4096]);
    let mut x = Table::with_dynamic_size(m);
    let mut t = Ref::new(m);
    for _ in 0..s.below(4) { let v = vec![b'v'; s.below(2) as usize]; x.insert(vec![], v.clone()); t.insert(&[], &v); }
    let want = t.get(i);
    if x.get(i as u32) != want.as_ref().map(|e| (&e.0[..], &e.1[..])) { return Err(format!("index {} is {:?}, it should be {:?} ({} dynamic entries)", i, x.get(i as u32), want, t.dy.len())); }
    Ok(())
}
fn h06(s: &mut Src) -> R {
    if s.bool() { return table_session(s, look_search); }
    enc_session(s, |s, t| { let (n, v) = pair(s, t); let f = if s.bool() { 0x14 } else { flags(s) | 0x10 }; Item::Lit(n, v, f) }, 4)
}
/// Encode, cut into blocks, decode, compare with what was meant.
fn round_trip(s: &mut Src, mut gen: impl FnMut(&mut Src, &Ref) -> Item) -> R {
    let m = limit(s);
    let (mut e, mut d, mut t) = (Encoder::with_dynamic_size(m), Decoder::with_dynamic_size(m), Ref::new(m));
    s.note(|| format!("both sides with {}", m));
    let (mut block, mut meant): (V, Vec<Field>) = (vec![], vec![]);
    for _ in 0..s.below(20) {
        let mut x = gen(s, &t);
        if let Item::Size(k) = &mut x { *k = (*k).min(m).min(0x1000_001e); }
        s.note(|| format!("{:?}", x));
        let r = match &x {
            Item::Idx(i) => e.encode(*i, &mut block),
            Item::Name(i, v, f) => e.encode((*i, v.clone(), *f), &mut block),
            Item::Lit(n, v, f) => e.encode((n.clone(), v.clone(), *f), &mut block),
            Item::Size(k) => e.update_max_dynamic_size(*k, &mut block),
        };
        let want = expect(&mut t, &x);
        if r.is_ok() != want.is_some() { return Err(format!("{:?} gives {:?} with {} dynamic entries", x, r, t.dy.len())); }
        if let Some((_, Some(f))) = want { meant.push(f); }
        if s.one_in(4) {
            s.note(|| "end of the block".into());
            end_block(&mut d, &mut block, &mut meant)?;
            if s.one_in(3) { probe_decoder(&mut d, &t)?; probe_encoder(&mut e, &t)?; }
        }
    }
    end_block(&mut d, &mut block, &mut meant)?;
    probe_decoder(&mut d, &t)?;
    probe_encoder(&mut e, &t)
}
fn end_block(d: &mut Decoder, block: &mut V, meant: &mut Vec<Field>) -> R {
    let (b, n) = (block.clone(), block.len());
    let mut out = vec![];
    let r = d.decode(block, &mut out);
    let same = out.len() == meant.len() && out.iter().zip(meant.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && (a.2 & 8) == (b.2 & 8));
    if r != Ok(n) || !block.is_empty() || !same { return Err(format!("the block {} is read back as {} ({:?}), it should be {}", show(&b), show_f(&out), r, show_f(meant))); }
    meant.clear();
    Ok(())
}
fn h07(s: &mut Src) -> R { round_trip(s, item) }
fn h07_small(s: &mut Src) -> R {
    let m = s.pick(&[0u32, 34, 70]);
    let (mut e, mut d, mut t) = (Encoder::with_dynamic_size(m), Decoder::with_dynamic_size(m), Ref::new(m));
    let (mut block, mut meant): (V, Vec<Field>) = (vec![], vec![]);
    for _ in 0..s.below(4) {
        let f = s.pick(&[0x14u8, 0x10, 0x18, 0x04, 0x0b, 0x07]);
        let x = match s.below(4) { 0 => Item::Idx(s.pick(&[2, 61, 62, 63])), 1 => Item::Name(s.pick(&[15, 16, 62, 63]), s.pick(&[vec![], vec![b'b']]), f), 2 => Item::Size(s.pick(&[0u32, 33, 34, 70]).min(m)), _ => Item::Lit(s.pick(&[vec![], vec![b'a'], b":path".to_vec()]), s.pick(&[vec![], b"/".to_vec()]), f) };
        if let Some((Some(f), _)) = encode(&mut e, &mut t, &x, &mut block, false)? { meant.push(f); }
    }
    end_block(&mut d, &mut block, &mut meant)?;
    probe_decoder(&mut d, &t)
}
fn h08(s: &mut Src) -> R { enc_session(s, item, 6) }
fn h08_small(s: &mut Src) -> R {
    let (mut e, mut t) = (Encoder::with_dynamic_size(100), Ref::new(100));
    encode(&mut e, &mut t, &Item::Lit(vec![b'a'], vec![b'b'], 4), &mut vec![], false)?;
    let f = s.below(256) as u8;
    let x = match s.below(3) { 0 => Item::Name(s.below(65) as u32, vec![b'b'], f), 1 => Item::Lit(s.pick(&[vec![b'a'], vec![], b":path".to_vec()]), s.pick(&[vec![b'b'], b"/".to_vec()]), f), _ => Item::Idx(f as u32) };
    let direct = s.bool();
    encode(&mut e, &mut t, &x, &mut vec![9], direct)?;
    probe_encoder(&mut e, &t)
}
fn h09(s: &mut Src) -> R { if !s.enumerating() && s.one_in(5000) { return long_block(s); } dec_session(s, rep) }
fn h10(s: &mut Src) -> R {
    if s.one_in(3) {
        return dec_session(s, |s, t, l| if s.one_in(3) { rep(s, t, l) } else { let p = s.pick(&[0x10u8, 0]); let i = if s.bool() { 0 } else { index(s, t) as u64 }; let mut o = int(i, p, 4); if i == 0 { o.extend(str_rep(s, false)); } o.extend(str_rep(s, true)); o });
    }
    let m = limit(s);
    let (mut e, mut d, mut t) = (Encoder::with_dynamic_size(m), Decoder::with_dynamic_size(m), Ref::new(m));
    s.note(|| format!("both sides with {}", m));
    for _ in 0..s.below(12) {
        let mut x = item(s, &t);
        if let Item::Size(k) = &mut x { *k = (*k).min(m).min(0x1000_001e); }
        if !s.one_in(3) { if let Item::Name(_, _, f) | Item::Lit(_, _, f) = &mut x { *f &= !4; if s.bool() { *f |= 8; } } }
        s.note(|| format!("{:?}", x));
        let was = t.clone();
        let mut b = vec![];
        let direct = s.one_in(3);
        if encode(&mut e, &mut t, &x, &mut b, direct)?.is_some() {
            let f = match &x { Item::Name(_, _, f) | Item::Lit(_, _, f) => Some(*f), _ => None };
            if let Some(f) = f { if mode(f) == 8 && b[0] & 0xf0 != 0x10 { return Err(format!("the never-indexed {:?} is written as {}", x, show(&b))); } }
            let mut out = vec![];
            let mut tt = was.clone();
            decode(&mut d, &mut tt, m as u64, &mut b, &mut out, None)?;
            if let Some(f) = f { if mode(f) == 8 && out.last().map_or(true, |x| x.2 & 8 == 0) { return Err(format!("the never-indexed {:?} is read as {}", x, show_f(&out))); } }
        }
        probe_encoder(&mut e, &t)?;
        probe_decoder(&mut d, &t)?;
    }
    Ok(())
}
/// The same octets at once and in pieces.
fn h11(s: &mut Src) -> R {
    let m = limit(s);
    s.note(|| format!("decoder with the limit {}", m));
    let mut all = vec![];
    let mut g = Ref::new(m);
    for _ in 0..s.below(6) {
        let r = rep(s, &g, m as u64);
        let _ = ref_run(&mut g, m as u64, &r, 9);
        all.extend(r);
    }
    if s.one_in(4) { let c = s.below(all.len() as u64 + 1) as usize; all.truncate(c); }
    s.note(|| format!("octets {}", show(&all)));
    let (mut one, mut t1) = (Decoder::with_dynamic_size(m), Ref::new(m));
    let (mut b1, mut o1) = (all.clone(), vec![]);
    let f1 = decode(&mut one, &mut t1, m as u64, &mut b1, &mut o1, None)?;
    let (mut two, mut t2) = (Decoder::with_dynamic_size(m), Ref::new(m));
    let (mut b2, mut o2): (V, Vec<Field>) = (vec![], vec![]);
    let mut i = 0;
    let mut f2 = None;
    while i < all.len() {
        let k = if all.len() > 2000 { s.len(5000) + 1 } else { s.len(40) + 1 }.min(all.len() - i);
        s.note(|| format!("{} more", k));
        b2.extend(&all[i..i + k]);
        i += k;
        f2 = decode(&mut two, &mut t2, m as u64, &mut b2, &mut o2, None)?;
        if f2.is_some() && f2 != Some(Fail::Short) { break; }
    }
    if o1 != o2 || f1 != f2 && i == all.len() { return Err(format!("at once: {} {:?}; in pieces: {} {:?}", show_f(&o1), f1, show_f(&o2), f2)); }
    probe_decoder(&mut one, &t1)?;
    probe_decoder(&mut two, &t2)
}
fn h12(s: &mut Src) -> R {
    dec_session(s, |s, t, l| match s.below(6) {
        0 => rep(s, t, l),
        1 | 2 => { let (n, v) = pair(s, t); let mut o = vec![0x40]; o.extend(string(&n, false)); o.extend(string(&v, false)); o }
        3 => { let x = s.below(3); long_int((l + s.below(5)).saturating_sub(2), 0x20, 5, x) }
        4 => int((t.size() + s.below(9)).saturating_sub(4), 0x20, 5),
        _ => int(limit(s) as u64, 0x20, 5),
    })
}
fn h12_small(s: &mut Src) -> R {
    let m = s.pick(&[0u32, 30, 33, 64, 70, 4096]);
    let (mut d, mut t) = (Decoder::with_dynamic_size(m), Ref::new(m));
    let mut pre = vec![0x40, 1, b'a', 1, b'b', 0x40, 0, 0];
    decode(&mut d, &mut t, m as u64, &mut pre, &mut vec![], None)?;
    let mut b = vec![];
    for _ in 0..s.below(3) { let v = s.pick(&[0u64, 29, 30, 31, 32, 33, 34, 63, 64, 65, 66, 69, 70, 71, 4095, 4096, 4097, 65536]); b.extend(int(v, 0x20, 5)); }
    b.push(0xbe);
    decode(&mut d, &mut t, m as u64, &mut b, &mut vec![], None)?;
    probe_decoder(&mut d, &t)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "H01", random: h01, small: Some(h01_small) },
        Prop { id: "H02", random: h02, small: Some(h02_small) },
        Prop { id: "H03", random: h03, small: Some(h07_small) },
        Prop { id: "H04", random: h04, small: None },
        Prop { id: "H05", random: h05, small: Some(h05_small) },
        Prop { id: "H06", random: h06, small: None },
        Prop { id: "H07", random: h07, small: Some(h07_small) },
        Prop { id: "H08", random: h08, small: Some(h08_small) },
        Prop { id: "H09", random: h09, small: Some(h09_small) },
        Prop { id: "H10", random: h10, small: Some(h08_small) },
        Prop { id: "H11", random: h11, small: Some(h09_small) },
        Prop { id: "H12", random: h12, small: Some(h12_small) },
    ]
}
