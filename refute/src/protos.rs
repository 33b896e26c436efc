//! httlib-protos against a small independent reference of the Protocol Buffers wire format.
use crate::src::Src;
use crate::{Prop, R};
use httlib_protos::*;
use std::io;

// ------------------------------------------------------------ reference
pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v > 127 { o.push(128 + (v % 128) as u8); v /= 128; }
    o.push(v as u8);
    o
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum V { Good(u64, usize), Short, Bad }
fn unvarint(b: &[u8]) -> V {
    let mut v: u128 = 0;
    for i in 0..10 {
        match b.get(i) {
            None => return V::Short,
            Some(x) => {
                v += ((*x as u128) & 127) << (7 * i);
                if *x < 128 { return V::Good(v as u64, i + 1); }
            }
        }
    }
    V::Bad
}
fn zz32(v: i32) -> u64 { (if v < 0 { -2 * (v as i64) - 1 } else { 2 * v as i64 }) as u64 }
fn zz64(v: i64) -> u64 { (if v < 0 { -2 * (v as i128) - 1 } else { 2 * v as i128 }) as u64 }
fn unzz(v: u64) -> i64 { if v % 2 == 0 { (v / 2) as i64 } else { -((v / 2) as i64) - 1 } }

#[derive(Debug, Clone)]
pub enum Val {
    Bytes(Vec<u8>),
    Bool(bool), BoolVec(Vec<bool>), Int32(i32), Int32Vec(Vec<i32>), Int64(i64), Int64Vec(Vec<i64>),
    UInt32(u32), UInt32Vec(Vec<u32>), UInt64(u64), UInt64Vec(Vec<u64>), Float(f32), FloatVec(Vec<f32>),
    Double(f64), DoubleVec(Vec<f64>), SInt32(i32), SInt32Vec(Vec<i32>), SInt64(i64), SInt64Vec(Vec<i64>),
    Fixed32(u32), Fixed32Vec(Vec<u32>), Fixed64(u64), Fixed64Vec(Vec<u64>),
    SFixed32(i32), SFixed32Vec(Vec<i32>), SFixed64(i64), SFixed64Vec(Vec<i64>),
}
fn cat<T, F: Fn(&T) -> Vec<u8>>(v: &Vec<T>, f: F) -> Vec<u8> { let mut o = vec![]; for x in v { o.extend(f(x)); } o }
impl Val {
    /// wire type and content
    fn wire(&self) -> (Typ, Vec<u8>) {
        use Val::*;
        let ld = Typ::LengthDelimited;
        match self {
            Bytes(v) => (ld, v.clone()),
            Bool(v) => (Typ::Varint, vec![*v as u8]),
            BoolVec(v) => (ld, cat(v, |x| vec![*x as u8])),
            Int32(v) => (Typ::Varint, varint(*v as i64 as u64)),
            Int32Vec(v) => (ld, cat(v, |x| varint(*x as i64 as u64))),
            Int64(v) => (Typ::Varint, varint(*v as u64)),
            Int64Vec(v) => (ld, cat(v, |x| varint(*x as u64))),
            UInt32(v) => (Typ::Varint, varint(*v as u64)),
            UInt32Vec(v) => (ld, cat(v, |x| varint(*x as u64))),
            UInt64(v) => (Typ::Varint, varint(*v)),
            UInt64Vec(v) => (ld, cat(v, |x| varint(*x))),
            Float(v) => (Typ::Bit32, v.to_bits().to_le_bytes().to_vec()),
            FloatVec(v) => (ld, cat(v, |x| x.to_bits().to_le_bytes().to_vec())),
            Double(v) => (Typ::Bit64, v.to_bits().to_le_bytes().to_vec()),
            DoubleVec(v) => (ld, cat(v, |x| x.to_bits().to_le_bytes().to_vec())),
            SInt32(v) => (Typ::Varint, varint(zz32(*v))),
            SInt32Vec(v) => (ld, cat(v, |x| varint(zz32(*x)))),
            SInt64(v) => (Typ::Varint, varint(zz64(*v))),
            SInt64Vec(v) => (ld, cat(v, |x| varint(zz64(*x)))),
            Fixed32(v) => (Typ::Bit32, v.to_le_bytes().to_vec()),
            Fixed32Vec(v) => (ld, cat(v, |x| x.to_le_bytes().to_vec())),
            Fixed64(v) => (Typ::Bit64, v.to_le_bytes().to_vec()),
            Fixed64Vec(v) => (ld, cat(v, |x| x.to_le_bytes().to_vec())),
            SFixed32(v) => (Typ::Bit32, v.to_le_bytes().to_vec()),
            SFixed32Vec(v) => (ld, cat(v, |x| x.to_le_bytes().to_vec())),
            SFixed64(v) => (Typ::Bit64, v.to_le_bytes().to_vec()),
            SFixed64Vec(v) => (ld, cat(v, |x| x.to_le_bytes().to_vec())),
        }
    }
    fn field(&self, tag: u32) -> Vec<u8> {
        let (t, c) = self.wire();
        let mut o = varint(tag as u64 * 8 + typ_num(t));
        if t == Typ::LengthDelimited { o.extend(varint(c.len() as u64)); }
        o.extend(c);
        o
    }
    fn lit(&self) -> EncoderLit<'_> {
        macro_rules! m { ($($n:ident)*) => { match self { $(Val::$n(v) => EncoderLit::$n(v),)* } } }
        m!(Bytes Bool BoolVec Int32 Int32Vec Int64 Int64Vec UInt32 UInt32Vec UInt64 UInt64Vec Float FloatVec Double DoubleVec
           SInt32 SInt32Vec SInt64 SInt64Vec Fixed32 Fixed32Vec Fixed64 Fixed64Vec SFixed32 SFixed32Vec SFixed64 SFixed64Vec)
    }
    /// What comes out of the conversions, given the content bytes.
    fn back(&self, c: Vec<u8>) -> Val {
        macro_rules! m { ($($n:ident)*) => { match self { Val::Bytes(_) => Val::Bytes(DecoderLit::Bytes(c).into()), $(Val::$n(_) => Val::$n(DecoderLit::$n(c).into()),)* } } }
        m!(Bool BoolVec Int32 Int32Vec Int64 Int64Vec UInt32 UInt32Vec UInt64 UInt64Vec Float FloatVec Double DoubleVec
           SInt32 SInt32Vec SInt64 SInt64Vec Fixed32 Fixed32Vec Fixed64 Fixed64Vec SFixed32 SFixed32Vec SFixed64 SFixed64Vec)
    }
    fn same(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
            (Double(a), Double(b)) => a.to_bits() == b.to_bits(),
            (FloatVec(a), FloatVec(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()),
            (DoubleVec(a), DoubleVec(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()),
            _ => format!("{:?}", self) == format!("{:?}", o),
        }
    }
    fn packed(&self) -> bool { self.wire().0 == Typ::LengthDelimited && !matches!(self, Val::Bytes(_)) }
}
fn typ_num(t: Typ) -> u64 { match t { Typ::Varint => 0, Typ::Bit64 => 1, Typ::LengthDelimited => 2, Typ::Bit32 => 5, Typ::Unknown => 7 } }
fn num_typ(n: u64) -> Option<Typ> { match n { 0 => Some(Typ::Varint), 1 => Some(Typ::Bit64), 2 => Some(Typ::LengthDelimited), 5 => Some(Typ::Bit32), _ => None } }

// ------------------------------------------------------------ generators
fn vals<T: Clone>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    if s.enumerating() { let n = s.below(3); return (0..n).map(|_| f(s)).collect(); }
    let n = if s.one_in(400) { s.pick(&[65535usize, 65536, 65537, 4096, 16384, 70000, 100001]) } else { let m = if s.one_in(40) { 3000 } else { 200 }; s.len(m) };
    if n > 40 { // a few values in a pattern
        let p: Vec<T> = (0..6).map(|_| f(s)).collect();
        let k = s.below(5) as usize + 1;
        return (0..n).map(|i| p[(i * k + i / 7) % 6].clone()).collect();
    }
    (0..n).map(|_| f(s)).collect()
}
fn i(s: &mut Src, bits: u32) -> u64 {
    if s.enumerating() { let k = [0u64, 1, 127, 128, 300, 16383, 16384, u64::MAX, u64::MAX / 2, 1 << 31, (1 << 31) - 1, 1 << 35][s.below(12) as usize]; if bits == 64 { k } else { k & ((1 << bits) - 1) } } else { s.int(bits) }
}
fn val_of(s: &mut Src, kind: u64) -> Val {
    use Val::*;
    match kind {
        0 => Bytes(if s.enumerating() { let n = s.pick(&[0usize, 1, 2, 127, 128]); vec![7; n] } else { let m = if s.one_in(30) { 70000 } else { 300 }; s.bytes(m) }),
        1 => Bool(s.bool()), 2 => BoolVec(vals(s, |s| s.bool())),
        3 => Int32(i(s, 32) as i32), 4 => Int32Vec(vals(s, |s| i(s, 32) as i32)),
        5 => Int64(i(s, 64) as i64), 6 => Int64Vec(vals(s, |s| i(s, 64) as i64)),
        7 => UInt32(i(s, 32) as u32), 8 => UInt32Vec(vals(s, |s| i(s, 32) as u32)),
        9 => UInt64(i(s, 64)), 10 => UInt64Vec(vals(s, |s| i(s, 64))),
        11 => Float(f32(s)), 12 => FloatVec(vals(s, f32)),
        13 => Double(f64(s)), 14 => DoubleVec(vals(s, f64)),
        15 => SInt32(i(s, 32) as i32), 16 => SInt32Vec(vals(s, |s| i(s, 32) as i32)),
        17 => SInt64(i(s, 64) as i64), 18 => SInt64Vec(vals(s, |s| i(s, 64) as i64)),
        19 => Fixed32(i(s, 32) as u32), 20 => Fixed32Vec(vals(s, |s| i(s, 32) as u32)),
        21 => Fixed64(i(s, 64)), 22 => Fixed64Vec(vals(s, |s| i(s, 64))),
        23 => SFixed32(i(s, 32) as i32), 24 => SFixed32Vec(vals(s, |s| i(s, 32) as i32)),
        25 => SFixed64(i(s, 64) as i64), _ => SFixed64Vec(vals(s, |s| i(s, 64) as i64)),
    }
}
fn f32(s: &mut Src) -> f32 {
    let b = if s.enumerating() { [0u32, 0x8000_0000, 0x7f80_0000, 0x7fc0_0001, 0x7f80_0001, 0x3f80_0000, 1][s.below(7) as usize] } else {
        match s.below(6) { 0 => 0, 1 => 0x8000_0000, 2 => 0x7f80_0000 + s.below(3) as u32, 3 => 0xff80_0000 + (s.int(22) as u32), 4 => (s.int(20) as f32).to_bits(), _ => s.int(32) as u32 } };
    f32::from_bits(b)
}
fn f64(s: &mut Src) -> f64 {
    let b = if s.enumerating() { [0u64, 1 << 63, 0x7ff0 << 48, 0x7ff8 << 48 | 1, 0x7ff0 << 48 | 1, 0x3ff0 << 48, 1][s.below(7) as usize] } else {
        match s.below(6) { 0 => 0, 1 => 1 << 63, 2 => (0x7ff0 << 48) + s.below(3), 3 => (0xfff0 << 48) + s.int(50), 4 => (s.int(40) as f64).to_bits(), _ => s.int(64) } };
    f64::from_bits(b)
}
fn val(s: &mut Src) -> Val { let k = s.below(27); val_of(s, k) }
fn scalar(s: &mut Src) -> Val { let k = s.pick(&[0u64, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25]); val_of(s, k) }
fn packed(s: &mut Src) -> Val { let k = s.pick(&[2u64, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26]); val_of(s, k) }
const TAG_MAX: u32 = 536_870_911;
fn tag(s: &mut Src) -> u32 {
    if s.enumerating() { return s.pick(&[1u32, 15, 16, 2047, 2048, TAG_MAX]); }
    let t = s.int(29) as u32;
    if t == 0 { 1 } else if t > TAG_MAX { TAG_MAX } else { t }
}

/// Encodes through one of the three ways the encoder offers.
fn encode<W: io::Write + ?Sized>(s: &mut Src, tag: u32, v: &Val, dst: &mut W) -> Result<usize, EncoderError> {
    let e = Encoder::default();
    match s.below(3) {
        0 => e.encode((&tag, v.lit()), dst),
        1 => match v {
            Val::Bytes(x) => e.encode((&tag, x), dst),
            Val::Bool(x) => e.encode((&tag, x), dst), Val::BoolVec(x) => e.encode((&tag, x), dst),
            Val::Int32(x) => e.encode((&tag, x), dst), Val::Int32Vec(x) => e.encode((&tag, x), dst),
            Val::Int64(x) => e.encode((&tag, x), dst), Val::Int64Vec(x) => e.encode((&tag, x), dst),
            Val::UInt32(x) => e.encode((&tag, x), dst), Val::UInt32Vec(x) => e.encode((&tag, x), dst),
            Val::UInt64(x) => e.encode((&tag, x), dst), Val::UInt64Vec(x) => e.encode((&tag, x), dst),
            Val::Float(x) => e.encode((&tag, x), dst), Val::FloatVec(x) => e.encode((&tag, x), dst),
            Val::Double(x) => e.encode((&tag, x), dst), Val::DoubleVec(x) => e.encode((&tag, x), dst),
            _ => e.encode((&tag, v.lit()), dst),
        },
        _ => match v {
            Val::Bytes(x) => e.encode_bytes(&tag, x, dst),
            Val::Bool(x) => e.encode_bool(&tag, x, dst), Val::BoolVec(x) => e.encode_bool_vec(&tag, x, dst),
            Val::Int32(x) => e.encode_int32(&tag, x, dst), Val::Int32Vec(x) => e.encode_int32_vec(&tag, x, dst),
            Val::Int64(x) => e.encode_int64(&tag, x, dst), Val::Int64Vec(x) => e.encode_int64_vec(&tag, x, dst),
            Val::UInt32(x) => e.encode_uint32(&tag, x, dst), Val::UInt32Vec(x) => e.encode_uint32_vec(&tag, x, dst),
            Val::UInt64(x) => e.encode_uint64(&tag, x, dst), Val::UInt64Vec(x) => e.encode_uint64_vec(&tag, x, dst),
            Val::Float(x) => e.encode_float(&tag, x, dst), Val::FloatVec(x) => e.encode_float_vec(&tag, x, dst),
            Val::Double(x) => e.encode_double(&tag, x, dst), Val::DoubleVec(x) => e.encode_double_vec(&tag, x, dst),
            Val::SInt32(x) => e.encode_sint32(&tag, x, dst), Val::SInt32Vec(x) => e.encode_sint32_vec(&tag, x, dst),
            Val::SInt64(x) => e.encode_sint64(&tag, x, dst), Val::SInt64Vec(x) => e.encode_sint64_vec(&tag, x, dst),
            Val::Fixed32(x) => e.encode_fixed32(&tag, x, dst), Val::Fixed32Vec(x) => e.encode_fixed32_vec(&tag, x, dst),
            Val::Fixed64(x) => e.encode_fixed64(&tag, x, dst), Val::Fixed64Vec(x) => e.encode_fixed64_vec(&tag, x, dst),
            Val::SFixed32(x) => e.encode_sfixed32(&tag, x, dst), Val::SFixed32Vec(x) => e.encode_sfixed32_vec(&tag, x, dst),
            Val::SFixed64(x) => e.encode_sfixed64(&tag, x, dst), Val::SFixed64Vec(x) => e.encode_sfixed64_vec(&tag, x, dst),
        },
    }
}
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
type Fields = Vec<(u32, Typ, Vec<u8>)>;

// ------------------------------------------------------------ reference decoder
#[derive(Clone, Copy, Debug)]
enum St { Key, Payload(u32, Typ), Ld(u32, u64) }
struct Rf { st: St, buf: Vec<u8>, out: Fields, bad: bool }
impl Rf {
    fn new() -> Rf { Rf { st: St::Key, buf: vec![], out: vec![], bad: false } }
    fn take(&mut self, n: usize) -> Vec<u8> { self.buf.drain(..n).collect() }
    /// Runs as far as the buffer goes; returns what it took from it.
    fn run(&mut self) -> usize {
        let n0 = self.buf.len();
        self.bad = false;
        loop {
            match self.st {
                St::Key => match unvarint(&self.buf) {
                    V::Short => break,
                    V::Bad => { self.bad = true; break }
                    V::Good(k, n) => match num_typ(k % 8) {
                        Some(t) if k >= 8 && k < 1 << 32 => { self.take(n); self.st = St::Payload((k / 8) as u32, t); }
                        _ => { self.bad = true; break }
                    },
                },
                St::Payload(tag, Typ::LengthDelimited) => match unvarint(&self.buf) {
                    V::Short => break,
                    V::Bad => { self.bad = true; break }
                    V::Good(l, n) => { self.take(n); self.st = St::Ld(tag, l); }
                },
                St::Payload(tag, t) => {
                    let n = match t {
                        Typ::Bit32 => 4, Typ::Bit64 => 8,
                        _ => match unvarint(&self.buf) { V::Good(_, n) => n, V::Short => break, V::Bad => { self.bad = true; break } },
                    };
                    if self.buf.len() < n { break; }
                    let c = self.take(n);
                    self.out.push((tag, t, c));
                    self.st = St::Key;
                }
                St::Ld(tag, l) => {
                    if (self.buf.len() as u64) < l { break; }
                    let c = self.take(l as usize);
                    self.out.push((tag, Typ::LengthDelimited, c));
                    self.st = St::Key;
                }
            }
        }
        n0 - self.buf.len()
    }
}

/// Bytes that look like a message, more or less.
fn soup(s: &mut Src) -> Vec<u8> {
    if s.enumerating() {
        let n = s.below(5);
        return (0..n).map(|_| s.pick(&[0u8, 1, 0x08, 0x0a, 0x0d, 0x09, 0x7f, 0x80, 0xff, 2])).collect();
    }
    match s.below(10) {
        0 => s.bytes(60),
        1 => (0..s.len(30)).map(|_| s.pick(&[0u8, 1, 2, 8, 0x0a, 0x0b, 0x0d, 0x09, 0x7f, 0x80, 0x81, 0xff])).collect(),
        _ => {
            let mut b = vec![];
            for _ in 0..s.below(6) {
                match s.below(12) {
                    0 => { // an arbitrary key
                        let k = s.int(40); b.extend(varint(k));
                    }
                    1 => { let n = s.below(12); for _ in 0..n { b.push(0x80 | s.below(128) as u8); } b.push(s.below(128) as u8); }
                    2 => { // padded varints for key, length and content
                        let t = tag(s);
                        let pad = |mut v: Vec<u8>, n: u64| { if n > 0 { let l = v.len() - 1; v[l] |= 0x80; for _ in 1..n { v.push(0x80); } v.push(0); } v };
                        let (a, c) = (s.below(4), s.below(4));
                        if s.bool() { let v = s.int(64); b.extend(pad(varint(t as u64 * 8), a)); b.extend(pad(varint(v), c)); }
                        else { let v = s.bytes(9); b.extend(pad(varint(t as u64 * 8 + 2), a)); b.extend(pad(varint(v.len() as u64), c)); b.extend(v); }
                    }
                    3 => { let t = tag(s); let l = s.int(64); b.extend(varint(t as u64 * 8 + 2)); b.extend(varint(l)); let v = s.bytes(20); b.extend(v); }
                    _ => { let t = tag(s); let v = val(s); b.extend(v.field(t)); }
                }
            }
            if s.one_in(3) && !b.is_empty() { let n = s.below(b.len() as u64 + 1) as usize; b.truncate(n); }
            if s.one_in(4) && !b.is_empty() { let k = s.below(b.len() as u64) as usize; b[k] = s.u8(); }
            b
        }
    }
}

// ------------------------------------------------------------ properties
// P01: varints
fn p01(s: &mut Src) -> R {
    let t = tag(s);
    let v = i(s, 64);
    s.note(|| format!("encode uint64 field, tag {}, value {}", t, v));
    let mut b = vec![];
    let n = Encoder::default().encode_uint64(&t, &v, &mut b).map_err(|e| format!("{:?}", e))?;
    let want = { let mut w = varint(t as u64 * 8); w.extend(varint(v)); w };
    ensure!(b == want && n == b.len(), "encoded as {:?}, should be {:?}", b, want);
    // decoding: any sequence of bytes
    let mut c = if s.enumerating() { (0..s.below(4)).map(|_| s.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect() } else {
        match s.below(3) { 0 => varint(s.int(64)), 1 => { let n = s.below(13); (0..n).map(|_| 0x80 | s.u8()).collect::<Vec<_>>() }, _ => s.bytes(14) } };
    if !s.enumerating() && s.bool() { let m = s.below(12) as usize; if m < c.len() { c[m] &= 0x7f; } }
    let mut m = varint(t as u64 * 8);
    m.extend(&c);
    s.note(|| format!("decode varint field {:?}", m));
    let (mut d, mut f): (Decoder, Fields) = (Decoder::default(), vec![]);
    let mut buf = m.clone();
    let r = d.decode(&mut buf, &mut f);
    match unvarint(&c) {
        V::Good(v, n) => {
            ensure!(!f.is_empty() && f[0] == (t, Typ::Varint, c[..n].to_vec()), "decoded fields {:?} of {:?} should start with {:?}", f, m, c[..n].to_vec());
            let x: u64 = DecoderLit::UInt64(c.clone()).into();
            ensure!(x == v, "value of {:?} is {} but should be {}", c, x, v);
        }
        V::Short => ensure!(r.is_ok() && f.is_empty() && buf == c, "an unfinished varint {:?} gave {:?} {:?}, left {:?}", c, r, f, buf),
        V::Bad => ensure!(r.is_err() && f.is_empty() && buf == c, "a varint of more than ten bytes {:?} gave {:?} {:?}, left {:?}", c, r, f, buf),
    }
    Ok(())
}

// P02: never panics, always comes back
/// A message of very many fields: neither time nor stack may run out.
fn long_message(s: &mut Src) -> R {
    let k = s.pick(&[0u64, 1, 2, 13, 11]);
    let (t, v) = (tag(s), val_of(s, k));
    let n = 8000 + s.below(8000) as usize;
    s.note(|| format!("{} times the field with tag {} and value {:?}", n, t, v));
    let one = v.field(t);
    if one.len() > 40 { return Ok(()); }
    let mut b = one.repeat(n);
    let (want, c) = v.wire();
    let total = b.len();
    let mut f: Fields = vec![];
    let r = Decoder::default().decode(&mut b, &mut f);
    ensure!(r == Ok(total) && b.is_empty(), "decoding {} bytes gave {:?}, left {}", total, r, b.len());
    ensure!(f.len() == n && f.iter().all(|x| *x == (t, want, c.clone())), "delivered {} fields, not {} times the field", f.len(), n);
    Ok(())
}
fn p02(s: &mut Src) -> R {
    if !s.enumerating() && s.one_in(5000) { return long_message(s); }
    let (mut d, mut f): (Decoder, Fields) = (Decoder::default(), vec![]);
    let mut buf = vec![];
    for _ in 0..1 + s.below(4) {
        let c = soup(s);
        s.note(|| format!("feed {:?}", c));
        buf.extend(c);
        for _ in 0..1 + s.below(2) {
            let n0 = buf.len();
            match d.decode(&mut buf, &mut f) {
                Ok(n) => ensure!(n + buf.len() == n0, "took {} of {} bytes but left {}", n, n0, buf.len()),
                Err(_) => ensure!(buf.len() <= n0, "the buffer grew"),
            }
        }
        if buf.len() > 3000 { break; }
    }
    let c = if s.bool() { s.bytes(40) } else { soup(s) };
    s.note(|| format!("convert {:?}", c));
    for v in all_kinds() { v.back(c.clone()); }
    Ok(())
}
fn all_kinds() -> Vec<Val> {
    use Val::*;
    vec![Bytes(vec![]), Bool(false), BoolVec(vec![]), Int32(0), Int32Vec(vec![]), Int64(0), Int64Vec(vec![]), UInt32(0), UInt32Vec(vec![]), UInt64(0), UInt64Vec(vec![]),
        Float(0.0), FloatVec(vec![]), Double(0.0), DoubleVec(vec![]), SInt32(0), SInt32Vec(vec![]), SInt64(0), SInt64Vec(vec![]), Fixed32(0), Fixed32Vec(vec![]), Fixed64(0), Fixed64Vec(vec![]),
        SFixed32(0), SFixed32Vec(vec![]), SFixed64(0), SFixed64Vec(vec![])]
}

// P03, P04: a field goes through encoder, decoder and conversion unchanged
fn trip(s: &mut Src, t: u32, v: &Val) -> R {
    s.note(|| format!("tag {} value {:?}", t, v));
    let mut b = vec![];
    encode(s, t, v, &mut b).map_err(|e| format!("encoding failed with {:?}", e))?;
    let (mut d, mut f): (Decoder, Fields) = (Decoder::default(), vec![]);
    let n0 = b.len();
    let r = d.decode(&mut b, &mut f);
    ensure!(r == Ok(n0) && b.is_empty() && f.len() == 1, "decoding gave {:?}, {} fields, left {:?}", r, f.len(), b);
    let (t2, ty, c) = f.pop().unwrap();
    ensure!(t2 == t && ty == v.wire().0, "came back with tag {} and type {:?}", t2, ty);
    let w = v.back(c.clone());
    ensure!(v.same(&w), "came back as {:?}", w);
    if let Val::Bytes(b) = v {
        let st: String = DecoderLit::Bytes(c).into();
        ensure!(st == String::from_utf8(b.clone()).unwrap_or_default(), "as a string: {:?}", st);
    }
    Ok(())
}
fn p03(s: &mut Src) -> R { let t = tag(s); let v = scalar(s); trip(s, t, &v) }
fn p04(s: &mut Src) -> R { let t = tag(s); let v = packed(s); trip(s, t, &v) }

// P05: exact bytes, size, appended
fn p05(s: &mut Src) -> R {
    let (t, v) = (tag(s), val(s));
    let pre = if s.enumerating() { vec![9; s.below(2) as usize] } else { s.bytes(9) };
    s.note(|| format!("tag {} value {:?} destination {:?}", t, v, pre));
    let mut b = pre.clone();
    let r = encode(s, t, &v, &mut b);
    let want = v.field(t);
    ensure!(r == Ok(want.len()), "returned {:?}, should be {}", r, want.len());
    ensure!(b.starts_with(&pre), "the destination was changed to {:?}", b);
    ensure!(b[pre.len()..] == want[..], "wrote {:?}, should be {:?}", &b[pre.len()..], want);
    Ok(())
}

// P06: tags and wire types
fn p06(s: &mut Src) -> R {
    let t = if s.enumerating() { s.pick(&[0u32, 1, TAG_MAX, TAG_MAX + 1, u32::MAX, 1 << 30, 1 << 31]) } else if s.bool() { s.int(32) as u32 } else { s.pick(&[0u32, 1, TAG_MAX, TAG_MAX + 1, u32::MAX, TAG_MAX - 1, TAG_MAX + 2]) };
    let v = val(s);
    s.note(|| format!("encode tag {} value {:?}", t, v));
    let mut b = vec![1, 2];
    let r = encode(s, t, &v, &mut b);
    if t >= 1 && t <= TAG_MAX { ensure!(r.is_ok(), "a valid tag {} gave {:?}", t, r); }
    else { ensure!(r == Err(EncoderError::InvalidTag) && b == [1, 2], "tag {} gave {:?}, the destination became {:?}", t, r, b); }
    // decoding
    let k = if s.enumerating() { s.pick(&[0u64, 1, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0xffff_ffff, 0xffff_fffd, 0x1_0000_0000, 0x1_0000_0008, u64::MAX]) } else if s.bool() { s.int(64) } else { s.int(29) * 8 + s.below(8) };
    let mut m = varint(k);
    let body = if s.enumerating() { vec![0u8; 9] } else { s.bytes(12) };
    m.extend(&body);
    let mut buf = m.clone();
    s.note(|| format!("decode key {} {:?}", k, m));
    let (mut d, mut f): (Decoder, Fields) = (Decoder::default(), vec![]);
    let r = d.decode(&mut buf, &mut f);
    let valid = num_typ(k % 8).is_some() && k >= 8 && k < 1 << 32;
    if !valid { ensure!(r.is_err() && f.is_empty() && buf == m, "an invalid key {} gave {:?} and fields {:?}, left {:?}", k, r, f, buf); }
    else {
        let mut rf = Rf::new();
        rf.buf = m;
        rf.run();
        ensure!(r.is_err() == rf.bad && f == rf.out, "key {} gave {:?} and fields {:?}, should be {:?}", k, r, f, rf.out);
    }
    Ok(())
}

// P07: whole messages
fn p07(s: &mut Src) -> R {
    if !s.enumerating() && s.one_in(5000) { return long_message(s); }
    let n = if s.enumerating() { s.below(3) } else if s.one_in(20) { s.below(60) } else { s.below(7) };
    let mut b = vec![];
    let mut want: Fields = vec![];
    for _ in 0..n {
        let (t, v) = if s.enumerating() { let k = s.pick(&[0u64, 1, 2, 11, 13, 9]); (s.pick(&[1u32, 16]), val_of(s, k)) } else { (tag(s), val(s)) };
        s.note(|| format!("field tag {} value {:?}", t, v));
        encode(s, t, &v, &mut b).map_err(|e| format!("{:?}", e))?;
        let (ty, c) = v.wire();
        want.push((t, ty, c));
    }
    let pre = if s.bool() { vec![] } else { vec![(5, Typ::Bit32, vec![1, 2, 3, 4])] };
    let mut f = pre.clone();
    let mut d = Decoder::default();
    let n0 = b.len();
    let r = d.decode(&mut b, &mut f);
    ensure!(r == Ok(n0) && b.is_empty(), "decoding {} bytes gave {:?}, left {}", n0, r, b.len());
    ensure!(f[..pre.len()] == pre[..], "fields delivered before were changed");
    ensure!(f[pre.len()..] == want[..], "delivered {:?}, should be {:?}", &f[pre.len()..], want);
    // the decoder is ready for the next message
    let r = d.decode(&mut vec![8, 1], &mut f);
    ensure!(r == Ok(2) && f.last() == Some(&(1, Typ::Varint, vec![1])), "after the message: {:?} {:?}", r, f.last());
    Ok(())
}

// P08: how the bytes are split over the calls makes no difference
fn p08(s: &mut Src) -> R {
    let m = soup(s);
    s.note(|| format!("message {:?}", m));
    let (mut d1, mut f1, mut b1): (Decoder, Fields, Vec<u8>) = (Decoder::default(), vec![], m.clone());
    let r1 = d1.decode(&mut b1, &mut f1);
    let (mut d2, mut f2, mut b2): (Decoder, Fields, Vec<u8>) = (Decoder::default(), vec![], vec![]);
    let mut i = 0;
    let (mut err, mut took) = (false, 0);
    let step = s.below(4);
    while i < m.len() && !err {
        let n = match step { 0 => 1, 1 => 2, _ => { let l = (m.len() - i) as u64; let l = if s.bool() { l.min(3) } else { l }; 1 + s.below(l) as usize } }.min(m.len() - i);
        b2.extend(&m[i..i + n]);
        i += n;
        s.note(|| format!("after {} bytes", i));
        match d2.decode(&mut b2, &mut f2) { Ok(n) => took += n, Err(_) => err = true }
        if s.one_in(4) && !err { match d2.decode(&mut b2, &mut f2) { Ok(0) => {}, x => return Err(format!("without new input: {:?}", x)) } }
    }
    b2.extend(&m[i..]);
    ensure!(f1 == f2, "at once: {:?}; in pieces: {:?}", f1, f2);
    ensure!(b1 == b2, "left at once: {:?}; in pieces: {:?}", b1, b2);
    ensure!(r1.is_err() == err, "at once: {:?}; in pieces an error: {}", r1, err);
    if !err { ensure!(r1 == Ok(took), "at once: {:?}; in pieces: {}", r1, took); }
    // and both go on in the same way
    let more = soup(s);
    b1.extend(&more); b2.extend(&more);
    let (r1, r2) = (d1.decode(&mut b1, &mut f1), d2.decode(&mut b2, &mut f2));
    ensure!(r1.is_err() == r2.is_err() && f1 == f2 && b1 == b2, "then, on {:?}: {:?} {:?} {:?} / {:?} {:?} {:?}", more, r1, f1, b1, r2, f2, b2);
    Ok(())
}

// P09: malformed input
fn p09(s: &mut Src) -> R {
    let mut d = Decoder::default();
    let mut rf = Rf::new();
    let mut f: Fields = vec![];
    let mut b = vec![];
    for _ in 0..1 + s.below(3) {
        let c = soup(s);
        s.note(|| format!("feed {:?}", c));
        b.extend(&c);
        rf.buf.extend(&c);
        let n = rf.run();
        let r = d.decode(&mut b, &mut f);
        ensure!(f == rf.out, "delivered {:?}, should be {:?}", f, rf.out);
        ensure!(b == rf.buf, "left {:?}, should be {:?}", b, rf.buf);
        if rf.bad { ensure!(r.is_err(), "malformed input gave {:?}", r); } else { ensure!(r == Ok(n), "gave {:?}, should be {}", r, n); }
        let r2 = d.decode(&mut b, &mut f);
        ensure!(f == rf.out && b == rf.buf, "a second call without new input delivered something: {:?} {:?}", f, b);
        if rf.bad { ensure!(r2.is_err(), "a second call gave {:?}", r2); } else { ensure!(r2 == Ok(0), "a second call gave {:?}", r2); }
    }
    Ok(())
}

// P10: conversions of whatever bytes
fn conv(s: &mut Src, c: &Vec<u8>, kind: u64) -> R {
    fn one(c: &[u8]) -> Option<u64> { match unvarint(c) { V::Good(v, _) => Some(v), _ => None } }
    fn many(mut c: &[u8]) -> Option<Vec<u64>> { let mut o = vec![]; while !c.is_empty() { match unvarint(c) { V::Good(v, n) => { o.push(v); c = &c[n..]; } _ => return None } } Some(o) }
    fn le(c: &[u8], n: usize) -> Option<u64> { if c.len() < n { None } else { Some((0..n).map(|i| (c[i] as u64) << (8 * i)).sum()) } }
    fn les(c: &[u8], n: usize) -> Option<Vec<u64>> { if c.len() % n != 0 { None } else { Some(c.chunks(n).map(|x| le(x, n).unwrap()).collect()) } }
    fn ml<T>(o: Option<Vec<u64>>, f: fn(u64) -> T) -> Vec<T> { o.unwrap_or_default().into_iter().map(f).collect() }
    fn mk(n: u64, c: Vec<u8>) -> DecoderLit {
        use DecoderLit::*;
        match n { 0 => Bytes(c), 1 => Bool(c), 2 => BoolVec(c), 3 => Int32(c), 4 => Int32Vec(c), 5 => Int64(c), 6 => Int64Vec(c), 7 => UInt32(c), 8 => UInt32Vec(c), 9 => UInt64(c), 10 => UInt64Vec(c),
            11 => Float(c), 12 => FloatVec(c), 13 => Double(c), 14 => DoubleVec(c), 15 => SInt32(c), 16 => SInt32Vec(c), 17 => SInt64(c), 18 => SInt64Vec(c), 19 => Fixed32(c), 20 => Fixed32Vec(c),
            21 => Fixed64(c), 22 => Fixed64Vec(c), 23 => SFixed32(c), 24 => SFixed32Vec(c), 25 => SFixed64(c), _ => SFixed64Vec(c) }
    }
    s.note(|| format!("content {:?} as literal kind {}", c, kind));
    let l = || mk(kind, c.clone());
    macro_rules! cmp { ($t:ty, $want:expr) => {{ let got: $t = l().into(); let want: $t = $want; ensure!(format!("{:?}", got) == format!("{:?}", want), "{:?} as {} gave {:?}, should be {:?}", l(), stringify!($t), got, want); }} }
    let (o, m) = (one(c), many(c));
    let z32 = |o: Option<u64>| o.unwrap_or(0);
    cmp!(bool, kind == 1 && o.unwrap_or(0) != 0);
    cmp!(Vec<bool>, if kind == 2 { ml(m.clone(), |x| x != 0) } else { vec![] });
    cmp!(i32, match kind { 3 => z32(o) as i32, 15 => o.map(|x| { let y = x; (if y % 2 == 0 { (y / 2) as i64 } else { -((y / 2) as i64) - 1 }) as i32 }).unwrap_or(0), 23 => le(c, 4).unwrap_or(0) as i32, _ => 0 });
    cmp!(Vec<i32>, match kind { 4 => ml(m.clone(), |x| x as i32), 16 => ml(m.clone(), |x| unzz(x) as i32), 24 => ml(les(c, 4), |x| x as i32), _ => vec![] });
    cmp!(i64, match kind { 5 => z32(o) as i64, 17 => o.map(unzz).unwrap_or(0), 25 => le(c, 8).unwrap_or(0) as i64, _ => 0 });
    cmp!(Vec<i64>, match kind { 6 => ml(m.clone(), |x| x as i64), 18 => ml(m.clone(), unzz), 26 => ml(les(c, 8), |x| x as i64), _ => vec![] });
    cmp!(u32, match kind { 7 => z32(o) as u32, 19 => le(c, 4).unwrap_or(0) as u32, _ => 0 });
    cmp!(Vec<u32>, match kind { 8 => ml(m.clone(), |x| x as u32), 20 => ml(les(c, 4), |x| x as u32), _ => vec![] });
    cmp!(u64, match kind { 9 => z32(o), 21 => le(c, 8).unwrap_or(0), _ => 0 });
    cmp!(Vec<u64>, match kind { 10 => ml(m.clone(), |x| x), 22 => ml(les(c, 8), |x| x), _ => vec![] });
    let g: f32 = l().into();
    let w = if kind == 11 { f32::from_bits(le(c, 4).unwrap_or(0) as u32) } else { 0.0 };
    ensure!(g.to_bits() == w.to_bits(), "{:?} as f32 gave {:?}, should be {:?}", l(), g, w);
    let g: f64 = l().into();
    let w = if kind == 13 { f64::from_bits(le(c, 8).unwrap_or(0)) } else { 0.0 };
    ensure!(g.to_bits() == w.to_bits(), "{:?} as f64 gave {:?}, should be {:?}", l(), g, w);
    let g: Vec<f32> = l().into();
    let w = if kind == 12 { ml(les(c, 4), |x| x as u32) } else { vec![] };
    ensure!(g.iter().map(|x| x.to_bits()).collect::<Vec<_>>() == w, "{:?} as Vec<f32> gave {:?}", l(), g);
    let g: Vec<f64> = l().into();
    let w = if kind == 14 { ml(les(c, 8), |x| x) } else { vec![] };
    ensure!(g.iter().map(|x| x.to_bits()).collect::<Vec<_>>() == w, "{:?} as Vec<f64> gave {:?}", l(), g);
    cmp!(Vec<u8>, if kind == 0 { c.clone() } else { vec![] });
    cmp!(String, if kind == 0 { String::from_utf8(c.clone()).unwrap_or_default() } else { String::new() });
    Ok(())
}
fn p10(s: &mut Src) -> R {
    let kind = s.below(27);
    let c = if s.enumerating() { (0..s.below(4)).map(|_| s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xc3, 0xff])).collect() } else {
        match s.below(5) {
            0 => s.bytes(40),
            1 => { let mut c = val_of(s, kind).wire().1; c.truncate(2000); c }
            2 => { let mut c = val_of(s, kind).wire().1; c.truncate(2000); if !c.is_empty() { let n = s.below(c.len() as u64) as usize; c.truncate(n); } c }
            3 => { let mut c = val_of(s, kind).wire().1; c.truncate(2000); let b = s.bytes(12); c.extend(b); c }
            _ => (0..s.len(30)).map(|_| s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0xc3, 0xa9, b'x'])).collect(),
        } };
    conv(s, &c, kind)
}

// P11: a failing destination
struct Sink { got: Vec<u8>, room: usize, step: usize, calls: u64, kind: Option<io::ErrorKind>, once: bool }
use io::ErrorKind as K;
const KINDS: [Option<K>; 20] = [Some(K::Other), None, Some(K::BrokenPipe), Some(K::WouldBlock), Some(K::TimedOut), Some(K::WriteZero), Some(K::UnexpectedEof), Some(K::ConnectionReset),
    Some(K::ConnectionAborted), Some(K::NotConnected), Some(K::PermissionDenied), Some(K::NotFound), Some(K::AlreadyExists), Some(K::InvalidInput), Some(K::InvalidData), Some(K::OutOfMemory),
    Some(K::Unsupported), Some(K::ConnectionRefused), Some(K::AddrInUse), Some(K::StorageFull)];
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.room == 0 {
            if self.once { self.room = usize::MAX; }
            return match self.kind { Some(k) => Err(io::Error::new(k, "full")), None => Ok(0) };
        }
        if self.step > 2 && self.calls % 5 == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        let n = b.len().min(self.room).min(self.step.max(1));
        self.got.extend(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn p11(s: &mut Src) -> R {
    let (t, v) = (tag(s), val(s));
    let want = v.field(t);
    let room = if s.enumerating() { s.below(want.len() as u64 + 2) as usize } else { let k = s.below(want.len() as u64 + 3); k as usize };
    let step = s.pick(&[1usize, 2, 3, 1 << 20]);
    s.note(|| format!("tag {} value {:?}, room for {} of {} bytes, {} at a time", t, v, room, want.len(), step));
    let (kind, once) = (s.pick(&KINDS), s.bool());
    let mut w = Sink { got: vec![], room, step, calls: 0, kind, once };
    let r = encode(s, t, &v, &mut w);
    if room >= want.len() { ensure!(r == Ok(want.len()) && w.got == want, "gave {:?}, wrote {:?}, should be {:?}", r, w.got, want); }
    else {
        ensure!(r == Err(EncoderError::Interrupted), "the destination failed but encoding gave {:?}", r);
        ensure!(want.starts_with(&w.got), "wrote {:?}, which does not start {:?}", w.got, want);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = |v: &Val| v.packed();
    vec![
        Prop { id: "P01", random: p01, small: Some(p01) },
        Prop { id: "P02", random: p02, small: Some(p02) },
        Prop { id: "P03", random: p03, small: Some(p03) },
        Prop { id: "P04", random: p04, small: Some(p04) },
        Prop { id: "P05", random: p05, small: Some(p05) },
        Prop { id: "P06", random: p06, small: Some(p06) },
        Prop { id: "P07", random: p07, small: Some(p07) },
        Prop { id: "P08", random: p08, small: Some(p08) },
        Prop { id: "P09", random: p09, small: Some(p09) },
        Prop { id: "P10", random: p10, small: Some(p10) },
        Prop { id: "P11", random: p11, small: Some(p11) },
    ]
}
