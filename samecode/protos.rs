fn dec_kind<T>(r: &Result<T, DecoderError>) -> u64 { match r { Ok(_) => 0, Err(DecoderError::InvalidInput) => 1, Err(DecoderError::InputUnderflow) => 2, Err(DecoderError::InvalidTag) => 3, Err(_) => 4 } }
fn enc_kind<T>(r: &Result<T, EncoderError>) -> u64 { match r { Ok(_) => 0, Err(EncoderError::InvalidTag) => 1, Err(_) => 2 } }
fn typ_kind(t: Typ) -> u64 { match t { Typ::Varint => 0, Typ::Bit64 => 1, Typ::LengthDelimited => 2, Typ::Bit32 => 3, Typ::Unknown => 4 } }
macro_rules! back { ($o:expr, $c:expr, $($n:ident $t:ty,)*) => { $( { let v: $t = <$t as Conv>::conv(DecoderLit::$n($c)); put(&mut $o, format!("{:?}", Bits(v))); } )* } }
struct Bits<T>(T);
macro_rules! bits { ($($t:ty)*) => { $( impl std::fmt::Debug for Bits<$t> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } } )* } }
bits! { bool i32 i64 u32 u64 Vec<bool> Vec<i32> Vec<i64> Vec<u32> Vec<u64> Vec<u8> String }
impl std::fmt::Debug for Bits<f32> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0.to_bits()) } }
impl std::fmt::Debug for Bits<f64> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0.to_bits()) } }
impl std::fmt::Debug for Bits<Vec<f32>> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for x in &self.0 { write!(f, "{:?} ", x.to_bits())?; } Ok(()) } }
impl std::fmt::Debug for Bits<Vec<f64>> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for x in &self.0 { write!(f, "{:?} ", x.to_bits())?; } Ok(()) } }
fn put(o: &mut Out, s: String) { o.put(s.as_bytes()); }
fn protos() {
    let mut r = Rng(14);
    let mut o = out();
    let e = Encoder::default();
    for k in 0..2500u64 {
        guard(&mut o, |mut o| {
            let mut b = vec![];
            for _ in 0..r.below(8) {
                let t = if r.below(12) == 0 { r.int() as u32 } else { 1 + r.below(40) as u32 };
                let v: Vec<u64> = (0..r.below(6)).map(|_| r.int()).collect();
                macro_rules! list { ($t:ty) => { &v.iter().map(|x| *x as $t).collect::<Vec<$t>>() } }
                let x = r.int();
                let res = match r.below(29) {
                    0 => e.encode_bytes(&t, &r.bytes(40), &mut b), 1 => e.encode_bool(&t, &(x & 1 == 1), &mut b), 2 => e.encode_bool_vec(&t, &v.iter().map(|x| x & 1 == 1).collect(), &mut b),
                    3 => e.encode_int32(&t, &(x as i32), &mut b), 4 => e.encode_int32_vec(&t, list!(i32), &mut b), 5 => e.encode_int64(&t, &(x as i64), &mut b), 6 => e.encode_int64_vec(&t, list!(i64), &mut b),
                    7 => e.encode_uint32(&t, &(x as u32), &mut b), 8 => e.encode_uint32_vec(&t, list!(u32), &mut b), 9 => e.encode_uint64(&t, &x, &mut b), 10 => e.encode_uint64_vec(&t, &v, &mut b),
                    11 => e.encode_float(&t, &f32::from_bits(x as u32), &mut b), 12 => e.encode_float_vec(&t, &v.iter().map(|x| f32::from_bits(*x as u32)).collect(), &mut b),
                    13 => e.encode_double(&t, &f64::from_bits(x), &mut b), 14 => e.encode_double_vec(&t, &v.iter().map(|x| f64::from_bits(*x)).collect(), &mut b),
                    15 => e.encode_sint32(&t, &(x as i32), &mut b), 16 => e.encode_sint32_vec(&t, list!(i32), &mut b), 17 => e.encode_sint64(&t, &(x as i64), &mut b), 18 => e.encode_sint64_vec(&t, list!(i64), &mut b),
                    19 => e.encode_fixed32(&t, &(x as u32), &mut b), 20 => e.encode_fixed32_vec(&t, list!(u32), &mut b), 21 => e.encode_fixed64(&t, &x, &mut b), 22 => e.encode_fixed64_vec(&t, &v, &mut b),
                    23 => e.encode_sfixed32(&t, &(x as i32), &mut b), 24 => e.encode_sfixed32_vec(&t, list!(i32), &mut b), 25 => e.encode_sfixed64(&t, &(x as i64), &mut b), 26 => e.encode_sfixed64_vec(&t, list!(i64), &mut b),
                    27 => e.encode((&t, &(x as i64)), &mut b), _ => e.encode((&t, &r.bytes(5)), &mut b),
                };
                o.kind(enc_kind(&res));
                o.num(res.unwrap_or(77777) as u64);
            }
            o.put(&b);
            if k % 4 == 0 && !b.is_empty() { let n = r.below(b.len() as u64) as usize; b[n] = r.next() as u8; }
            if k % 9 == 0 { b = r.bytes(30); }
            let mut d = Decoder::default();
            let (mut buf, mut got) = (vec![], vec![]);
            let mut i = 0;
            while i < b.len() {
                let n = 1 + r.below((b.len() - i) as u64) as usize;
                buf.extend_from_slice(&b[i..i + n]);
                i += n;
                let res = d.decode(&mut buf, &mut got);
                o.kind(dec_kind(&res));
                o.num(res.unwrap_or(77777) as u64);
                o.put(&buf);
            }
            got.push((0, Typ::Unknown, r.bytes(12)));
            for (t, ty, c) in &got {
                o.num(*t as u64); o.num(typ_kind(*ty)); o.put(c);
                back!(o, c.clone(), Bool bool, BoolVec Vec<bool>, Int32 i32, Int32Vec Vec<i32>, Int64 i64, Int64Vec Vec<i64>, UInt32 u32, UInt32Vec Vec<u32>, UInt64 u64, UInt64Vec Vec<u64>,
                    Float f32, FloatVec Vec<f32>, Double f64, DoubleVec Vec<f64>, SInt32 i32, SInt32Vec Vec<i32>, SInt64 i64, SInt64Vec Vec<i64>, Fixed32 u32, Fixed32Vec Vec<u32>, Fixed64 u64, Fixed64Vec Vec<u64>,
                    SFixed32 i32, SFixed32Vec Vec<i32>, SFixed64 i64, SFixed64Vec Vec<i64>, Bytes Vec<u8>, Bytes String, Int32 u64, Fixed64 i32, BoolVec Vec<u32>,);
            }
        });
    }
    o.end("protos");
}
