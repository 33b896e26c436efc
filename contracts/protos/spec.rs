// What the protos crate is supposed to do, written from the Protocol Buffers
// encoding rules and the documentation, independently of the code.
pub mod spec {
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::httlib_protos::{Typ, EncoderError, DecoderError, EncoderLit, DecoderLit, Decoder};

verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- varints
pub open spec fn varint(v: u64) -> Seq<u8>
    decreases v via varint_decreases
{
    if v < 0x80 { seq![v as u8] } else { seq![((v & 0x7f) | 0x80) as u8] + varint(v >> 7) }
}

#[via_fn]
proof fn varint_decreases(v: u64) { if v >= 0x80 { assert(v >> 7 < v) by(bit_vector) requires v >= 0x80; } }

pub enum VR { Good(u64, int), Underflow, Invalid }

// At most ten groups of seven bits, least significant first; only the last one
// has its top bit clear.
pub open spec fn vdec_from(b: Seq<u8>, i: int, acc: u64) -> VR
    decreases 10 - i
{
    if i >= 10 { VR::Invalid }
    else if i >= b.len() || i < 0 { VR::Underflow }
    else {
        let a = acc | (((b[i] & 0x7f) as u64) << ((7 * i) as u64));
        if b[i] <= 0x7f { VR::Good(a, i + 1) } else { vdec_from(b, i + 1, a) }
    }
}
pub open spec fn vdec(b: Seq<u8>) -> VR { vdec_from(b, 0, 0) }

// ---------------------------------------------------------------- scalars
pub open spec fn zz32(v: i32) -> u64 { if v >= 0 { (2 * v) as u64 } else { (-2 * v - 1) as u64 } }
pub open spec fn zz64(v: i64) -> u64 { if v >= 0 { (2 * v) as u64 } else { (-2 * v - 1) as u64 } }
pub open spec fn un_zz32(v: u64) -> i32 { ((v >> 1) as i32) ^ ((-((v & 1) as i32)) as i32) }
pub open spec fn un_zz64(v: u64) -> i64 { ((v >> 1) as i64) ^ ((-((v & 1) as i64)) as i64) }

pub open spec fn e_bool(v: bool) -> Seq<u8> { varint(if v { 1 } else { 0 }) }
pub open spec fn e_int32(v: i32) -> Seq<u8> { varint(v as u64) }
pub open spec fn e_int64(v: i64) -> Seq<u8> { varint(v as u64) }
pub open spec fn e_uint32(v: u32) -> Seq<u8> { varint(v as u64) }
pub open spec fn e_uint64(v: u64) -> Seq<u8> { varint(v) }
pub open spec fn e_sint32(v: i32) -> Seq<u8> { varint(zz32(v)) }
pub open spec fn e_sint64(v: i64) -> Seq<u8> { varint(zz64(v)) }
pub open spec fn e_fixed32(v: u32) -> Seq<u8> { le4(v) }
pub open spec fn e_fixed64(v: u64) -> Seq<u8> { le8(v) }
pub open spec fn e_sfixed32(v: i32) -> Seq<u8> { le4(v as u32) }
pub open spec fn e_sfixed64(v: i64) -> Seq<u8> { le8(v as u64) }
pub open spec fn e_float(v: f32) -> Seq<u8> { le4(f32_bits(v)) }
pub open spec fn e_double(v: f64) -> Seq<u8> { le8(f64_bits(v)) }

// Decoders of one value: the value and the number of bytes it took.
pub open spec fn d_bool(b: Seq<u8>) -> Option<(bool, int)> { match vdec(b) { VR::Good(v, n) => Some((v != 0, n)), _ => None } }
pub open spec fn d_int32(b: Seq<u8>) -> Option<(i32, int)> { match vdec(b) { VR::Good(v, n) => Some((v as i32, n)), _ => None } }
pub open spec fn d_int64(b: Seq<u8>) -> Option<(i64, int)> { match vdec(b) { VR::Good(v, n) => Some((v as i64, n)), _ => None } }
pub open spec fn d_uint32(b: Seq<u8>) -> Option<(u32, int)> { match vdec(b) { VR::Good(v, n) => Some((v as u32, n)), _ => None } }
pub open spec fn d_uint64(b: Seq<u8>) -> Option<(u64, int)> { match vdec(b) { VR::Good(v, n) => Some((v, n)), _ => None } }
pub open spec fn d_sint32(b: Seq<u8>) -> Option<(i32, int)> { match vdec(b) { VR::Good(v, n) => Some((un_zz32(v), n)), _ => None } }
pub open spec fn d_sint64(b: Seq<u8>) -> Option<(i64, int)> { match vdec(b) { VR::Good(v, n) => Some((un_zz64(v), n)), _ => None } }
pub open spec fn d_fixed32(b: Seq<u8>) -> Option<(u32, int)> { if b.len() >= 4 { Some((un4(b), 4)) } else { None } }
pub open spec fn d_fixed64(b: Seq<u8>) -> Option<(u64, int)> { if b.len() >= 8 { Some((un8(b), 8)) } else { None } }
pub open spec fn d_sfixed32(b: Seq<u8>) -> Option<(i32, int)> { if b.len() >= 4 { Some((un4(b) as i32, 4)) } else { None } }
pub open spec fn d_sfixed64(b: Seq<u8>) -> Option<(i64, int)> { if b.len() >= 8 { Some((un8(b) as i64, 8)) } else { None } }
// Floating-point numbers are compared by bit pattern.
pub open spec fn d_float(b: Seq<u8>) -> Option<(u32, int)> { d_fixed32(b) }
pub open spec fn d_double(b: Seq<u8>) -> Option<(u64, int)> { d_fixed64(b) }

// ---------------------------------------------------------------- packed repeated values
pub open spec fn ef_bool() -> spec_fn(bool) -> Seq<u8> { |x: bool| e_bool(x) }
pub open spec fn df_bool() -> spec_fn(Seq<u8>) -> Option<(bool, int)> { |b: Seq<u8>| d_bool(b) }
pub open spec fn ef_float() -> spec_fn(f32) -> Seq<u8> { |x: f32| e_float(x) }
pub open spec fn df_float() -> spec_fn(Seq<u8>) -> Option<(u32, int)> { |b: Seq<u8>| d_float(b) }
pub open spec fn ef_double() -> spec_fn(f64) -> Seq<u8> { |x: f64| e_double(x) }
pub open spec fn df_double() -> spec_fn(Seq<u8>) -> Option<(u64, int)> { |b: Seq<u8>| d_double(b) }
pub open spec fn ef_int32() -> spec_fn(i32) -> Seq<u8> { |x: i32| e_int32(x) }
pub open spec fn df_int32() -> spec_fn(Seq<u8>) -> Option<(i32, int)> { |b: Seq<u8>| d_int32(b) }
pub open spec fn ef_int64() -> spec_fn(i64) -> Seq<u8> { |x: i64| e_int64(x) }
pub open spec fn df_int64() -> spec_fn(Seq<u8>) -> Option<(i64, int)> { |b: Seq<u8>| d_int64(b) }
pub open spec fn ef_uint32() -> spec_fn(u32) -> Seq<u8> { |x: u32| e_uint32(x) }
pub open spec fn df_uint32() -> spec_fn(Seq<u8>) -> Option<(u32, int)> { |b: Seq<u8>| d_uint32(b) }
pub open spec fn ef_uint64() -> spec_fn(u64) -> Seq<u8> { |x: u64| e_uint64(x) }
pub open spec fn df_uint64() -> spec_fn(Seq<u8>) -> Option<(u64, int)> { |b: Seq<u8>| d_uint64(b) }
pub open spec fn ef_sint32() -> spec_fn(i32) -> Seq<u8> { |x: i32| e_sint32(x) }
pub open spec fn df_sint32() -> spec_fn(Seq<u8>) -> Option<(i32, int)> { |b: Seq<u8>| d_sint32(b) }
pub open spec fn ef_sint64() -> spec_fn(i64) -> Seq<u8> { |x: i64| e_sint64(x) }
pub open spec fn df_sint64() -> spec_fn(Seq<u8>) -> Option<(i64, int)> { |b: Seq<u8>| d_sint64(b) }
pub open spec fn ef_fixed32() -> spec_fn(u32) -> Seq<u8> { |x: u32| e_fixed32(x) }
pub open spec fn df_fixed32() -> spec_fn(Seq<u8>) -> Option<(u32, int)> { |b: Seq<u8>| d_fixed32(b) }
pub open spec fn ef_fixed64() -> spec_fn(u64) -> Seq<u8> { |x: u64| e_fixed64(x) }
pub open spec fn df_fixed64() -> spec_fn(Seq<u8>) -> Option<(u64, int)> { |b: Seq<u8>| d_fixed64(b) }
pub open spec fn ef_sfixed32() -> spec_fn(i32) -> Seq<u8> { |x: i32| e_sfixed32(x) }
pub open spec fn df_sfixed32() -> spec_fn(Seq<u8>) -> Option<(i32, int)> { |b: Seq<u8>| d_sfixed32(b) }
pub open spec fn ef_sfixed64() -> spec_fn(i64) -> Seq<u8> { |x: i64| e_sfixed64(x) }
pub open spec fn df_sfixed64() -> spec_fn(Seq<u8>) -> Option<(i64, int)> { |b: Seq<u8>| d_sfixed64(b) }
pub open spec fn penc<T>(e: spec_fn(T) -> Seq<u8>, s: Seq<T>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { penc(e, s.drop_last()) + e(s.last()) }
}
// None: the bytes are not a sequence of whole values.
pub open spec fn pdec<T>(d: spec_fn(Seq<u8>) -> Option<(T, int)>, b: Seq<u8>) -> Option<Seq<T>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else {
        match d(b) {
            Some((v, n)) => if 0 < n <= b.len() {
                match pdec(d, b.skip(n)) { Some(s) => Some(seq![v] + s), None => None }
            } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn bits32(s: Seq<f32>) -> Seq<u32> { s.map_values(|v: f32| f32_bits(v)) }
#[verifier::opaque]
pub open spec fn bits64(s: Seq<f64>) -> Seq<u64> { s.map_values(|v: f64| f64_bits(v)) }
pub broadcast proof fn lemma_bits32_len(s: Seq<f32>)
    ensures (#[trigger] bits32(s)).len() == s.len()
{ reveal(bits32); }
pub broadcast proof fn lemma_bits32_at(s: Seq<f32>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] bits32(s)[i] == f32_bits(s[i])
{ reveal(bits32); }
pub broadcast proof fn lemma_bits32_push(s: Seq<f32>, v: f32)
    ensures #[trigger] bits32(s.push(v)) == bits32(s).push(f32_bits(v))
{ reveal(bits32); assert(bits32(s.push(v)) =~= bits32(s).push(f32_bits(v))); }
pub broadcast proof fn lemma_bits64_len(s: Seq<f64>)
    ensures (#[trigger] bits64(s)).len() == s.len()
{ reveal(bits64); }
pub broadcast proof fn lemma_bits64_at(s: Seq<f64>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] bits64(s)[i] == f64_bits(s[i])
{ reveal(bits64); }
pub broadcast proof fn lemma_bits64_push(s: Seq<f64>, v: f64)
    ensures #[trigger] bits64(s.push(v)) == bits64(s).push(f64_bits(v))
{ reveal(bits64); assert(bits64(s.push(v)) =~= bits64(s).push(f64_bits(v))); }
pub broadcast proof fn lemma_bits32_all(s: Seq<f32>)
    ensures #[trigger] bits32(s.skip(0)) == bits32(s)
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_bits64_all(s: Seq<f64>)
    ensures #[trigger] bits64(s.skip(0)) == bits64(s)
{ assert(s.skip(0) =~= s); }
pub broadcast group group_floats { lemma_bits32_all, lemma_bits64_all, lemma_bits32_len, lemma_bits32_at, lemma_bits32_push, lemma_bits64_len, lemma_bits64_at, lemma_bits64_push }

// ---------------------------------------------------------------- fields
pub open spec fn tag_ok(tag: u32) -> bool { 1 <= tag <= 0x1fff_ffff }
pub open spec fn typ_num(t: Typ) -> u32 {
    match t { Typ::Varint => 0, Typ::Bit64 => 1, Typ::LengthDelimited => 2, Typ::Bit32 => 5, Typ::Unknown => 7 }
}
pub open spec fn e_key(tag: u32, t: Typ) -> Seq<u8> { varint(((tag << 3) | typ_num(t)) as u64) }
pub open spec fn e_bytes(s: Seq<u8>) -> Seq<u8> { varint(s.len() as u64) + s }
pub open spec fn e_packed<T>(e: spec_fn(T) -> Seq<u8>, s: Seq<T>) -> Seq<u8> { e_bytes(penc(e, s)) }
pub open spec fn e_field(tag: u32, t: Typ, payload: Seq<u8>) -> Seq<u8> { e_key(tag, t) + payload }

pub open spec fn lit_typ(l: EncoderLit) -> Typ {
    match l {
        EncoderLit::Bool(_) | EncoderLit::Int32(_) | EncoderLit::Int64(_) | EncoderLit::UInt32(_) | EncoderLit::UInt64(_)
            | EncoderLit::SInt32(_) | EncoderLit::SInt64(_) => Typ::Varint,
        EncoderLit::Float(_) | EncoderLit::Fixed32(_) | EncoderLit::SFixed32(_) => Typ::Bit32,
        EncoderLit::Double(_) | EncoderLit::Fixed64(_) | EncoderLit::SFixed64(_) => Typ::Bit64,
        _ => Typ::LengthDelimited,
    }
}
// The bytes after the key (for length-delimited ones: without the length).
pub open spec fn lit_bytes(l: EncoderLit) -> Seq<u8> {
    match l {
        EncoderLit::Bytes(v) => v@,
        EncoderLit::Bool(v) => e_bool(*v),
        EncoderLit::BoolVec(v) => penc(ef_bool(), v@),
        EncoderLit::Int32(v) => e_int32(*v),
        EncoderLit::Int32Vec(v) => penc(ef_int32(), v@),
        EncoderLit::Int64(v) => e_int64(*v),
        EncoderLit::Int64Vec(v) => penc(ef_int64(), v@),
        EncoderLit::UInt32(v) => e_uint32(*v),
        EncoderLit::UInt32Vec(v) => penc(ef_uint32(), v@),
        EncoderLit::UInt64(v) => e_uint64(*v),
        EncoderLit::UInt64Vec(v) => penc(ef_uint64(), v@),
        EncoderLit::Float(v) => e_float(*v),
        EncoderLit::FloatVec(v) => penc(ef_float(), v@),
        EncoderLit::Double(v) => e_double(*v),
        EncoderLit::DoubleVec(v) => penc(ef_double(), v@),
        EncoderLit::SInt32(v) => e_sint32(*v),
        EncoderLit::SInt32Vec(v) => penc(ef_sint32(), v@),
        EncoderLit::SInt64(v) => e_sint64(*v),
        EncoderLit::SInt64Vec(v) => penc(ef_sint64(), v@),
        EncoderLit::Fixed32(v) => e_fixed32(*v),
        EncoderLit::Fixed32Vec(v) => penc(ef_fixed32(), v@),
        EncoderLit::Fixed64(v) => e_fixed64(*v),
        EncoderLit::Fixed64Vec(v) => penc(ef_fixed64(), v@),
        EncoderLit::SFixed32(v) => e_sfixed32(*v),
        EncoderLit::SFixed32Vec(v) => penc(ef_sfixed32(), v@),
        EncoderLit::SFixed64(v) => e_sfixed64(*v),
        EncoderLit::SFixed64Vec(v) => penc(ef_sfixed64(), v@),
    }
}
pub open spec fn lit_payload(l: EncoderLit) -> Seq<u8> {
    if lit_typ(l) == Typ::LengthDelimited { e_bytes(lit_bytes(l)) } else { lit_bytes(l) }
}
pub open spec fn field_enc(tag: u32, l: EncoderLit) -> Seq<u8> { e_field(tag, lit_typ(l), lit_payload(l)) }

// Outcome of writing `bytes` to a sink that held `o`.
pub open spec fn wrote(o: Seq<u8>, rel: bool, f: Seq<u8>, bytes: Seq<u8>, r: Result<usize, EncoderError>) -> bool {
    match r {
        Ok(n) => f == o + bytes && n == bytes.len(),
        Err(e) => e == EncoderError::Interrupted && !rel && partial(o, f, bytes),
    }
}
pub open spec fn wrote_field(tag: u32, o: Seq<u8>, rel: bool, f: Seq<u8>, bytes: Seq<u8>, r: Result<usize, EncoderError>) -> bool {
    if tag_ok(tag) { wrote(o, rel, f, bytes, r) } else { f == o && r == Err::<usize, EncoderError>(EncoderError::InvalidTag) }
}

// ---------------------------------------------------------------- messages
pub enum KR { Good(u32, Typ, int), Underflow, Invalid }
pub open spec fn typ_of(n: u64) -> Typ {
    if n == 0 { Typ::Varint } else if n == 1 { Typ::Bit64 } else if n == 2 { Typ::LengthDelimited } else if n == 5 { Typ::Bit32 } else { Typ::Unknown }
}
pub open spec fn kdec(b: Seq<u8>) -> KR {
    match vdec(b) {
        VR::Good(k, n) =>
            if k > 0xffff_ffff || (k >> 3) == 0 || typ_of(k & 7) == Typ::Unknown { KR::Invalid }
            else { KR::Good((k >> 3) as u32, typ_of(k & 7), n) },
        VR::Underflow => KR::Underflow,
        VR::Invalid => KR::Invalid,
    }
}

pub struct DSt { pub tag: u32, pub typ: Typ, pub ld: Option<u64> }
pub struct Field { pub tag: u32, pub typ: Typ, pub bytes: Seq<u8> }

pub open spec fn idle() -> DSt { DSt { tag: 0, typ: Typ::Unknown, ld: None } }
pub open spec fn dst_ok(s: DSt) -> bool {
    &&& s.ld is Some ==> s.typ == Typ::LengthDelimited
    &&& s.typ == Typ::Unknown ==> s.tag == 0
}

pub enum Step { More, Bad, Go(int, DSt, Option<Field>) }
pub open spec fn take_field(s: DSt, b: Seq<u8>, n: int) -> Step {
    Step::Go(n, idle(), Some(Field { tag: s.tag, typ: s.typ, bytes: b.take(n) }))
}
pub open spec fn step(s: DSt, b: Seq<u8>) -> Step {
    match s.typ {
        Typ::Unknown => match kdec(b) {
            KR::Good(tag, typ, n) => Step::Go(n, DSt { tag, typ, ld: None }, None),
            KR::Underflow => Step::More,
            KR::Invalid => Step::Bad,
        },
        Typ::Varint => match vdec(b) {
            VR::Good(_, n) => take_field(s, b, n),
            VR::Underflow => Step::More,
            VR::Invalid => Step::Bad,
        },
        Typ::Bit32 => if b.len() >= 4 { take_field(s, b, 4) } else { Step::More },
        Typ::Bit64 => if b.len() >= 8 { take_field(s, b, 8) } else { Step::More },
        Typ::LengthDelimited => match s.ld {
            None => match vdec(b) {
                VR::Good(len, n) => Step::Go(n, DSt { tag: s.tag, typ: s.typ, ld: Some(len) }, None),
                VR::Underflow => Step::More,
                VR::Invalid => Step::Bad,
            },
            Some(len) => if b.len() >= len { take_field(s, b, len as int) } else { Step::More },
        },
    }
}
pub open spec fn measure(s: DSt, b: Seq<u8>) -> nat { (2 * b.len() + if s.typ == Typ::Unknown { 0int } else { 1 }) as nat }

// Outcome of feeding `b` to a decoder in state `s`: the fields it delivers, the
// bytes it leaves, the state it is left in, and whether it stopped on an error.
pub struct Out { pub fields: Seq<Field>, pub rest: Seq<u8>, pub st: DSt, pub ok: bool }
pub open spec fn run(s: DSt, b: Seq<u8>) -> Out
    decreases measure(s, b)
{
    match step(s, b) {
        Step::More => Out { fields: Seq::empty(), rest: b, st: s, ok: true },
        Step::Bad => Out { fields: Seq::empty(), rest: b, st: s, ok: false },
        Step::Go(n, s2, f) =>
            if 0 <= n <= b.len() && measure(s2, b.skip(n)) < measure(s, b) {
                let o = run(s2, b.skip(n));
                Out { fields: opt_seq(f) + o.fields, rest: o.rest, st: o.st, ok: o.ok }
            } else { Out { fields: Seq::empty(), rest: b, st: s, ok: true } },
    }
}
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }

pub open spec fn fields_of(v: Seq<(u32, Typ, Vec<u8>)>) -> Seq<Field> {
    v.map_values(|f: (u32, Typ, Vec<u8>)| Field { tag: f.0, typ: f.1, bytes: f.2@ })
}

// What one step of a decoder does to its state, its input and the fields delivered.
pub open spec fn step_post(s0: DSt, b0: Seq<u8>, d0: Seq<Field>, s1: DSt, b1: Seq<u8>, d1: Seq<Field>, r: Result<usize, DecoderError>) -> bool {
    match step(s0, b0) {
        Step::More => r == Ok::<usize, DecoderError>(0) && s1 == s0 && b1 == b0 && d1 == d0,
        Step::Bad => r is Err && s1 == s0 && b1 == b0 && d1 == d0,
        Step::Go(n, s2, f) => r == Ok::<usize, DecoderError>(n as usize) && s1 == s2 && b1 == b0.skip(n) && d1 == d0 + opt_seq(f),
    }
}
// What `decode` does, given the outcome `o` that it should have.
pub open spec fn run_post(o: Out, b0: Seq<u8>, d0: Seq<Field>, s1: DSt, b1: Seq<u8>, d1: Seq<Field>, r: Result<usize, DecoderError>) -> bool {
    &&& s1 == o.st
    &&& b1 == o.rest
    &&& d1 == d0 + o.fields
    &&& if o.ok { r == Ok::<usize, DecoderError>((b0.len() - b1.len()) as usize) } else { r is Err }
}
pub open spec fn run_state(o: Out, d0: Seq<Field>, s: DSt, b: Seq<u8>, d: Seq<Field>) -> bool {
    let p = run(s, b);
    d0 + o.fields == d + p.fields && o.rest == p.rest && o.st == p.st && o.ok == p.ok
}

// =================================================================== lemmas
pub proof fn lemma_varint_len(v: u64)
    ensures 1 <= varint(v).len() <= 10,
        v < 0x80 ==> varint(v).len() == 1,
        v < 0x1_0000_0000 ==> varint(v).len() <= 5,
{
    reveal_with_fuel(varint, 11);
    assert((((((((((v >> 7) >> 7) >> 7) >> 7) >> 7) >> 7) >> 7) >> 7) >> 7) < 0x80) by(bit_vector);
    assert(v < 0x1_0000_0000 ==> ((((v >> 7) >> 7) >> 7) >> 7) < 0x80) by(bit_vector);
}

pub proof fn lemma_vdec_bounds(b: Seq<u8>, i: int, acc: u64)
    requires 0 <= i
    ensures match vdec_from(b, i, acc) { VR::Good(_, n) => i < n <= 10 && n <= b.len(), _ => true }
    decreases 10 - i
{
    if i < 10 && i < b.len() && b[i] > 0x7f {
        lemma_vdec_bounds(b, i + 1, acc | (((b[i] & 0x7f) as u64) << ((7 * i) as u64)));
    }
}

// Adding bytes behind a complete (or invalid) varint changes nothing.
pub proof fn lemma_vdec_extend(b: Seq<u8>, c: Seq<u8>, i: int, acc: u64)
    requires 0 <= i <= b.len()
    ensures !(vdec_from(b, i, acc) is Underflow) ==> vdec_from(b + c, i, acc) == vdec_from(b, i, acc)
    decreases 10 - i
{
    if i < 10 && i < b.len() {
        assert((b + c)[i] == b[i]);
        if b[i] > 0x7f { lemma_vdec_extend(b, c, i + 1, acc | (((b[i] & 0x7f) as u64) << ((7 * i) as u64))); }
    }
}

// T: decoding what was encoded gives the value back, whatever follows.
proof fn lemma_varint_rt_from(v: u64, w: u64, rest: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i < 10,
        w == v >> ((7 * i) as u64),
        i > 0 ==> w > 0,
        b.len() >= i,
        b.skip(i) == varint(w) + rest,
    ensures vdec_from(b, i, v & sub(1u64 << ((7 * i) as u64), 1)) == VR::Good(v, i + varint(w).len())
    decreases 10 - i
{
    reveal_with_fuel(varint, 2);
    let s = (7 * i) as u64;
    let acc = v & sub(1u64 << s, 1);
    assert(varint(w).len() >= 1) by { lemma_varint_len(w); }
    assert(b.skip(i).len() == b.len() - i);
    assert(b[i] == b.skip(i)[0]);
    assert(varint(w).len() >= 1) by { lemma_varint_len(w); }
    assert(b[i] == varint(w)[0]);
    if w < 0x80 {
        assert(((w as u8) & 0x7f) == w as u8 && (w as u8) <= 0x7f && ((w as u8) as u64 == w)) by(bit_vector) requires w < 0x80;
        assert((v & sub(1u64 << s, 1)) | ((v >> s) << s) == v) by(bit_vector) requires s < 64;
        assert(acc | (w << s) == v);
    } else {
        let byte = ((w & 0x7f) | 0x80) as u8;
        assert(byte > 0x7f && (byte & 0x7f) as u64 == (w & 0x7f)) by(bit_vector) requires byte == ((w & 0x7f) | 0x80) as u8;
        let w2 = w >> 7;
        let s2 = (7 * (i + 1)) as u64;
        // there is a next byte only below the tenth
        if i == 9 {
            assert(v >> 63 < 0x80) by(bit_vector);
        }
        assert(w2 == v >> s2 && w2 > 0) by(bit_vector) requires w == v >> s, w2 == w >> 7, s2 == s + 7, s2 < 64, w >= 0x80;
        assert((v & sub(1u64 << s, 1)) | (((v >> s) & 0x7f) << s) == v & sub(1u64 << s2, 1)) by(bit_vector) requires s2 == s + 7, s2 < 64;
        assert(acc | (((byte & 0x7f) as u64) << s) == v & sub(1u64 << s2, 1));
        assert(b.skip(i + 1) =~= varint(w2) + rest) by {
            assert(b.skip(i + 1) =~= b.skip(i).skip(1));
            assert(varint(w) =~= seq![byte] + varint(w2));
        }
        lemma_varint_rt_from(v, w2, rest, b, i + 1);
    }
}
pub proof fn thm_varint_round_trip(v: u64, rest: Seq<u8>)
    ensures vdec(varint(v) + rest) == VR::Good(v, varint(v).len() as int)
{
    let b = varint(v) + rest;
    assert(v >> 0u64 == v) by(bit_vector);
    assert(v & sub(1u64 << 0u64, 1) == 0) by(bit_vector);
    assert(b.skip(0) =~= b);
    lemma_varint_rt_from(v, v, rest, b, 0);
}

// T: no byte sequence that decodes to v is shorter than the encoding of v.
proof fn lemma_varint_min_from(b: Seq<u8>, i: int, acc: u64)
    requires 0 <= i < 10, acc < 1u64 << ((7 * i) as u64)
    ensures match vdec_from(b, i, acc) { VR::Good(v, n) => n < 10 ==> v < 1u64 << ((7 * n) as u64), _ => true }
    decreases 10 - i
{
    if i < b.len() && i < 9 {
        let s = (7 * i) as u64;
        let x = b[i];
        let s2 = (7 * (i + 1)) as u64;
        assert((acc | (((x & 0x7f) as u64) << s)) < 1u64 << s2) by(bit_vector) requires acc < 1u64 << s, s2 == s + 7, s2 < 64;
        if x > 0x7f { lemma_varint_min_from(b, i + 1, acc | (((x & 0x7f) as u64) << s)); }
    } else if i == 9 {
        reveal_with_fuel(vdec_from, 2);
    }
}
pub proof fn thm_varint_minimal(b: Seq<u8>)
    ensures match vdec(b) { VR::Good(v, n) => varint(v).len() <= n, _ => true }
{
    assert(0u64 < 1u64 << 0u64) by(bit_vector);
    lemma_varint_min_from(b, 0, 0);
    lemma_vdec_bounds(b, 0, 0);
    match vdec(b) {
        VR::Good(v, n) => {
            lemma_varint_len(v);
            if n < 10 { lemma_varint_short(v, n); }
        }
        _ => {}
    }
}
proof fn lemma_varint_short(v: u64, n: int)
    requires 1 <= n < 10, v < 1u64 << ((7 * n) as u64)
    ensures varint(v).len() <= n
    decreases n
{
    let s = (7 * n) as u64;
    if v >= 0x80 {
        if n == 1 { assert(1u64 << 7u64 == 0x80) by(bit_vector); }
        let s1 = (7 * (n - 1)) as u64;
        assert(v >> 7 < 1u64 << s1) by(bit_vector) requires v < 1u64 << s, s == s1 + 7, s < 64;
        lemma_varint_short(v >> 7, n - 1);
    }
}

// ---------------------------------------------------------------- writing piecewise
pub broadcast proof fn lemma_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_partial_prefix(o: Seq<u8>, f: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires partial(o, f, a)
    ensures #[trigger] partial(o, f, a + b)
{
    reveal(partial);
    let k = choose|k: int| 0 <= k <= a.len() && f == o + #[trigger] a.take(k);
    assert((a + b).take(k) =~= a.take(k));
}
pub broadcast proof fn lemma_partial_seq(o: Seq<u8>, a: Seq<u8>, f: Seq<u8>, b: Seq<u8>)
    requires #[trigger] partial(o + a, f, b)
    ensures partial(o, f, a + b)
{
    reveal(partial);
    let k = choose|k: int| 0 <= k <= b.len() && f == (o + a) + #[trigger] b.take(k);
    assert((a + b).take(a.len() + k) =~= a + b.take(k));
    assert((o + a) + b.take(k) =~= o + (a + b.take(k)));
}
pub broadcast group group_write { lemma_add_assoc, lemma_partial_prefix, lemma_partial_seq, lemma_varint_len_b }

// The state of a loop that has written the first n bytes of varint(v0) and has
// varint(v) left to write.
pub open spec fn varint_state(v0: u64, v: u64, n: int) -> bool {
    0 <= n && n + varint(v).len() == varint(v0).len() && varint(v0) == varint(v0).take(n) + varint(v)
}
pub open spec fn varint_ready(o: Seq<u8>, v0: u64, v: u64, n: int) -> bool {
    &&& (forall|f: Seq<u8>, d: Seq<u8>| #[trigger] partial(o + varint(v0).take(n), f, d) && d =~= (if v < 0x80 { seq![v as u8] } else { seq![((v & 0x7f) | 0x80) as u8] }) ==> partial(o, f, varint(v0)))
    &&& (n + 1 <= 10)
    &&& (v < 0x80 ==> varint(v0).len() == n + 1 && (v as u8) & 0x7f == v as u8)
    &&& (v < 0x80 ==> forall|d: Seq<u8>| d =~= seq![v as u8] ==> #[trigger] ((o + varint(v0).take(n)) + d) == o + varint(v0))
    &&& (v >= 0x80 ==> {
            &&& varint(v) == seq![((v & 0x7f) | 0x80) as u8] + varint(v >> 7)
            &&& v >> 7 < v
            &&& varint(v0).take(n + 1) == varint(v0).take(n) + seq![((v & 0x7f) | 0x80) as u8]
            &&& varint_state(v0, v >> 7, n + 1)
            &&& varint(v0) == (varint(v0).take(n) + seq![((v & 0x7f) | 0x80) as u8]) + varint(v >> 7)
        })
    &&& varint_state(v0, v, n)
    &&& byte_forms(v)
}
// The ways in which seven bits are usually taken from a number.
pub open spec fn byte_forms(v: u64) -> bool {
    let b = ((v & 0x7f) | 0x80) as u8;
    &&& (v as u8) | 0x80 == b && ((v as u8) & 0x7f) | 0x80 == b && ((v & 0x7f) as u8) | 0x80 == b && (v | 0x80) as u8 == b
    &&& v >> 7 == v / 128 && v & 0x7f == v % 128 && (v % 128 + 128) as u8 == b && (v & 0x7f) + 128 == ((v & 0x7f) | 0x80) && 0x80 | (v & 0x7f) == (v & 0x7f) | 0x80
    &&& (v & 0xff) as u8 == v as u8 && (v < 0x80 ==> (v & 0x7f) as u8 == v as u8 && v & 0x7f == v) && (v >> 7 == 0 <==> v < 0x80) && (v & !0x7f == 0 <==> v < 0x80)
}
pub proof fn lemma_byte_forms(v: u64)
    ensures byte_forms(v)
{
    let b = ((v & 0x7f) | 0x80) as u8;
    assert((v as u8) | 0x80 == ((v & 0x7f) | 0x80) as u8 && ((v as u8) & 0x7f) | 0x80 == ((v & 0x7f) | 0x80) as u8 && ((v & 0x7f) as u8) | 0x80 == ((v & 0x7f) | 0x80) as u8 && (v | 0x80) as u8 == ((v & 0x7f) | 0x80) as u8) by (bit_vector);
    assert(v >> 7 == v / 128 && v & 0x7f == v % 128 && add(v & 0x7f, 128) == ((v & 0x7f) | 0x80) && (v & 0x7f) < 128 && 0x80 | (v & 0x7f) == (v & 0x7f) | 0x80) by (bit_vector);
    assert((v & 0xff) as u8 == v as u8 && (v < 0x80 ==> (v & 0x7f) as u8 == v as u8 && v & 0x7f == v) && (v >> 7 == 0 <==> v < 0x80) && (v & !0x7f == 0 <==> v < 0x80)) by (bit_vector);
}
pub proof fn lemma_varint_state(o: Seq<u8>, v0: u64, v: u64, n: int)
    requires varint_state(v0, v, n)
    ensures varint_ready(o, v0, v, n)
{
    lemma_byte_forms(v);
    lemma_varint_len(v0);
    lemma_varint_len(v);
    let y = if v < 0x80 { seq![v as u8] } else { seq![((v & 0x7f) | 0x80) as u8] };
    assert forall|f: Seq<u8>, d: Seq<u8>| #[trigger] partial(o + varint(v0).take(n), f, d) && d =~= y implies partial(o, f, varint(v0)) by {
        lemma_partial_seq(o, varint(v0).take(n), f, y);
        let z = if v < 0x80 { Seq::empty() } else { varint(v >> 7) };
        lemma_partial_prefix(o, f, varint(v0).take(n) + y, z);
        assert((varint(v0).take(n) + y) + z =~= varint(v0));
    }
    if v < 0x80 {
        assert(((v as u8) & 0x7f) == v as u8) by(bit_vector) requires v < 0x80;
        assert forall|d: Seq<u8>| d =~= seq![v as u8] implies #[trigger] ((o + varint(v0).take(n)) + d) == o + varint(v0) by {
            assert((o + varint(v0).take(n)) + d =~= o + varint(v0));
        }
    }
    if v >= 0x80 {
        assert(v >> 7 < v) by(bit_vector) requires v >= 0x80;
        let x = seq![((v & 0x7f) | 0x80) as u8];
        assert(varint(v) == x + varint(v >> 7));
        assert(varint(v0).take(n + 1) =~= varint(v0).take(n) + x) by {
            assert(varint(v0)[n] == varint(v)[0]);
        }
        assert(varint(v0) =~= (varint(v0).take(n) + x) + varint(v >> 7));
        assert(varint(v).len() == 1 + varint(v >> 7).len());
    }
}
pub broadcast proof fn lemma_varint_len_b(v: u64)
    ensures 1 <= #[trigger] varint(v).len() <= 10
{ lemma_varint_len(v); }
pub broadcast proof fn lemma_zz32(v: i32)
    ensures #[trigger] ((v << 1) ^ (v >> 31)) as u32 as u64 == zz32(v)
{
    assert(v >= 0 ==> ((v << 1) ^ (v >> 31)) as u32 as u64 == (2 * v) as u64) by(bit_vector);
    assert(v < 0 ==> ((v << 1) ^ (v >> 31)) as u32 as u64 == (-2 * v - 1) as u64) by(bit_vector);
}
pub broadcast proof fn lemma_zz64(v: i64)
    ensures #[trigger] ((v << 1) ^ (v >> 63)) as u64 == zz64(v)
{
    assert(v >= 0 ==> ((v << 1) ^ (v >> 63)) as u64 == (2 * v) as u64) by(bit_vector);
    assert(v < 0 ==> ((v << 1) ^ (v >> 63)) as u64 == (-2 * v - 1) as u64) by(bit_vector);
}
pub broadcast proof fn lemma_shl29(n: u32)
    requires n == 29
    ensures #[trigger] (1u32 << n) == 0x2000_0000
{ assert(1u32 << 29 == 0x2000_0000) by(bit_vector); }


pub open spec fn pdec_join<T>(s: Seq<T>, r: Option<Seq<T>>) -> Option<Seq<T>> { match r { Some(t) => Some(s + t), None => None } }
pub proof fn lemma_pdec_start<T>(d: spec_fn(Seq<u8>) -> Option<(T, int)>, s: Seq<T>, b: Seq<u8>)
    requires s.len() == 0
    ensures pdec(d, b) == pdec_join(s, pdec(d, b.skip(0)))
{
    assert(b.skip(0) =~= b);
    if let Some(t) = pdec(d, b) { assert(s + t =~= t); }
}
pub broadcast proof fn lemma_and1(v: u64)
    ensures #[trigger] (v & 1) <= 1
{ assert(v & 1 <= 1) by(bit_vector); }
// The same tests of an octet, written in other ways.
pub broadcast proof fn lemma_top_bit(b: u8)
    ensures (#[trigger] (b & 0x80) == 0) == (b <= 0x7f), b & 0x80 == 0 || b & 0x80 == 0x80
{ assert(((b & 0x80) == 0) == (b <= 0x7f) && (b & 0x80 == 0 || b & 0x80 == 0x80)) by(bit_vector); }
pub broadcast proof fn lemma_low_bits(b: u8)
    ensures #[trigger] (b & 0x7f) == b % 128, b & 0x7f == 127 - (!b & 0x7f)
{ assert(b & 0x7f == b % 128 && b & 0x7f == 127 - (!b & 0x7f)) by(bit_vector); }
pub broadcast proof fn lemma_zz_shift(v: u64)
    ensures #[trigger] (v >> 1) == v / 2
{ assert(v >> 1 == v / 2) by(bit_vector); }
pub proof fn lemma_pdec_step<T>(d: spec_fn(Seq<u8>) -> Option<(T, int)>, s: Seq<T>, b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures
        b.skip(n) == b.subrange(n, b.len() as int),
        n == b.len() ==> pdec_join(s, pdec(d, b.skip(n))) == Some(s),
        n < b.len() ==> match d(b.skip(n)) {
            Some((v, m)) => 0 < m <= b.len() - n ==> pdec_join(s, pdec(d, b.skip(n))) == pdec_join(s.push(v), pdec(d, b.skip(n + m))),
            None => pdec_join(s, pdec(d, b.skip(n))) is None,
        },
{
    assert(b.skip(n) =~= b.subrange(n, b.len() as int));
    if n == b.len() { assert(s + Seq::empty() =~= s); }
    else if let Some((v, m)) = d(b.skip(n)) {
        if 0 < m <= b.len() - n {
            assert(b.skip(n).skip(m) =~= b.skip(n + m));
            if let Some(t) = pdec(d, b.skip(n + m)) { assert(s.push(v) + t =~= s + (seq![v] + t)); }
        }
    }
}

// ---------------------------------------------------------------- running a decoder
pub broadcast proof fn lemma_fields_push(v: Seq<(u32, Typ, Vec<u8>)>, x: (u32, Typ, Vec<u8>))
    ensures #[trigger] fields_of(v.push(x)) == fields_of(v) + seq![Field { tag: x.0, typ: x.1, bytes: x.2@ }]
{ assert(fields_of(v.push(x)) =~= fields_of(v) + seq![Field { tag: x.0, typ: x.1, bytes: x.2@ }]); }
// A step takes no more than there is and makes progress; it keeps the state well formed.
pub broadcast proof fn lemma_step_go(s: DSt, b: Seq<u8>)
    requires dst_ok(s)
    ensures match #[trigger] step(s, b) {
        Step::Go(n, s2, f) => 0 <= n <= b.len() && measure(s2, b.skip(n)) < measure(s, b) && dst_ok(s2) && (n > 0 || f is Some),
        _ => true,
    }
{
    lemma_vdec_bounds(b, 0, 0);
    match vdec(b) { VR::Good(k, n) => { assert(b.skip(n).len() == b.len() - n); assert(k >> 3 != 0 && k <= 0xffff_ffff ==> ((k >> 3) as u32) != 0) by(bit_vector); } _ => {} }
    if s.ld is Some && s.ld->0 <= b.len() { assert(b.skip(s.ld->0 as int).len() == b.len() - s.ld->0); }
    if b.len() >= 4 { assert(b.skip(4).len() == b.len() - 4); }
    if b.len() >= 8 { assert(b.skip(8).len() == b.len() - 8); }
}
pub proof fn lemma_run_start(s: DSt, b: Seq<u8>, d: Seq<Field>)
    ensures run_state(run(s, b), d, s, b, d)
{}
pub proof fn lemma_run_step(o: Out, d0: Seq<Field>, s: DSt, b: Seq<u8>, d: Seq<Field>)
    requires dst_ok(s), run_state(o, d0, s, b, d)
    ensures match step(s, b) {
        Step::More => d0 + o.fields == d && o.rest == b && o.st == s && o.ok,
        Step::Bad => d0 + o.fields == d && o.rest == b && o.st == s && !o.ok,
        Step::Go(n, s2, f) => run_state(o, d0, s2, b.skip(n), d + opt_seq(f)) && 0 <= n <= b.len() && measure(s2, b.skip(n)) < measure(s, b) && dst_ok(s2),
    }
{
    lemma_step_go(s, b);
    match step(s, b) {
        Step::Go(n, s2, f) => {
            let p = run(s2, b.skip(n));
            assert(d + (opt_seq(f) + p.fields) =~= (d + opt_seq(f)) + p.fields);
        }
        _ => { assert(d + Seq::<Field>::empty() =~= d); }
    }
}

pub proof fn lemma_penc_step<T>(e: spec_fn(T) -> Seq<u8>, s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures penc(e, s.take(i + 1)) == penc(e, s.take(i)) + e(s[i])
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

// =================================================================== theorems
// ---- scalars
// The ways in which the zigzag code is usually computed.
// The ways in which a key is usually put together.
pub proof fn lemma_key_forms(tag: u32, t: Typ)
    ensures tag <= 0x1fff_ffff ==> {
        let n = typ_num(t); let w = (tag as u64) << 3;
        &&& ((tag << 3) | n) as u64 == w | (n as u64)
        &&& w == tag as u64 * 8 && tag << 3 == tag * 8
        &&& (tag << 3) | n == tag * 8 + n && w | (n as u64) == w + n && n | (tag << 3) == (tag << 3) | n
    }
{
    let n = typ_num(t); let m = n as u64; let g = tag as u64;
    if tag <= 0x1fff_ffff {
        assert(((tag << 3) | n) as u64 == ((tag as u64) << 3) | (n as u64) && (tag as u64) << 3 == mul(tag as u64, 8) && tag << 3 == mul(tag, 8) && (tag << 3) | n == add(tag << 3, n) && ((tag as u64) << 3) | (n as u64) == add((tag as u64) << 3, n as u64) && n | (tag << 3) == (tag << 3) | n && (tag << 3) <= 0xffff_fff8) by (bit_vector) requires tag <= 0x1fff_ffff, n <= 7;
    }
}
pub proof fn lemma_zz32_forms(v: i32)
    ensures ((v << 1) ^ (v >> 31)) as u32 as u64 == zz32(v), ((v << 1) as u32 ^ (v >> 31) as u32) as u64 == zz32(v), (((v as u32) << 1) ^ ((v >> 31) as u32)) as u64 == zz32(v),
        ((v as u32) << 1) == (v as u32 * 2) % 0x1_0000_0000, ((v as u32) << 1) == (2 * v as u32) % 0x1_0000_0000,
        v < 0 ==> ((v << 1) as u32 ^ 0xffff_ffffu32) as u64 == zz32(v) && (((v as u32) << 1) ^ 0xffff_ffffu32) as u64 == zz32(v), v >= 0 ==> ((v << 1) as u32 ^ 0) as u64 == zz32(v) && (((v as u32) << 1) ^ 0) as u64 == zz32(v),
        v >> 31 == (if v < 0 { -1i32 } else { 0 }), zz32(v) == (if v < 0 { -2 * v - 1 } else { 2 * v }), v < 0 ==> (!((v << 1) as u32)) as u64 == zz32(v) && ((!v as u32) << 1 | 1) as u64 == zz32(v) && (!(v as u32) << 1 | 1) as u64 == zz32(v) && !v == -1 - v && (!v as u32) == -1 - v && !(v as u32) == -1 - v,
        v < 0 ==> !(v << 1) as u32 as u64 == zz32(v) && !((v as u32) << 1) as u64 == zz32(v), v >= 0 ==> (v << 1) as u32 as u64 == zz32(v) && ((v as u32) << 1) as u64 == zz32(v)
{
    assert(v < 0 ==> ((v << 1) as u32 ^ 0xffff_ffffu32) == ((v << 1) ^ (v >> 31)) as u32 && (((v as u32) << 1) ^ 0xffff_ffffu32) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    assert(v >= 0 ==> ((v << 1) as u32 ^ 0) == ((v << 1) ^ (v >> 31)) as u32 && (((v as u32) << 1) ^ 0) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    let x = v as u32; assert(((x << 1) as u64) == (2 * (x as u64)) % 0x1_0000_0000) by (bit_vector);
    assert(v >> 31 == (if v < 0 { -1i32 } else { 0 })) by (bit_vector);
    assert(v >= 0 ==> ((v << 1) ^ (v >> 31)) as u32 as u64 == 2 * v) by (bit_vector);
    assert(v < 0 ==> ((v << 1) ^ (v >> 31)) as u32 as u64 == -2 * v - 1) by (bit_vector);
    assert(((v << 1) as u32 ^ (v >> 31) as u32) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    assert((((v as u32) << 1) ^ ((v >> 31) as u32)) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    assert(v < 0 ==> !(v << 1) as u32 == ((v << 1) ^ (v >> 31)) as u32 && !((v as u32) << 1) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    assert(v < 0 ==> (!((v << 1) as u32)) == ((v << 1) ^ (v >> 31)) as u32 && ((!v as u32) << 1 | 1) == ((v << 1) ^ (v >> 31)) as u32 && (!(v as u32) << 1 | 1) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
    assert(v < 0 ==> !v >= 0 && !(v as u32) == !v as u32) by (bit_vector); assert(!v == sub(-1i32, v)) by (bit_vector); assert(!v == -1 - v); assert(v < 0 ==> -1 - v >= 0);
    assert(v >= 0 ==> (v << 1) as u32 == ((v << 1) ^ (v >> 31)) as u32 && ((v as u32) << 1) == ((v << 1) ^ (v >> 31)) as u32) by (bit_vector);
}
pub proof fn lemma_zz64_forms(v: i64)
    ensures ((v << 1) ^ (v >> 63)) as u64 == zz64(v), ((v << 1) as u64 ^ (v >> 63) as u64) == zz64(v), (((v as u64) << 1) ^ ((v >> 63) as u64)) == zz64(v),
        ((v as u64) << 1) == (v as u64 * 2) % 0x1_0000_0000_0000_0000, ((v as u64) << 1) == (2 * v as u64) % 0x1_0000_0000_0000_0000,
        v < 0 ==> ((v << 1) as u64 ^ 0xffff_ffff_ffff_ffffu64) == zz64(v) && (((v as u64) << 1) ^ 0xffff_ffff_ffff_ffffu64) == zz64(v), v >= 0 ==> ((v << 1) as u64 ^ 0) == zz64(v) && (((v as u64) << 1) ^ 0) == zz64(v),
        v >> 63 == (if v < 0 { -1i64 } else { 0 }), zz64(v) == (if v < 0 { -2 * v - 1 } else { 2 * v }), v < 0 ==> (!((v << 1) as u64)) == zz64(v) && ((!v as u64) << 1 | 1) == zz64(v) && (!(v as u64) << 1 | 1) == zz64(v) && !v == -1 - v && (!v as u64) == -1 - v && !(v as u64) == -1 - v,
        v < 0 ==> !(v << 1) as u64 == zz64(v) && !((v as u64) << 1) == zz64(v), v >= 0 ==> (v << 1) as u64 == zz64(v) && ((v as u64) << 1) == zz64(v)
{
    lemma_zz64(v);
    assert(v < 0 ==> ((v << 1) as u64 ^ 0xffff_ffff_ffff_ffffu64) == ((v << 1) ^ (v >> 63)) as u64 && (((v as u64) << 1) ^ 0xffff_ffff_ffff_ffffu64) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    assert(v >= 0 ==> ((v << 1) as u64 ^ 0) == ((v << 1) ^ (v >> 63)) as u64 && (((v as u64) << 1) ^ 0) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    let x = v as u64; assert(((x << 1) as u128) == (2 * (x as u128)) % 0x1_0000_0000_0000_0000) by (bit_vector);
    assert(v >> 63 == (if v < 0 { -1i64 } else { 0 })) by (bit_vector);
    assert(((v << 1) as u64 ^ (v >> 63) as u64) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    assert((((v as u64) << 1) ^ ((v >> 63) as u64)) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    assert(v < 0 ==> !(v << 1) as u64 == ((v << 1) ^ (v >> 63)) as u64 && !((v as u64) << 1) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    assert(v < 0 ==> (!((v << 1) as u64)) == ((v << 1) ^ (v >> 63)) as u64 && ((!v as u64) << 1 | 1) == ((v << 1) ^ (v >> 63)) as u64 && (!(v as u64) << 1 | 1) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
    assert(v < 0 ==> !v >= 0 && !(v as u64) == !v as u64) by (bit_vector); assert(!v == sub(-1i64, v)) by (bit_vector); assert(!v == -1 - v); assert(v < 0 ==> -1 - v >= 0);
    assert(v >= 0 ==> (v << 1) as u64 == ((v << 1) ^ (v >> 63)) as u64 && ((v as u64) << 1) == ((v << 1) ^ (v >> 63)) as u64) by (bit_vector);
}
pub proof fn lemma_un_zz32_forms(v: u64)
    ensures v & 1 == v % 2, v >> 1 == v / 2, v & 1 == 0 || v & 1 == 1,
        v & 1 == 1 ==> un_zz32(v) == !((v >> 1) as i32) && un_zz32(v) == !((v >> 1) as u32) as i32 && un_zz32(v) as int == -1 - ((v >> 1) as i32),
        v & 1 == 0 ==> un_zz32(v) == (v >> 1) as i32 && un_zz32(v) == (v >> 1) as u32 as i32
{
    assert(v & 1 == v % 2 && v >> 1 == v / 2 && (v & 1 == 0 || v & 1 == 1)) by (bit_vector);
    let h = (v >> 1) as i32;
    assert(h ^ -1i32 == !h && h ^ 0i32 == h && !h == -1i32 - h) by (bit_vector);
    assert(!((v >> 1) as u32) as i32 == !((v >> 1) as i32) && (v >> 1) as u32 as i32 == (v >> 1) as i32) by (bit_vector);
}
pub proof fn lemma_un_zz64_forms(v: u64)
    ensures v & 1 == v % 2, v >> 1 == v / 2, v & 1 == 0 || v & 1 == 1,
        v & 1 == 1 ==> un_zz64(v) == !((v >> 1) as i64) && un_zz64(v) == !(v >> 1) as i64 && un_zz64(v) as int == -1 - ((v >> 1) as i64),
        v & 1 == 0 ==> un_zz64(v) == (v >> 1) as i64
{
    assert(v & 1 == v % 2 && v >> 1 == v / 2 && (v & 1 == 0 || v & 1 == 1)) by (bit_vector);
    let h = (v >> 1) as i64;
    assert(h ^ -1i64 == !h && h ^ 0i64 == h && !h == -1i64 - h) by (bit_vector);
    assert(!(v >> 1) as i64 == !((v >> 1) as i64)) by (bit_vector);
}
pub proof fn lemma_un_zz32(v: i32)
    ensures un_zz32(zz32(v)) == v
{
    if v >= 0 {
        let w = zz32(v);
        assert(((w >> 1) as i32) ^ ((0 - ((w & 1) as i32)) as i32) == v) by(bit_vector) requires w == (2 * v) as u64, v >= 0;
        assert(w & 1 <= 1) by(bit_vector);
    } else {
        let w = zz32(v);
        assert(((w >> 1) as i32) ^ ((0 - ((w & 1) as i32)) as i32) == v) by(bit_vector) requires w == (-2 * v - 1) as u64, v < 0;
        assert(w & 1 <= 1) by(bit_vector);
    }
}
pub proof fn lemma_un_zz64(v: i64)
    ensures un_zz64(zz64(v)) == v
{
    if v >= 0 {
        let w = zz64(v);
        assert(((w >> 1) as i64) ^ ((0 - ((w & 1) as i64)) as i64) == v) by(bit_vector) requires w == (2 * v) as u64, v >= 0;
        assert(w & 1 <= 1) by(bit_vector);
    } else {
        let w = zz64(v);
        assert(((w >> 1) as i64) ^ ((0 - ((w & 1) as i64)) as i64) == v) by(bit_vector) requires w == (-2 * v - 1) as u64, v < 0;
        assert(w & 1 <= 1) by(bit_vector);
    }
}
pub proof fn lemma_un_le4(v: u32)
    ensures un4(le4(v)) == v
{
    let (a, b, c, d) = (v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8);
    assert((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24) == v) by(bit_vector)
        requires a == v as u8, b == (v >> 8) as u8, c == (v >> 16) as u8, d == (v >> 24) as u8;
}
pub proof fn lemma_un_le8(v: u64)
    ensures un8(le8(v)) == v
{
    let (a, b, c, d) = (v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8);
    let (e, f, g, h) = ((v >> 32) as u8, (v >> 40) as u8, (v >> 48) as u8, (v >> 56) as u8);
    assert((a as u64) | ((b as u64) << 8) | ((c as u64) << 16) | ((d as u64) << 24) | ((e as u64) << 32) | ((f as u64) << 40) | ((g as u64) << 48) | ((h as u64) << 56) == v) by(bit_vector)
        requires a == v as u8, b == (v >> 8) as u8, c == (v >> 16) as u8, d == (v >> 24) as u8,
            e == (v >> 32) as u8, f == (v >> 40) as u8, g == (v >> 48) as u8, h == (v >> 56) as u8;
}
// d undoes e, whatever follows.
pub open spec fn inverse<T>(e: spec_fn(T) -> Seq<u8>, d: spec_fn(Seq<u8>) -> Option<(T, int)>) -> bool {
    forall|v: T, rest: Seq<u8>| #![trigger d(e(v) + rest)] e(v).len() > 0 && d(e(v) + rest) == Some((v, e(v).len() as int))
}
pub proof fn thm_round_trip_bool()
    ensures inverse(ef_bool(), df_bool())
{
    assert forall|v: bool, rest: Seq<u8>| #![trigger df_bool()(ef_bool()(v) + rest)] ef_bool()(v).len() > 0 && df_bool()(ef_bool()(v) + rest) == Some((v, ef_bool()(v).len() as int)) by {
        thm_varint_round_trip(if v { 1 } else { 0 }, rest); lemma_varint_len(if v { 1 } else { 0 });
    }
}
pub proof fn thm_round_trip_int32()
    ensures inverse(ef_int32(), df_int32())
{
    assert forall|v: i32, rest: Seq<u8>| #![trigger df_int32()(ef_int32()(v) + rest)] ef_int32()(v).len() > 0 && df_int32()(ef_int32()(v) + rest) == Some((v, ef_int32()(v).len() as int)) by {
        thm_varint_round_trip(v as u64, rest); lemma_varint_len(v as u64); assert((v as u64) as i32 == v) by(bit_vector);
    }
}
pub proof fn thm_round_trip_int64()
    ensures inverse(ef_int64(), df_int64())
{
    assert forall|v: i64, rest: Seq<u8>| #![trigger df_int64()(ef_int64()(v) + rest)] ef_int64()(v).len() > 0 && df_int64()(ef_int64()(v) + rest) == Some((v, ef_int64()(v).len() as int)) by {
        thm_varint_round_trip(v as u64, rest); lemma_varint_len(v as u64); assert((v as u64) as i64 == v) by(bit_vector);
    }
}
pub proof fn thm_round_trip_uint32()
    ensures inverse(ef_uint32(), df_uint32())
{
    assert forall|v: u32, rest: Seq<u8>| #![trigger df_uint32()(ef_uint32()(v) + rest)] ef_uint32()(v).len() > 0 && df_uint32()(ef_uint32()(v) + rest) == Some((v, ef_uint32()(v).len() as int)) by {
        thm_varint_round_trip(v as u64, rest); lemma_varint_len(v as u64);
    }
}
pub proof fn thm_round_trip_uint64()
    ensures inverse(ef_uint64(), df_uint64())
{
    assert forall|v: u64, rest: Seq<u8>| #![trigger df_uint64()(ef_uint64()(v) + rest)] ef_uint64()(v).len() > 0 && df_uint64()(ef_uint64()(v) + rest) == Some((v, ef_uint64()(v).len() as int)) by {
        thm_varint_round_trip(v as u64, rest); lemma_varint_len(v as u64);
    }
}
pub proof fn thm_round_trip_sint32()
    ensures inverse(ef_sint32(), df_sint32())
{
    assert forall|v: i32, rest: Seq<u8>| #![trigger df_sint32()(ef_sint32()(v) + rest)] ef_sint32()(v).len() > 0 && df_sint32()(ef_sint32()(v) + rest) == Some((v, ef_sint32()(v).len() as int)) by {
        thm_varint_round_trip(zz32(v), rest); lemma_varint_len(zz32(v)); lemma_un_zz32(v);
    }
}
pub proof fn thm_round_trip_sint64()
    ensures inverse(ef_sint64(), df_sint64())
{
    assert forall|v: i64, rest: Seq<u8>| #![trigger df_sint64()(ef_sint64()(v) + rest)] ef_sint64()(v).len() > 0 && df_sint64()(ef_sint64()(v) + rest) == Some((v, ef_sint64()(v).len() as int)) by {
        thm_varint_round_trip(zz64(v), rest); lemma_varint_len(zz64(v)); lemma_un_zz64(v);
    }
}
pub proof fn thm_round_trip_fixed32()
    ensures inverse(ef_fixed32(), df_fixed32())
{
    assert forall|v: u32, rest: Seq<u8>| #![trigger df_fixed32()(ef_fixed32()(v) + rest)] ef_fixed32()(v).len() > 0 && df_fixed32()(ef_fixed32()(v) + rest) == Some((v, ef_fixed32()(v).len() as int)) by {
        lemma_un_le4(v as u32); let b = e_fixed32(v) + rest; assert(un4(b) == un4(le4(v as u32)));
    }
}
pub proof fn thm_round_trip_fixed64()
    ensures inverse(ef_fixed64(), df_fixed64())
{
    assert forall|v: u64, rest: Seq<u8>| #![trigger df_fixed64()(ef_fixed64()(v) + rest)] ef_fixed64()(v).len() > 0 && df_fixed64()(ef_fixed64()(v) + rest) == Some((v, ef_fixed64()(v).len() as int)) by {
        lemma_un_le8(v as u64); let b = e_fixed64(v) + rest; assert(un8(b) == un8(le8(v as u64)));
    }
}
pub proof fn thm_round_trip_sfixed32()
    ensures inverse(ef_sfixed32(), df_sfixed32())
{
    assert forall|v: i32, rest: Seq<u8>| #![trigger df_sfixed32()(ef_sfixed32()(v) + rest)] ef_sfixed32()(v).len() > 0 && df_sfixed32()(ef_sfixed32()(v) + rest) == Some((v, ef_sfixed32()(v).len() as int)) by {
        lemma_un_le4(v as u32); let b = e_sfixed32(v) + rest; assert(un4(b) == un4(le4(v as u32))); assert((v as u32) as i32 == v) by(bit_vector);
    }
}
pub proof fn thm_round_trip_sfixed64()
    ensures inverse(ef_sfixed64(), df_sfixed64())
{
    assert forall|v: i64, rest: Seq<u8>| #![trigger df_sfixed64()(ef_sfixed64()(v) + rest)] ef_sfixed64()(v).len() > 0 && df_sfixed64()(ef_sfixed64()(v) + rest) == Some((v, ef_sfixed64()(v).len() as int)) by {
        lemma_un_le8(v as u64); let b = e_sfixed64(v) + rest; assert(un8(b) == un8(le8(v as u64))); assert((v as u64) as i64 == v) by(bit_vector);
    }
}
// Floating-point numbers: the same bit pattern, so the same as for integers of that width.
pub proof fn thm_round_trip_float(v: f32, rest: Seq<u8>)
    ensures e_float(v) == e_fixed32(f32_bits(v)), d_float(e_float(v) + rest) == Some((f32_bits(v), 4int))
{ thm_round_trip_fixed32(); assert(df_fixed32()(ef_fixed32()(f32_bits(v)) + rest) == Some((f32_bits(v), 4int))); }
// Floating-point numbers: the same bit pattern, so the same as for integers of that width.
pub proof fn thm_round_trip_double(v: f64, rest: Seq<u8>)
    ensures e_double(v) == e_fixed64(f64_bits(v)), d_double(e_double(v) + rest) == Some((f64_bits(v), 8int))
{ thm_round_trip_fixed64(); assert(df_fixed64()(ef_fixed64()(f64_bits(v)) + rest) == Some((f64_bits(v), 8int))); }

// ---- packed
pub proof fn lemma_penc_cons<T>(e: spec_fn(T) -> Seq<u8>, s: Seq<T>)
    requires s.len() > 0
    ensures penc(e, s) == e(s[0]) + penc(e, s.skip(1))
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty());
        assert(penc(e, s) =~= e(s[0]) + penc(e, s.skip(1)));
    } else {
        lemma_penc_cons(e, s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(penc(e, s) =~= e(s[0]) + penc(e, s.skip(1)));
    }
}
pub proof fn thm_packed<T>(e: spec_fn(T) -> Seq<u8>, d: spec_fn(Seq<u8>) -> Option<(T, int)>, s: Seq<T>)
    requires inverse(e, d)
    ensures pdec(d, penc(e, s)) == Some(s)
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= Seq::empty()); }
    else {
        lemma_penc_cons(e, s);
        thm_packed(e, d, s.skip(1));
        let r = penc(e, s.skip(1));
        assert(d(e(s[0]) + r) == Some((s[0], e(s[0]).len() as int)));
        assert((e(s[0]) + r).skip(e(s[0]).len() as int) =~= r);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub proof fn thm_packed_float(s: Seq<f32>)
    ensures pdec(df_float(), penc(ef_float(), s)) == Some(bits32(s))
    decreases s.len()
{
    broadcast use group_floats;
    if s.len() == 0 { assert(bits32(s) =~= Seq::empty()); }
    else {
        lemma_penc_cons(ef_float(), s);
        thm_packed_float(s.skip(1));
        let r = penc(ef_float(), s.skip(1));
        thm_round_trip_float(s[0], r);
        assert((e_float(s[0]) + r).skip(4) =~= r);
        assert(seq![f32_bits(s[0])] + bits32(s.skip(1)) =~= bits32(s));
    }
}
pub proof fn thm_packed_double(s: Seq<f64>)
    ensures pdec(df_double(), penc(ef_double(), s)) == Some(bits64(s))
    decreases s.len()
{
    broadcast use group_floats;
    if s.len() == 0 { assert(bits64(s) =~= Seq::empty()); }
    else {
        lemma_penc_cons(ef_double(), s);
        thm_packed_double(s.skip(1));
        let r = penc(ef_double(), s.skip(1));
        thm_round_trip_double(s[0], r);
        assert((e_double(s[0]) + r).skip(8) =~= r);
        assert(seq![f64_bits(s[0])] + bits64(s.skip(1)) =~= bits64(s));
    }
}

// ---- messages
pub struct FieldIn<'a> { pub tag: u32, pub lit: EncoderLit<'a> }
pub open spec fn msg_enc(m: Seq<FieldIn>) -> Seq<u8>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { field_enc(m[0].tag, m[0].lit) + msg_enc(m.skip(1)) } }
pub open spec fn msg_fields(m: Seq<FieldIn>) -> Seq<Field> {
    m.map_values(|f: FieldIn| Field { tag: f.tag, typ: lit_typ(f.lit), bytes: lit_bytes(f.lit) })
}
pub open spec fn msg_ok(m: Seq<FieldIn>) -> bool {
    forall|i: int| 0 <= i < m.len() ==> tag_ok((#[trigger] m[i]).tag) && lit_bytes(m[i].lit).len() <= u64::MAX
}
pub proof fn lemma_key(tag: u32, t: Typ, rest: Seq<u8>)
    requires tag_ok(tag), t != Typ::Unknown
    ensures kdec(e_key(tag, t) + rest) == KR::Good(tag, t, e_key(tag, t).len() as int)
{
    let n = typ_num(t);
    let k = ((tag << 3) | n) as u64;
    thm_varint_round_trip(k, rest);
    assert(k <= 0xffff_ffff && k >> 3 == tag && (k >> 3) as u32 == tag && k & 7 == n) by(bit_vector)
        requires k == ((tag << 3) | n) as u64, n <= 7, tag <= 0x1fff_ffff;
}
// What is behind the key of a scalar is one value of the wire type.
pub proof fn lemma_scalar_payload(l: EncoderLit, rest: Seq<u8>)
    requires lit_typ(l) != Typ::LengthDelimited
    ensures match lit_typ(l) {
        Typ::Varint => exists|v: u64| #[trigger] varint(v) == lit_bytes(l),
        Typ::Bit32 => lit_bytes(l).len() == 4,
        Typ::Bit64 => lit_bytes(l).len() == 8,
        _ => true,
    }
{
    match l {
        EncoderLit::Bool(v) => { assert(varint(if *v { 1 } else { 0 }) == lit_bytes(l)); }
        EncoderLit::Int32(v) => { assert(varint(*v as u64) == lit_bytes(l)); }
        EncoderLit::Int64(v) => { assert(varint(*v as u64) == lit_bytes(l)); }
        EncoderLit::UInt32(v) => { assert(varint(*v as u64) == lit_bytes(l)); }
        EncoderLit::UInt64(v) => { assert(varint(*v) == lit_bytes(l)); }
        EncoderLit::SInt32(v) => { assert(varint(zz32(*v)) == lit_bytes(l)); }
        EncoderLit::SInt64(v) => { assert(varint(zz64(*v)) == lit_bytes(l)); }
        _ => {}
    }
}
pub proof fn lemma_run_unfold(s: DSt, b: Seq<u8>)
    requires dst_ok(s)
    ensures match step(s, b) {
        Step::Go(n, s2, f) => { let o = run(s2, b.skip(n)); run(s, b) == Out { fields: opt_seq(f) + o.fields, rest: o.rest, st: o.st, ok: o.ok } },
        _ => true,
    }
{ lemma_step_go(s, b); }
// The steps a field takes: its key, the length of a length-delimited one, its payload.
pub open spec fn with_field(f: Field, o: Out) -> Out { Out { fields: seq![f] + o.fields, rest: o.rest, st: o.st, ok: o.ok } }
pub proof fn lemma_run_quiet(s: DSt, b: Seq<u8>, s2: DSt, b2: Seq<u8>, n: int)
    requires dst_ok(s), step(s, b) == Step::Go(n, s2, None), b.skip(n) == b2
    ensures run(s, b) == run(s2, b2)
{
    lemma_run_unfold(s, b);
    let o = run(s2, b2);
    assert(Seq::<Field>::empty() + o.fields =~= o.fields);
}
pub proof fn lemma_run_key(tag: u32, t: Typ, x: Seq<u8>)
    requires tag_ok(tag), t != Typ::Unknown
    ensures run(idle(), e_key(tag, t) + x) == run(DSt { tag, typ: t, ld: None }, x)
{
    let k = e_key(tag, t);
    lemma_key(tag, t, x);
    assert((k + x).skip(k.len() as int) =~= x);
    lemma_run_quiet(idle(), k + x, DSt { tag, typ: t, ld: None }, x, k.len() as int);
}
pub proof fn lemma_run_payload(s: DSt, p: Seq<u8>, rest: Seq<u8>)
    requires dst_ok(s), s.typ != Typ::Unknown, step(s, p + rest) == take_field(s, p + rest, p.len() as int)
    ensures run(s, p + rest) == with_field(Field { tag: s.tag, typ: s.typ, bytes: p }, run(idle(), rest))
{
    lemma_run_unfold(s, p + rest);
    assert((p + rest).take(p.len() as int) =~= p);
    assert((p + rest).skip(p.len() as int) =~= rest);
}
pub proof fn lemma_run_length(tag: u32, d: Seq<u8>, rest: Seq<u8>)
    requires tag_ok(tag), d.len() <= u64::MAX
    ensures run(DSt { tag, typ: Typ::LengthDelimited, ld: None }, e_bytes(d) + rest) == with_field(Field { tag, typ: Typ::LengthDelimited, bytes: d }, run(idle(), rest))
{
    let len = d.len() as u64;
    let h = varint(len);
    let s1 = DSt { tag, typ: Typ::LengthDelimited, ld: None };
    let s2 = DSt { tag, typ: Typ::LengthDelimited, ld: Some(len) };
    assert(e_bytes(d) + rest =~= h + (d + rest));
    thm_varint_round_trip(len, d + rest);
    assert((h + (d + rest)).skip(h.len() as int) =~= d + rest);
    lemma_run_quiet(s1, h + (d + rest), s2, d + rest, h.len() as int);
    lemma_run_payload(s2, d, rest);
}
pub proof fn lemma_run_scalar(tag: u32, l: EncoderLit, rest: Seq<u8>)
    requires tag_ok(tag), lit_typ(l) != Typ::LengthDelimited
    ensures run(DSt { tag, typ: lit_typ(l), ld: None }, lit_bytes(l) + rest) == with_field(Field { tag, typ: lit_typ(l), bytes: lit_bytes(l) }, run(idle(), rest))
{
    let s = DSt { tag, typ: lit_typ(l), ld: None };
    lemma_scalar_payload(l, rest);
    if lit_typ(l) == Typ::Varint {
        let v = choose|v: u64| #[trigger] varint(v) == lit_bytes(l);
        thm_varint_round_trip(v, rest);
    }
    lemma_run_payload(s, lit_bytes(l), rest);
}
pub proof fn lemma_run_field(tag: u32, l: EncoderLit, rest: Seq<u8>)
    requires tag_ok(tag), lit_bytes(l).len() <= u64::MAX
    ensures run(idle(), field_enc(tag, l) + rest) == with_field(Field { tag, typ: lit_typ(l), bytes: lit_bytes(l) }, run(idle(), rest))
{
    let t = lit_typ(l);
    let p = lit_payload(l);
    assert(field_enc(tag, l) + rest =~= e_key(tag, t) + (p + rest));
    lemma_run_key(tag, t, p + rest);
    if t == Typ::LengthDelimited { lemma_run_length(tag, lit_bytes(l), rest); } else { lemma_run_scalar(tag, l, rest); }
}
// T: the fields of a message come out of a fresh decoder as they went into the encoder,
// and nothing is left over.
pub proof fn thm_message(m: Seq<FieldIn>)
    requires msg_ok(m)
    ensures run(idle(), msg_enc(m)) == (Out { fields: msg_fields(m), rest: Seq::empty(), st: idle(), ok: true })
    decreases m.len()
{
    if m.len() == 0 { assert(msg_fields(m) =~= Seq::empty()); }
    else {
        thm_message(m.skip(1));
        lemma_run_field(m[0].tag, m[0].lit, msg_enc(m.skip(1)));
        assert(msg_fields(m) =~= seq![Field { tag: m[0].tag, typ: lit_typ(m[0].lit), bytes: lit_bytes(m[0].lit) }] + msg_fields(m.skip(1)));
    }
}

// ---- feeding a message piece by piece
pub proof fn lemma_step_extend(s: DSt, a: Seq<u8>, b: Seq<u8>)
    requires dst_ok(s)
    ensures !(step(s, a) is More) ==> step(s, a + b) == step(s, a)
{
    lemma_vdec_extend(a, b, 0, 0);
    lemma_vdec_bounds(a, 0, 0);
    match vdec(a) { VR::Good(_, n) => { assert((a + b).take(n) =~= a.take(n)); } _ => {} }
    if a.len() >= 4 { assert((a + b).take(4) =~= a.take(4)); }
    if a.len() >= 8 { assert((a + b).take(8) =~= a.take(8)); }
    if s.ld is Some && s.ld->0 <= a.len() { assert((a + b).take(s.ld->0 as int) =~= a.take(s.ld->0 as int)); }
}
// T: what a decoder does with a + b is what it does with a and then, on what it
// left, with b. (Once it has failed, more bytes do not change anything.)
pub proof fn thm_chunks(s: DSt, a: Seq<u8>, b: Seq<u8>)
    requires dst_ok(s)
    ensures ({
        let o = run(s, a);
        let p = run(o.st, o.rest + b);
        if o.ok { run(s, a + b) == Out { fields: o.fields + p.fields, rest: p.rest, st: p.st, ok: p.ok } }
        else { run(s, a + b) == Out { fields: o.fields, rest: o.rest + b, st: o.st, ok: false } }
    })
    decreases measure(s, a)
{
    lemma_step_go(s, a);
    match step(s, a) {
        Step::More => { assert(Seq::<Field>::empty() + run(s, a + b).fields =~= run(s, a + b).fields); }
        Step::Bad => { lemma_step_extend(s, a, b); }
        Step::Go(n, s2, f) => {
            lemma_step_extend(s, a, b);
            lemma_step_go(s, a + b);
            assert((a + b).skip(n) =~= a.skip(n) + b);
            thm_chunks(s2, a.skip(n), b);
            let o = run(s2, a.skip(n));
            let p = run(o.st, o.rest + b);
            assert(opt_seq(f) + (o.fields + p.fields) =~= (opt_seq(f) + o.fields) + p.fields);
        }
    }
}
// T: where a decoder stops it stays: without new input it delivers nothing more,
// and after an error it fails again at the same place, with nothing lost.
pub proof fn thm_stop(s: DSt, a: Seq<u8>)
    requires dst_ok(s)
    ensures ({
        let o = run(s, a);
        dst_ok(o.st) && run(o.st, o.rest) == Out { fields: Seq::empty(), rest: o.rest, st: o.st, ok: o.ok }
            && o.rest.len() <= a.len() && o.rest == a.skip(a.len() - o.rest.len())
    })
    decreases measure(s, a)
{
    lemma_step_go(s, a);
    match step(s, a) {
        Step::Go(n, s2, f) => {
            thm_stop(s2, a.skip(n));
            let r = run(s2, a.skip(n)).rest;
            assert(a.skip(n).skip(a.skip(n).len() - r.len()) =~= a.skip(a.len() - r.len()));
        }
        _ => { assert(a.skip(0) =~= a); }
    }
}

// ---- what `encode` accepts: references to the listed types, and literals
pub proof fn thm_into<'a>()
    ensures
        <&'a bool as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a bool| #[trigger] <&'a bool as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Bool(v)),
        <&'a Vec<bool> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<bool>| #[trigger] <&'a Vec<bool> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::BoolVec(v)),
        <&'a i32 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a i32| #[trigger] <&'a i32 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Int32(v)),
        <&'a Vec<i32> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<i32>| #[trigger] <&'a Vec<i32> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Int32Vec(v)),
        <&'a i64 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a i64| #[trigger] <&'a i64 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Int64(v)),
        <&'a Vec<i64> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<i64>| #[trigger] <&'a Vec<i64> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Int64Vec(v)),
        <&'a u32 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a u32| #[trigger] <&'a u32 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::UInt32(v)),
        <&'a Vec<u32> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<u32>| #[trigger] <&'a Vec<u32> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::UInt32Vec(v)),
        <&'a u64 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a u64| #[trigger] <&'a u64 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::UInt64(v)),
        <&'a Vec<u64> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<u64>| #[trigger] <&'a Vec<u64> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::UInt64Vec(v)),
        <&'a f32 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a f32| #[trigger] <&'a f32 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Float(v)),
        <&'a Vec<f32> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<f32>| #[trigger] <&'a Vec<f32> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::FloatVec(v)),
        <&'a f64 as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a f64| #[trigger] <&'a f64 as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Double(v)),
        <&'a Vec<f64> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<f64>| #[trigger] <&'a Vec<f64> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::DoubleVec(v)),
        <&'a Vec<u8> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: &'a Vec<u8>| #[trigger] <&'a Vec<u8> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == EncoderLit::Bytes(v)),
        <EncoderLit<'a> as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() && (forall|v: EncoderLit<'a>| #[trigger] <EncoderLit<'a> as IntoSpec<EncoderLit<'a>>>::into_spec(v) == v),
{ axiom_from_self::<EncoderLit<'a>>(); }

} // verus!
}
