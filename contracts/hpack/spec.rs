// HPACK (RFC 7541): what its encoder and decoder are supposed to do, independently of the code.
pub mod pspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::statics::*;
use crate::hspec::{huff, pow2i, lemma_pow2i_small, wrote_huff, read_huff, dec_post, thm_encoding_unique, thm_decoding_unique, thm_encodable};
use crate::httlib_hpack::encoder::{EncoderInput, EncoderError};
use crate::httlib_hpack::decoder::DecoderError;
verus! {

// ------------------------------------------------------- integers (5.1)
// Groups of seven bits, least significant first; only the last octet has its top bit clear.
pub open spec fn tail7(v: int) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(128 + v % 128) as u8] + tail7(v / 128) }
}
pub open spec fn top(flags: u8, n: int) -> int { flags as int / pow2i(n) * pow2i(n) }
pub open spec fn int_enc(v: int, flags: u8, n: int) -> Seq<u8> {
    let m = pow2i(n) - 1;
    if v < m { seq![(top(flags, n) + v) as u8] } else { seq![(top(flags, n) + m) as u8] + tail7(v - m) }
}
pub enum IntR { Val(int, int), Short, Long }
pub open spec fn int_more(b: Seq<u8>, i: int, acc: int, mul: int) -> IntR decreases 5 - i {
    if i >= 5 { IntR::Long }
    else if i >= b.len() { IntR::Short }
    else {
        let a = acc + (b[i] as int % 128) * mul;
        if b[i] < 128 { IntR::Val(a, i + 1) } else { int_more(b, i + 1, a, mul * 128) }
    }
}
// The number that `b` begins with and the number of octets it takes (at most five).
pub open spec fn int_dec(b: Seq<u8>, n: int) -> IntR {
    if b.len() == 0 { IntR::Short }
    else if b[0] as int % pow2i(n) < pow2i(n) - 1 { IntR::Val(b[0] as int % pow2i(n), 1) }
    else { int_more(b, 1, pow2i(n) - 1, 1) }
}

// ------------------------------------------------------- strings (5.2)
pub open spec fn raw(s: Seq<u8>, h: bool) -> Seq<u8> { if h { choose|w: Seq<u8>| #[trigger] huff(s, w) } else { s } }
pub open spec fn str_enc(s: Seq<u8>, h: bool) -> Seq<u8> { int_enc(raw(s, h).len() as int, if h { 0x80 } else { 0 }, 7) + raw(s, h) }
pub enum StrR { Val(Seq<u8>, int), Short, Long, Bad }
pub open spec fn str_dec(b: Seq<u8>) -> StrR {
    match int_dec(b, 7) {
        IntR::Short => StrR::Short,
        IntR::Long => StrR::Long,
        IntR::Val(l, u) =>
            if l > b.len() - u { StrR::Short }
            else if b[0] < 128 { StrR::Val(b.subrange(u, u + l), u + l) }
            else if exists|s: Seq<u8>| #[trigger] huff(s, b.subrange(u, u + l)) { StrR::Val(choose|s: Seq<u8>| #[trigger] huff(s, b.subrange(u, u + l)), u + l) }
            else { StrR::Bad },
    }
}

// ------------------------------------------------------- tables (2.3, 4)
pub type Entry = (Seq<u8>, Seq<u8>);
pub struct TV { pub dy: Seq<Entry>, pub max: int }
pub open spec fn esize(e: Entry) -> int { e.0.len() as int + e.1.len() as int + 32 }
pub open spec fn dsize(d: Seq<Entry>) -> int decreases d.len() { if d.len() == 0 { 0 } else { dsize(d.drop_last()) + esize(d.last()) } }
// Entries leave oldest first until the rest fits.
pub open spec fn evict(d: Seq<Entry>, max: int) -> Seq<Entry> decreases d.len() {
    if d.len() == 0 || dsize(d) <= max { d } else { evict(d.drop_last(), max) }
}
pub open spec fn insert(t: TV, n: Seq<u8>, v: Seq<u8>) -> TV { TV { dy: evict(seq![(n, v)] + t.dy, t.max), max: t.max } }
pub open spec fn resize(t: TV, m: int) -> TV { TV { dy: evict(t.dy, m), max: m } }
pub open spec fn fits(t: TV) -> bool { 0 <= t.max <= u32::MAX && dsize(t.dy) <= t.max }
pub open spec fn lookup(t: TV, i: int) -> Option<Entry> {
    if 1 <= i <= 61 { Some(rfc_static(i - 1)) } else if 62 <= i < 62 + t.dy.len() { Some(t.dy[i - 62]) } else { None }
}
pub open spec fn named(t: TV, i: int, n: Seq<u8>) -> bool { lookup(t, i) is Some && lookup(t, i).unwrap().0 == n }
pub open spec fn is_at(t: TV, i: int, n: Seq<u8>, v: Seq<u8>) -> bool { lookup(t, i) == Some((n, v)) }
// The answer of a search: the lowest index that matches name and value, or else the lowest that matches the name.
pub open spec fn found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>) -> bool {
    match r {
        Some((i, true)) => is_at(t, i, n, v) && forall|j: int| j < i ==> !#[trigger] is_at(t, j, n, v),
        Some((i, false)) => named(t, i, n) && (forall|j: int| !#[trigger] is_at(t, j, n, v)) && forall|j: int| j < i ==> !#[trigger] named(t, j, n),
        None => forall|j: int| !#[trigger] named(t, j, n),
    }
}
pub open spec fn find(t: TV, n: Seq<u8>, v: Seq<u8>) -> Option<(int, bool)> { choose|r: Option<(int, bool)>| found(t, n, v, r) }

// ------------------------------------------------------- representations (6), encoding
pub enum Inp { Idx(int), Name(int, Seq<u8>, u8), Lit(Seq<u8>, Seq<u8>, u8), Size(int) }
pub open spec fn inp(x: EncoderInput) -> Inp {
    match x {
        EncoderInput::Indexed(i) => Inp::Idx(i as int),
        EncoderInput::IndexedName(i, v, f) => Inp::Name(i as int, v@, f),
        EncoderInput::Literal(n, v, f) => Inp::Lit(n@, v@, f),
    }
}
pub open spec fn mark(f: u8) -> u8 { if f & 4 == 4 { 4 } else if f & 8 == 8 { 8 } else { 0 } }
pub open spec fn pattern(f: u8) -> u8 { if mark(f) == 4 { 0x40 } else if mark(f) == 8 { 0x10 } else { 0 } }
pub open spec fn prefix(f: u8) -> int { if mark(f) == 4 { 6 } else { 4 } }
pub open spec fn after(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8) -> TV { if mark(f) == 4 { insert(t, n, v) } else { t } }
pub open spec fn enc_index(t: TV, i: int) -> Option<(TV, Seq<u8>)> {
    match lookup(t, i) { None => None, Some(e) => Some((t, int_enc(i, 0x80, 7))) }
}
pub open spec fn enc_name(t: TV, i: int, v: Seq<u8>, f: u8) -> Option<(TV, Seq<u8>)> {
    match lookup(t, i) { None => None, Some(e) => Some((after(t, e.0, v, f), int_enc(i, pattern(f), prefix(f)) + str_enc(v, f & 2 == 2))) }
}
pub open spec fn enc_lit(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8) -> Option<(TV, Seq<u8>)> {
    Some((after(t, n, v, f), int_enc(0, pattern(f), prefix(f)) + str_enc(n, f & 1 == 1) + str_enc(v, f & 2 == 2)))
}
// What is written for a header (None: refused) and the table afterwards.
pub open spec fn enc(t: TV, x: Inp) -> Option<(TV, Seq<u8>)> {
    match x {
        Inp::Idx(i) => enc_index(t, i),
        Inp::Name(i, v, f) => enc_name(t, i, v, f),
        Inp::Lit(n, v, f) =>
            if f & 0x10 == 0x10 {
                match find(t, n, v) {
                    Some((i, full)) => if full && mark(f) != 8 { enc_index(t, i) } else { enc_name(t, i, v, f) },
                    None => enc_lit(t, n, v, f),
                }
            } else { enc_lit(t, n, v, f) },
        Inp::Size(m) => Some((resize(t, m), int_enc(m, 0x20, 5))),
    }
}
pub open spec fn str_ok(s: Seq<u8>) -> bool { s.len() <= u32::MAX && raw(s, true).len() <= u32::MAX }
// Strings whose length can be written.
pub open spec fn inp_ok(x: Inp) -> bool {
    match x { Inp::Idx(i) => true, Inp::Name(i, v, f) => str_ok(v), Inp::Lit(n, v, f) => str_ok(n) && str_ok(v), Inp::Size(m) => true }
}
pub open spec fn enc_post(t: TV, x: Inp, r: Option<(TV, Seq<u8>)>, o: Seq<u8>, t1: TV, f: Seq<u8>, ret: Result<(), EncoderError>) -> bool {
    &&& fits(t1) && t1.max == t.max
    &&& ret is Ok ==> r is Some && t1 == r.unwrap().0 && f == o + r.unwrap().1
    &&& ret is Err && inp_ok(x) ==> r is None && t1 == t && f == o
    &&& r is None ==> ret == Err::<(), EncoderError>(EncoderError::InvalidIndex)
}

// ------------------------------------------------------- representations (6), decoding
pub type Field = (Seq<u8>, Seq<u8>, u8);
pub enum Fail { Short, Long, Index, Input, Size, Prefix }
pub open spec fn fail_of(e: DecoderError) -> Fail {
    match e {
        DecoderError::InvalidInput => Fail::Input,
        DecoderError::InvalidIndex => Fail::Index,
        DecoderError::InvalidPrefix => Fail::Prefix,
        DecoderError::IntegerOverflow => Fail::Long,
        DecoderError::IntegerUnderflow => Fail::Short,
        DecoderError::InvalidMaxDynamicSize => Fail::Size,
    }
}
// Table afterwards, header if any, octets taken.
pub enum StepR { Done(TV, Option<Field>, int), Stop(Fail) }
pub open spec fn dec_index(t: TV, b: Seq<u8>) -> StepR {
    match int_dec(b, 7) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(i, u) => match lookup(t, i) { Some(e) => StepR::Done(t, Some((e.0, e.1, 0)), u), None => StepR::Stop(Fail::Index) },
    }
}
pub open spec fn dec_value(t: TV, b: Seq<u8>, u: int, name: Seq<u8>, f: u8) -> StepR {
    match str_dec(b.skip(u)) {
        StrR::Short => StepR::Stop(Fail::Short),
        StrR::Long => StepR::Stop(Fail::Long),
        StrR::Bad => StepR::Stop(Fail::Input),
        StrR::Val(v, k) => StepR::Done(if f == 4 { insert(t, name, v) } else { t }, Some((name, v, f)), u + k),
    }
}
pub open spec fn dec_lit(t: TV, b: Seq<u8>, n: int, f: u8) -> StepR {
    match int_dec(b, n) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(i, u) =>
            if i == 0 {
                match str_dec(b.skip(u)) {
                    StrR::Short => StepR::Stop(Fail::Short),
                    StrR::Long => StepR::Stop(Fail::Long),
                    StrR::Bad => StepR::Stop(Fail::Input),
                    StrR::Val(name, k) => dec_value(t, b, u + k, name, f),
                }
            } else {
                match lookup(t, i) { Some(e) => dec_value(t, b, u, e.0, f), None => StepR::Stop(Fail::Index) }
            },
    }
}
pub open spec fn dec_size(t: TV, limit: int, b: Seq<u8>) -> StepR {
    match int_dec(b, 5) {
        IntR::Short => StepR::Stop(Fail::Short),
        IntR::Long => StepR::Stop(Fail::Long),
        IntR::Val(m, u) => if m > limit { StepR::Stop(Fail::Size) } else { StepR::Done(resize(t, m), None, u) },
    }
}
// One representation at the start of `b` (not empty).
pub open spec fn step(t: TV, limit: int, b: Seq<u8>) -> StepR {
    if b[0] >= 0x80 { dec_index(t, b) }
    else if b[0] >= 0x40 { dec_lit(t, b, 6, 4) }
    else if b[0] >= 0x20 { dec_size(t, limit, b) }
    else if b[0] >= 0x10 { dec_lit(t, b, 4, 8) }
    else { dec_lit(t, b, 4, 0) }
}
pub open spec fn opt(f: Option<Field>) -> Seq<Field> { match f { Some(x) => seq![x], None => Seq::empty() } }
pub struct RunR { pub t: TV, pub out: Seq<Field>, pub used: int, pub fail: Option<Fail> }
// At most `n` representations, one after the other.
pub open spec fn run(t: TV, limit: int, b: Seq<u8>, n: int) -> RunR decreases n {
    if n <= 0 || b.len() == 0 { RunR { t: t, out: Seq::empty(), used: 0, fail: None } }
    else {
        match step(t, limit, b) {
            StepR::Stop(e) => RunR { t: t, out: Seq::empty(), used: 0, fail: Some(e) },
            StepR::Done(t1, f, u) => {
                let r = run(t1, limit, b.skip(u), n - 1);
                RunR { t: r.t, out: opt(f) + r.out, used: u + r.used, fail: r.fail }
            },
        }
    }
}
pub open spec fn run_all(t: TV, limit: int, b: Seq<u8>) -> RunR { run(t, limit, b, b.len() as int) }
pub open spec fn fields(d: Seq<(Vec<u8>, Vec<u8>, u8)>) -> Seq<Field> { d.map_values(|e: (Vec<u8>, Vec<u8>, u8)| (e.0@, e.1@, e.2)) }
pub open spec fn step_post(r: StepR, t: TV, b: Seq<u8>, d: Seq<Field>, t1: TV, b1: Seq<u8>, d1: Seq<Field>, ret: Result<usize, DecoderError>) -> bool {
    fits(t1) && match r {
        StepR::Done(t2, f, u) => ret == Ok::<usize, DecoderError>(u as usize) && 0 < u <= b.len() && t1 == t2 && b1 == b.skip(u) && d1 == d + opt(f),
        StepR::Stop(e) => ret is Err && fail_of(ret->Err_0) == e && t1 == t && b1 == b && d1 == d,
    }
}
pub open spec fn run_post(r: RunR, b: Seq<u8>, d: Seq<Field>, t1: TV, b1: Seq<u8>, d1: Seq<Field>, ret: Result<usize, DecoderError>) -> bool {
    &&& fits(t1)
    &&& t1 == r.t && b1 == b.skip(r.used) && d1 == d + r.out && 0 <= r.used <= b.len()
    &&& ret is Ok ==> r.fail is None && ret->Ok_0 == r.used
    &&& ret is Err ==> r.fail == Some(fail_of(ret->Err_0))
}

// ------------------------------------------------------- lemmas: runs
pub open spec fn join(out: Seq<Field>, used: int, r: RunR) -> RunR { RunR { t: r.t, out: out + r.out, used: used + r.used, fail: r.fail } }
// In the middle of a run `r`: `used` octets are taken, `d` holds what was delivered, `q` is what remains to be done.
pub open spec fn running(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int) -> bool {
    &&& 0 <= used <= b0.len() && b == b0.skip(used)
    &&& d0.len() <= d.len() && d.take(d0.len() as int) == d0
    &&& r == join(d.skip(d0.len() as int), used, q)
}
pub proof fn lemma_run_start(r: RunR, b: Seq<u8>, d0: Seq<Field>, d: Seq<Field>)
    requires d == d0
    ensures running(r, b, d0, r, b, d, 0)
{
    assert(b.skip(0) =~= b); assert(d.take(d0.len() as int) =~= d); assert(d.skip(d0.len() as int) + r.out =~= r.out);
}
pub proof fn lemma_running(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int, s: StepR, q2: RunR, b2: Seq<u8>, d2: Seq<Field>)
    requires running(r, b0, d0, q, b, d, used), s is Done, 0 < s->Done_2 <= b.len(), b2 == b.skip(s->Done_2), d2 == d + opt(s->Done_1), q == join(opt(s->Done_1), s->Done_2, q2)
    ensures running(r, b0, d0, q2, b2, d2, used + s->Done_2)
{
    let u = s->Done_2; let f = opt(s->Done_1); let n = d0.len() as int;
    assert(b2 =~= b0.skip(used + u));
    assert(d2.take(n) =~= d0);
    assert(d2.skip(n) =~= d.skip(n) + f);
    assert(d.skip(n) + (f + q2.out) =~= (d.skip(n) + f) + q2.out);
}
pub broadcast proof fn lemma_running_end(r: RunR, b0: Seq<u8>, d0: Seq<Field>, q: RunR, b: Seq<u8>, d: Seq<Field>, used: int)
    requires #[trigger] running(r, b0, d0, q, b, d, used), q.out.len() == 0, q.used == 0
    ensures d == d0 + r.out, b == b0.skip(r.used), r.used == used, r.t == q.t, r.fail == q.fail, r.used <= b0.len()
{
    let n = d0.len() as int;
    assert(d.skip(n) + q.out =~= d.skip(n));
    assert(d0 + d.skip(n) =~= d);
}
pub broadcast proof fn lemma_fields_push(d: Seq<(Vec<u8>, Vec<u8>, u8)>, e: (Vec<u8>, Vec<u8>, u8))
    ensures #[trigger] fields(d.push(e)) == fields(d) + opt(Some((e.0@, e.1@, e.2)))
{ assert(fields(d.push(e)) =~= fields(d) + opt(Some((e.0@, e.1@, e.2)))); }
pub broadcast proof fn lemma_fields_cat(d: Seq<(Vec<u8>, Vec<u8>, u8)>, e: Seq<(Vec<u8>, Vec<u8>, u8)>)
    ensures #[trigger] fields(d + e) == fields(d) + fields(e)
{ assert(fields(d + e) =~= fields(d) + fields(e)); }
pub broadcast proof fn lemma_fields_empty(d: Seq<(Vec<u8>, Vec<u8>, u8)>)
    ensures d.len() == 0 ==> #[trigger] fields(d) == Seq::<Field>::empty()
{ if d.len() == 0 { assert(fields(d) =~= Seq::<Field>::empty()); } }
pub proof fn lemma_int_dec(b: Seq<u8>, n: int)
    requires 1 <= n <= 8
    ensures int_dec(b, n) is Val ==> 0 < int_dec(b, n)->Val_1 <= b.len() && int_dec(b, n)->Val_1 <= 5 && int_dec(b, n)->Val_0 >= 0
{
    lemma_pow2i_small();
    if b.len() > 0 && b[0] as int % pow2i(n) >= pow2i(n) - 1 { lemma_int_more(b, 1, pow2i(n) - 1, 1); }
}
pub proof fn lemma_int_more(b: Seq<u8>, i: int, acc: int, mul: int)
    requires 0 < i, acc >= 0, mul > 0
    ensures int_more(b, i, acc, mul) is Val ==> i < int_more(b, i, acc, mul)->Val_1 <= b.len() && int_more(b, i, acc, mul)->Val_1 <= 5 && int_more(b, i, acc, mul)->Val_0 >= acc
    decreases 5 - i
{
    if i < 5 && i < b.len() {
        let a = acc + (b[i] as int % 128) * mul;
        assert((b[i] as int % 128) * mul >= 0) by(nonlinear_arith) requires mul > 0;
        lemma_int_more(b, i + 1, a, mul * 128);
    }
}
pub proof fn lemma_str_dec(b: Seq<u8>)
    ensures str_dec(b) is Val ==> 0 < str_dec(b)->Val_1 <= b.len()
{ lemma_int_dec(b, 7); }
pub proof fn lemma_step(t: TV, limit: int, b: Seq<u8>)
    requires b.len() > 0
    ensures step(t, limit, b) is Done ==> 0 < step(t, limit, b)->Done_2 <= b.len()
{
    lemma_int_dec(b, 7); lemma_int_dec(b, 6); lemma_int_dec(b, 5); lemma_int_dec(b, 4);
    assert forall|u: int| 0 <= u <= b.len() implies str_dec(#[trigger] b.skip(u)) is Val ==> 0 < str_dec(b.skip(u))->Val_1 <= b.len() - u by { lemma_str_dec(b.skip(u)); }
}
pub proof fn lemma_run_more(t: TV, limit: int, b: Seq<u8>, n: int, m: int)
    requires b.len() <= n, b.len() <= m
    ensures run(t, limit, b, n) == run(t, limit, b, m)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_step(t, limit, b);
        if let StepR::Done(t1, f, u) = step(t, limit, b) { lemma_run_more(t1, limit, b.skip(u), n - 1, m - 1); }
    }
}
pub broadcast proof fn lemma_run_none(t: TV, limit: int, b: Seq<u8>)
    ensures #![trigger run_all(t, limit, b)] b.len() == 0 ==> run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: None })
{}
pub proof fn lemma_run_all(t: TV, limit: int, b: Seq<u8>)
    ensures
        b.len() == 0 ==> run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: None }),
        b.len() > 0 ==> match step(t, limit, b) {
            StepR::Stop(e) => run_all(t, limit, b) == (RunR { t: t, out: Seq::empty(), used: 0, fail: Some(e) }) && run(t, limit, b, 1) == run_all(t, limit, b),
            StepR::Done(t1, f, u) => 0 < u <= b.len() && run_all(t, limit, b) == join(opt(f), u, run_all(t1, limit, b.skip(u)))
                && run(t, limit, b, 1) == (RunR { t: t1, out: opt(f), used: u, fail: None }),
        }
{
    if b.len() > 0 {
        lemma_step(t, limit, b);
        if let StepR::Done(t1, f, u) = step(t, limit, b) {
            lemma_run_more(t1, limit, b.skip(u), b.len() - 1, b.len() - u);
            assert(opt(f) + Seq::<Field>::empty() =~= opt(f));
            assert(run(t1, limit, b.skip(u), 0) == (RunR { t: t1, out: Seq::empty(), used: 0, fail: None }));
            reveal_with_fuel(run, 2);
        }
    }
}
// ------------------------------------------------------- lemmas: octets
pub proof fn lemma_patterns(o: u8)
    ensures (o & 128 == 128) == (o >= 128), o < 128 ==> (o & 64 == 64) == (o >= 64), o < 64 ==> (o & 32 == 32) == (o >= 32), o < 32 ==> (o & 16 == 16) == (o >= 16),
        o < 32 ==> o & 64 != 64, 64 <= o < 128 ==> o & 64 == 64
{
    assert((o & 128 == 128) == (o >= 128)) by(bit_vector);
    assert(o < 128 ==> (o & 64 == 64) == (o >= 64)) by(bit_vector);
    assert(o < 64 ==> (o & 32 == 32) == (o >= 32)) by(bit_vector);
    assert(o < 32 ==> (o & 16 == 16) == (o >= 16)) by(bit_vector);
    assert(o < 32 ==> o & 64 != 64) by(bit_vector);
}
// Tests of single bits of an octet, written in other ways.
pub broadcast proof fn lemma_bit1(o: u8)
    ensures #[trigger] (o & 1) == 0 || o & 1 == 1, (o & 1 == 1) == ((o / 1) % 2 == 1)
{ assert((o & 1 == 0 || o & 1 == 1) && (o & 1 == 1) == ((o / 1) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit2(o: u8)
    ensures #[trigger] (o & 2) == 0 || o & 2 == 2, (o & 2 == 2) == ((o / 2) % 2 == 1)
{ assert((o & 2 == 0 || o & 2 == 2) && (o & 2 == 2) == ((o / 2) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit4(o: u8)
    ensures #[trigger] (o & 4) == 0 || o & 4 == 4, (o & 4 == 4) == ((o / 4) % 2 == 1)
{ assert((o & 4 == 0 || o & 4 == 4) && (o & 4 == 4) == ((o / 4) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit8(o: u8)
    ensures #[trigger] (o & 8) == 0 || o & 8 == 8, (o & 8 == 8) == ((o / 8) % 2 == 1)
{ assert((o & 8 == 0 || o & 8 == 8) && (o & 8 == 8) == ((o / 8) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit16(o: u8)
    ensures #[trigger] (o & 16) == 0 || o & 16 == 16, (o & 16 == 16) == ((o / 16) % 2 == 1)
{ assert((o & 16 == 0 || o & 16 == 16) && (o & 16 == 16) == ((o / 16) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit32(o: u8)
    ensures #[trigger] (o & 32) == 0 || o & 32 == 32, (o & 32 == 32) == ((o / 32) % 2 == 1)
{ assert((o & 32 == 0 || o & 32 == 32) && (o & 32 == 32) == ((o / 32) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit64(o: u8)
    ensures #[trigger] (o & 64) == 0 || o & 64 == 64, (o & 64 == 64) == ((o / 64) % 2 == 1)
{ assert((o & 64 == 0 || o & 64 == 64) && (o & 64 == 64) == ((o / 64) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_bit128(o: u8)
    ensures #[trigger] (o & 128) == 0 || o & 128 == 128, (o & 128 == 128) == ((o / 128) % 2 == 1)
{ assert((o & 128 == 0 || o & 128 == 128) && (o & 128 == 128) == ((o / 128) % 2 == 1)) by(bit_vector); }
pub broadcast proof fn lemma_shr1(o: u8)
    ensures #[trigger] (o >> 1) == o / 2
{ assert(o >> 1 == o / 2) by(bit_vector); }
pub broadcast proof fn lemma_shr2(o: u8)
    ensures #[trigger] (o >> 2) == o / 4
{ assert(o >> 2 == o / 4) by(bit_vector); }
pub broadcast proof fn lemma_shr3(o: u8)
    ensures #[trigger] (o >> 3) == o / 8
{ assert(o >> 3 == o / 8) by(bit_vector); }
pub broadcast proof fn lemma_shr4(o: u8)
    ensures #[trigger] (o >> 4) == o / 16
{ assert(o >> 4 == o / 16) by(bit_vector); }
pub broadcast proof fn lemma_shr5(o: u8)
    ensures #[trigger] (o >> 5) == o / 32
{ assert(o >> 5 == o / 32) by(bit_vector); }
pub broadcast proof fn lemma_shr6(o: u8)
    ensures #[trigger] (o >> 6) == o / 64
{ assert(o >> 6 == o / 64) by(bit_vector); }
pub broadcast proof fn lemma_shr7(o: u8)
    ensures #[trigger] (o >> 7) == o / 128
{ assert(o >> 7 == o / 128) by(bit_vector); }
pub broadcast proof fn lemma_and15(o: u8)
    ensures #[trigger] (o & 15) == o % 16
{ assert(o & 15 == o % 16) by(bit_vector); }
pub broadcast proof fn lemma_and31(o: u8)
    ensures #[trigger] (o & 31) == o % 32
{ assert(o & 31 == o % 32) by(bit_vector); }
pub broadcast proof fn lemma_and63(o: u8)
    ensures #[trigger] (o & 63) == o % 64
{ assert(o & 63 == o % 64) by(bit_vector); }
pub broadcast proof fn lemma_and127(o: u8)
    ensures #[trigger] (o & 127) == o % 128
{ assert(o & 127 == o % 128) by(bit_vector); }
pub broadcast proof fn lemma_and192(o: u8)
    ensures #[trigger] (o & 192) == o / 64 * 64
{ assert(o & 192 == o / 64 * 64) by(bit_vector); }
pub broadcast proof fn lemma_and224(o: u8)
    ensures #[trigger] (o & 224) == o / 32 * 32
{ assert(o & 224 == o / 32 * 32) by(bit_vector); }
pub broadcast proof fn lemma_and240(o: u8)
    ensures #[trigger] (o & 240) == o / 16 * 16
{ assert(o & 240 == o / 16 * 16) by(bit_vector); }
pub broadcast group group_bits { lemma_bit1, lemma_bit2, lemma_bit4, lemma_bit8, lemma_bit16, lemma_bit32, lemma_bit64, lemma_bit128, lemma_shr1, lemma_shr2, lemma_shr3, lemma_shr4, lemma_shr5, lemma_shr6, lemma_shr7, lemma_and15, lemma_and31, lemma_and63, lemma_and127, lemma_and192, lemma_and224, lemma_and240 }
pub proof fn lemma_prefix(n: u8, f: u8)
    ensures 1 <= n <= 8 ==> {
        &&& pow2i(n as int) == 1i32 << n && 2 <= pow2i(n as int) <= 256
        &&& top(f, n as int) == (f & ((255 - (((1i32 << n) - 1) as u8)) as u8))
        &&& 0 <= top(f, n as int) <= 255 - (pow2i(n as int) - 1)
        &&& forall|v: u8| v <= pow2i(n as int) - 1 ==> #[trigger] ((f & ((255 - (((1i32 << n) - 1) as u8)) as u8)) | v) == top(f, n as int) + v
    }
{
    lemma_pow2i_small();
    if 1 <= n <= 8 {
        assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
        assert(f & 254 == f / 2 * 2 && f & 252 == f / 4 * 4 && f & 248 == f / 8 * 8 && f & 240 == f / 16 * 16 && f & 224 == f / 32 * 32 && f & 192 == f / 64 * 64 && f & 128 == f / 128 * 128 && f & 0 == 0) by(bit_vector);
        assert forall|v: u8| v <= pow2i(n as int) - 1 implies #[trigger] ((f & ((255 - (((1i32 << n) - 1) as u8)) as u8)) | v) == top(f, n as int) + v by {
            assert(v <= 1 ==> (f & 254) | v == (f & 254) + v) by(bit_vector);
            assert(v <= 3 ==> (f & 252) | v == (f & 252) + v) by(bit_vector);
            assert(v <= 7 ==> (f & 248) | v == (f & 248) + v) by(bit_vector);
            assert(v <= 15 ==> (f & 240) | v == (f & 240) + v) by(bit_vector);
            assert(v <= 31 ==> (f & 224) | v == (f & 224) + v) by(bit_vector);
            assert(v <= 63 ==> (f & 192) | v == (f & 192) + v) by(bit_vector);
            assert(v <= 127 ==> (f & 128) | v == (f & 128) + v) by(bit_vector);
            assert((f & 0) | v == v) by(bit_vector);
        }
    }
}
// The same numbers, written in other ways.
pub proof fn lemma_prefix_forms(n: u8)
    requires 1 <= n <= 8
    ensures pow2i(n as int) == 1i32 << n, pow2i(n as int) == 1u16 << n, pow2i(n as int) == 1u32 << n, pow2i(n as int) == 1u64 << n, pow2i(n as int) == 1usize << n,
        pow2i(n as int) == 1u32 << (n as u32), pow2i(n as int) - 1 == 255u8 >> ((8 - n) as u8), forall|m: u8| #[trigger] !m == 255 - m
{
    lemma_pow2i_small();
    assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
    assert(1u16 << 1u8 == 2 && 1u16 << 2u8 == 4 && 1u16 << 3u8 == 8 && 1u16 << 4u8 == 16 && 1u16 << 5u8 == 32 && 1u16 << 6u8 == 64 && 1u16 << 7u8 == 128 && 1u16 << 8u8 == 256) by(bit_vector);
    assert(1u32 << 1u8 == 2 && 1u32 << 2u8 == 4 && 1u32 << 3u8 == 8 && 1u32 << 4u8 == 16 && 1u32 << 5u8 == 32 && 1u32 << 6u8 == 64 && 1u32 << 7u8 == 128 && 1u32 << 8u8 == 256) by(bit_vector);
    assert(1u64 << 1u8 == 2 && 1u64 << 2u8 == 4 && 1u64 << 3u8 == 8 && 1u64 << 4u8 == 16 && 1u64 << 5u8 == 32 && 1u64 << 6u8 == 64 && 1u64 << 7u8 == 128 && 1u64 << 8u8 == 256) by(bit_vector);
    assert(1usize << 1u8 == 2 && 1usize << 2u8 == 4 && 1usize << 3u8 == 8 && 1usize << 4u8 == 16 && 1usize << 5u8 == 32 && 1usize << 6u8 == 64 && 1usize << 7u8 == 128 && 1usize << 8u8 == 256) by(bit_vector);
    assert(1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16 && 1u32 << 5u32 == 32 && 1u32 << 6u32 == 64 && 1u32 << 7u32 == 128 && 1u32 << 8u32 == 256) by(bit_vector);
    assert(255u8 >> 7u8 == 1 && 255u8 >> 6u8 == 3 && 255u8 >> 5u8 == 7 && 255u8 >> 4u8 == 15 && 255u8 >> 3u8 == 31 && 255u8 >> 2u8 == 63 && 255u8 >> 1u8 == 127 && 255u8 >> 0u8 == 255) by(bit_vector);
    assert forall|m: u8| #[trigger] !m == 255 - m by { assert(!m == 255 - m) by(bit_vector); }
}
pub proof fn lemma_group_forms(v: u32)
    ensures v >> 7 == v / 128, v & 127 == v % 128, (v as u8) & 127 == v % 128, (v & 0xff) as u8 == v as u8,
        0b10000000 | v as u8 == 128 + v % 128, v as u8 | 0b10000000 == 128 + v % 128, 0b10000000 | (v & 127) as u8 == 128 + v % 128, (v & 127) as u8 | 0b10000000 == 128 + v % 128,
        0b10000000 | (v % 128) as u8 == 128 + v % 128, (v % 128) as u8 | 0b10000000 == 128 + v % 128, 0b10000000 | ((v as u8) & 127) == 128 + v % 128, ((v as u8) & 127) | 0b10000000 == 128 + v % 128,
        (v & 127 | 128) as u8 == 128 + v % 128, (128 | v & 127) as u8 == 128 + v % 128, v < 128 ==> v as u8 == v
{
    assert(v >> 7 == v / 128 && v & 127 == v % 128 && (v as u8) & 127 == v % 128 && (v & 0xff) as u8 == v as u8) by(bit_vector);
    assert(0b10000000 | v as u8 == 128 + v % 128 && v as u8 | 0b10000000 == 128 + v % 128 && 0b10000000 | (v & 127) as u8 == 128 + v % 128 && (v & 127) as u8 | 0b10000000 == 128 + v % 128) by(bit_vector);
    assert(0b10000000 | (v % 128) as u8 == 128 + v % 128 && (v % 128) as u8 | 0b10000000 == 128 + v % 128 && 0b10000000 | ((v as u8) & 127) == 128 + v % 128 && ((v as u8) & 127) | 0b10000000 == 128 + v % 128) by(bit_vector);
    assert((v & 127 | 128) as u8 == 128 + v % 128 && (128 | v & 127) as u8 == 128 + v % 128) by(bit_vector);
}
pub proof fn lemma_octet_forms(o: u8, s: int)
    requires s == 0 || s == 7 || s == 14 || s == 21
    ensures o & 127 == o % 128, (o as u32) & 127 == o % 128, (o & 128 == 0) == (o < 128), (o & 128 != 0) == (o >= 128), (o & 128 == 128) == (o >= 128), o >> 7 == o / 128,
        pow2i(s) == 1u32 << (s as u32), pow2i(s) == 1u32 << (s as i32), pow2i(s) == 1u32 << (s as usize), pow2i(s) == 1u32 << (s as u8),
        ((o & 127) as u32) << (s as usize) == (o as int % 128) * pow2i(s), ((o & 127) as u32) << (s as u8) == (o as int % 128) * pow2i(s),
        ((o % 128) as u32) << (s as i32) == (o as int % 128) * pow2i(s), ((o as u32) & 127) << (s as i32) == (o as int % 128) * pow2i(s),
        ((o % 128) as u32) << (s as u32) == (o as int % 128) * pow2i(s), ((o as u32) & 127) << (s as u32) == (o as int % 128) * pow2i(s)
{
    lemma_pow_shifts();
    assert(o & 127 == o % 128 && (o as u32) & 127 == o % 128 && (o & 128 == 0) == (o < 128) && (o & 128 != 0) == (o >= 128) && (o & 128 == 128) == (o >= 128) && o >> 7 == o / 128) by(bit_vector);
    assert(1u32 << 0u32 == 1 && 1u32 << 7u32 == 128 && 1u32 << 14u32 == 0x4000 && 1u32 << 21u32 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0i32 == 1 && 1u32 << 7i32 == 128 && 1u32 << 14i32 == 0x4000 && 1u32 << 21i32 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0u8 == 1 && 1u32 << 7u8 == 128 && 1u32 << 14u8 == 0x4000 && 1u32 << 21u8 == 0x20_0000) by(bit_vector);
    assert(1u32 << 0usize == 1 && 1u32 << 7usize == 128 && 1u32 << 14usize == 0x4000 && 1u32 << 21usize == 0x20_0000) by(bit_vector);
    let w = (o % 128) as u32;
    assert(w < 128 ==> w << 0i32 == w && w << 7i32 == w * 128 && w << 14i32 == w * 0x4000 && w << 21i32 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0u32 == w && w << 7u32 == w * 128 && w << 14u32 == w * 0x4000 && w << 21u32 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0u8 == w && w << 7u8 == w * 128 && w << 14u8 == w * 0x4000 && w << 21u8 == w * 0x20_0000) by(bit_vector);
    assert(w < 128 ==> w << 0usize == w && w << 7usize == w * 128 && w << 14usize == w * 0x4000 && w << 21usize == w * 0x20_0000) by(bit_vector);
}
pub proof fn lemma_low(n: u8, o: u8)
    requires 1 <= n <= 8
    ensures (o & (((1i32 << n) - 1) as u8)) == o as int % pow2i(n as int)
{
    lemma_pow2i_small();
    assert(1i32 << 1u8 == 2 && 1i32 << 2u8 == 4 && 1i32 << 3u8 == 8 && 1i32 << 4u8 == 16 && 1i32 << 5u8 == 32 && 1i32 << 6u8 == 64 && 1i32 << 7u8 == 128 && 1i32 << 8u8 == 256) by(bit_vector);
    assert(o & 1 == o % 2 && o & 3 == o % 4 && o & 7 == o % 8 && o & 15 == o % 16 && o & 31 == o % 32 && o & 63 == o % 64 && o & 127 == o % 128 && o & 255 == o) by(bit_vector);
}
pub proof fn lemma_group(v: u32, d: Seq<u8>)
    requires v >= 128
    ensures d.push(0b10000000 | v as u8) + tail7((v >> 7) as int) == d + tail7(v as int), v >> 7 < v
{
    assert(0b10000000 | v as u8 == 128 + v % 128) by(bit_vector);
    assert(v >> 7 == v / 128) by(bit_vector);
    assert(d.push((128 + v % 128) as u8) + tail7((v / 128) as int) =~= d + tail7(v as int));
}
pub proof fn lemma_pow_shifts()
    ensures pow2i(0) == 1, pow2i(7) == 128, pow2i(14) == 0x4000, pow2i(21) == 0x20_0000, pow2i(28) == 0x1000_0000
{ assert(pow2i(0) == 1 && pow2i(7) == 128 && pow2i(14) == 0x4000 && pow2i(21) == 0x20_0000 && pow2i(28) == 0x1000_0000) by(compute_only); }
pub proof fn lemma_dec_group(o: u8, s: int)
    requires s == 0 || s == 7 || s == 14 || s == 21
    ensures
        ((o & 127) as u32) << (s as i32) == (o as int % 128) * pow2i(s), ((o & 127) as u32) << (s as u32) == (o as int % 128) * pow2i(s),
        0 <= (o as int % 128) * pow2i(s) <= 127 * pow2i(s), 1 <= pow2i(s) <= 0x20_0000, pow2i(s + 7) == pow2i(s) * 128, (o & 128 == 0) == (o < 128)
{
    lemma_pow_shifts();
    assert((o & 128 == 0) == (o < 128)) by(bit_vector);
    assert(((o & 127) as u32) << 0i32 == (o % 128) as u32 && ((o & 127) as u32) << 7i32 == ((o % 128) as u32) * 128 && ((o & 127) as u32) << 14i32 == ((o % 128) as u32) * 0x4000 && ((o & 127) as u32) << 21i32 == ((o % 128) as u32) * 0x20_0000) by(bit_vector);
    assert(((o & 127) as u32) << 0u32 == (o % 128) as u32 && ((o & 127) as u32) << 7u32 == ((o % 128) as u32) * 128 && ((o & 127) as u32) << 14u32 == ((o % 128) as u32) * 0x4000 && ((o & 127) as u32) << 21u32 == ((o % 128) as u32) * 0x20_0000) by(bit_vector);
}
// What decoding appends is the string that is meant.
pub proof fn lemma_read_str(src: Seq<u8>, o: Seq<u8>)
    ensures forall|f: Seq<u8>| #[trigger] read_huff(src, o, f) ==> f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src))
{
    assert forall|f: Seq<u8>| #[trigger] read_huff(src, o, f) implies f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src)) by {
        let n = o.len() as int;
        assert(huff(f.skip(n), src));
        thm_decoding_unique(f.skip(n), choose|s: Seq<u8>| #[trigger] huff(s, src), src);
        assert(f =~= f.take(n) + f.skip(n));
    }
}
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_push_one(d: Seq<u8>, x: u8)
    ensures #[trigger] d.push(x) == d + seq![x]
{ assert(d.push(x) =~= d + seq![x]); }
pub broadcast proof fn lemma_same_octets(a: &[u8], b: &[u8])
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@)
{ assert(a@ =~= b@ <==> a@ == b@); }
pub proof fn lemma_read_any(o: Seq<u8>)
    ensures forall|src: Seq<u8>, f: Seq<u8>| #[trigger] read_huff(src, o, f) ==> f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src))
{
    assert forall|src: Seq<u8>, f: Seq<u8>| #[trigger] read_huff(src, o, f) implies f == o + (choose|s: Seq<u8>| #[trigger] huff(s, src)) by { lemma_read_str(src, o); }
}
pub proof fn lemma_zero(d: Seq<u8>)
    ensures d.push(0x40) == d + int_enc(0, 0x40, 6), d.push(0x10) == d + int_enc(0, 0x10, 4), d.push(0) == d + int_enc(0, 0, 4)
{
    lemma_pow2i_small();
    assert(d.push(0x40) =~= d + int_enc(0, 0x40, 6)); assert(d.push(0x10) =~= d + int_enc(0, 0x10, 4)); assert(d.push(0) =~= d + int_enc(0, 0, 4));
}
pub proof fn lemma_never(f: u8)
    ensures (f & 0xC != 0x8) == (mark(f) != 8)
{
    assert((f & 0xC != 0x8) == (f & 4 == 4 || f & 8 != 8)) by(bit_vector);
}
// ------------------------------------------------------- lemmas: tables
pub proof fn lemma_dsize_push_front(d: Seq<Entry>, e: Entry)
    ensures dsize(seq![e] + d) == esize(e) + dsize(d)
    decreases d.len()
{
    if d.len() == 0 { assert((seq![e] + d).drop_last() =~= Seq::empty()); assert((seq![e] + d).last() == e); assert(dsize(Seq::<Entry>::empty()) == 0); }
    else {
        assert((seq![e] + d).drop_last() =~= seq![e] + d.drop_last());
        lemma_dsize_push_front(d.drop_last(), e);
    }
}
pub proof fn lemma_dsize(d: Seq<Entry>)
    ensures dsize(d) >= 32 * d.len()
    decreases d.len()
{ if d.len() > 0 { lemma_dsize(d.drop_last()); } }
pub proof fn lemma_pop(d: Seq<(Vec<u8>, Vec<u8>)>)
    ensures d.len() == 0 ==> dsize(entries(d)) == 0,
        d.len() > 0 ==> entries(d.drop_last()) == entries(d).drop_last() && dsize(entries(d.drop_last())) >= 0 && dsize(entries(d)) == dsize(entries(d.drop_last())) + d.last().0@.len() + d.last().1@.len() + 32
{
    if d.len() > 0 {
        assert(entries(d.drop_last()) =~= entries(d).drop_last());
        lemma_dsize(entries(d.drop_last()));
        assert(entries(d).last() == (d.last().0@, d.last().1@));
    }
}
pub broadcast proof fn lemma_short_table(t: TV)
    ensures #[trigger] fits(t) ==> t.dy.len() <= 0x800_0000
{ lemma_dsize(t.dy); }
pub proof fn lemma_evict_fits(d: Seq<Entry>, max: int)
    requires max >= 0
    ensures dsize(evict(d, max)) <= max
    decreases d.len()
{ if d.len() > 0 && dsize(d) > max { lemma_evict_fits(d.drop_last(), max); } }
// ------------------------------------------------------- lemmas: search
pub open spec fn is_entry(t: TV, i: int, r: Option<(&[u8], &[u8])>) -> bool {
    match r { Some(h) => lookup(t, i) == Some((h.0@, h.1@)), None => lookup(t, i) is None }
}
pub open spec fn opt_index(r: Option<(usize, bool)>) -> Option<(int, bool)> { match r { Some((i, b)) => Some((i as int, b)), None => None } }
// No index up to n matches in full; m is the lowest one that matches the name.
pub open spec fn searched(t: TV, n: Seq<u8>, v: Seq<u8>, k: int, m: Option<usize>) -> bool {
    &&& forall|j: int| j <= k ==> !#[trigger] is_at(t, j, n, v)
    &&& match m {
        Some(i) => named(t, i as int, n) && forall|j: int| j < i ==> !#[trigger] named(t, j, n),
        None => forall|j: int| j <= k ==> !#[trigger] named(t, j, n),
    }
}
pub proof fn lemma_found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>)
    requires found(t, n, v, r)
    ensures find(t, n, v) == r
{
    let q = find(t, n, v);
    assert(found(t, n, v, q));
    match (q, r) {
        (Some((i, true)), Some((j, true))) => { if i < j { assert(!is_at(t, i, n, v)); } if j < i { assert(!is_at(t, j, n, v)); } },
        (Some((i, false)), Some((j, false))) => { if i < j { assert(!named(t, i, n)); } if j < i { assert(!named(t, j, n)); } },
        (Some((i, true)), Some((j, false))) => { assert(!is_at(t, i, n, v)); },
        (Some((i, false)), Some((j, true))) => { assert(!is_at(t, j, n, v)); },
        (None, Some((j, b))) => { assert(!named(t, j, n)); },
        (Some((j, b)), None) => { assert(!named(t, j, n)); },
        (None, None) => {},
    }
}
pub proof fn lemma_raw(s: Seq<u8>, w: Seq<u8>)
    requires huff(s, w)
    ensures raw(s, true) == w
{ thm_encoding_unique(s, w, raw(s, true)); }
pub proof fn lemma_raw_all(s: Seq<u8>)
    ensures forall|w: Seq<u8>| huff(s, #[trigger] w.skip(0)) ==> w == raw(s, true)
{
    assert forall|w: Seq<u8>| huff(s, #[trigger] w.skip(0)) implies w == raw(s, true) by { assert(w.skip(0) =~= w); lemma_raw(s, w); }
}
pub open spec fn entries(d: Seq<(Vec<u8>, Vec<u8>)>) -> Seq<Entry> { d.map_values(|e: (Vec<u8>, Vec<u8>)| (e.0@, e.1@)) }
pub broadcast proof fn lemma_entries_push_front(d: Seq<(Vec<u8>, Vec<u8>)>, e: (Vec<u8>, Vec<u8>))
    ensures entries(#[trigger] (seq![e] + d)) == seq![(e.0@, e.1@)] + entries(d)
{ assert(entries(seq![e] + d) =~= seq![(e.0@, e.1@)] + entries(d)); }
pub broadcast proof fn lemma_entries_drop_last(d: Seq<(Vec<u8>, Vec<u8>)>)
    requires d.len() > 0
    ensures entries(#[trigger] d.drop_last()) == entries(d).drop_last()
{ assert(entries(d.drop_last()) =~= entries(d).drop_last()); }
pub broadcast proof fn lemma_entries_len(d: Seq<(Vec<u8>, Vec<u8>)>)
    ensures (#[trigger] entries(d)).len() == d.len()
{}

// ======================================================= theorems
// ------------------------------------------------------- H01
pub proof fn lemma_tail7_len(w: int, k: int)
    requires 0 <= w, 0 <= k
    ensures tail7(w).len() >= 1, w < 128 * pow2i(7 * k) <==> tail7(w).len() <= k + 1
    decreases k + w
{
    lemma_pow_step(k);
    if w < 128 { assert(128 * pow2i(7 * k) >= 128); }
    else {
        lemma_tail7_len(w / 128, if k > 0 { k - 1 } else { 0 });
        if k > 0 { lemma_pow_step(k - 1); assert((w < 128 * pow2i(7 * k)) == (w / 128 < pow2i(7 * k))); assert(pow2i(7 * k) == 128 * pow2i(7 * (k - 1))); }
        else { assert(pow2i(0) == 1); }
    }
}
pub proof fn lemma_pow_step(k: int)
    requires 0 <= k
    ensures pow2i(7 * k) >= 1, pow2i(7 * k + 7) == 128 * pow2i(7 * k)
    decreases k
{
    if k > 0 { lemma_pow_step(k - 1); }
    let a = 7 * k;
    assert(pow2i(a + 1) == 2 * pow2i(a)); assert(pow2i(a + 2) == 2 * pow2i(a + 1)); assert(pow2i(a + 3) == 2 * pow2i(a + 2)); assert(pow2i(a + 4) == 2 * pow2i(a + 3));
    assert(pow2i(a + 5) == 2 * pow2i(a + 4)); assert(pow2i(a + 6) == 2 * pow2i(a + 5)); assert(pow2i(a + 7) == 2 * pow2i(a + 6));
}
pub open spec fn at(b: Seq<u8>, i: int, s: Seq<u8>) -> bool { 0 <= i && i + s.len() <= b.len() && b.subrange(i, i + s.len()) == s }
pub proof fn lemma_read_tail7(b: Seq<u8>, i: int, w: int, acc: int, mul: int)
    requires at(b, i, tail7(w)), 0 <= w, i <= 5
    ensures int_more(b, i, acc, mul) == if i + tail7(w).len() <= 5 { IntR::Val(acc + w * mul, i + tail7(w).len()) } else { IntR::Long }
    decreases w
{
    let s = tail7(w);
    lemma_tail7_len(w, 0);
    assert(b[i] == b.subrange(i, i + s.len())[0]);
    if w < 128 {
        assert(s.len() == 1 && b[i] == w);
    } else {
        let r = tail7(w / 128);
        assert(s.len() == r.len() + 1 && b[i] == 128 + w % 128);
        assert(b.subrange(i + 1, i + 1 + r.len()) =~= r) by { assert(s.skip(1) =~= r); assert(b.subrange(i, i + s.len()).skip(1) =~= b.subrange(i + 1, i + 1 + r.len())); }
        lemma_tail7_len(w / 128, 0);
        if i < 5 {
            lemma_read_tail7(b, i + 1, w / 128, acc + (w % 128) * mul, mul * 128);
            assert((w % 128) * mul + (w / 128) * (mul * 128) == w * mul) by(nonlinear_arith);
            assert(b[i] as int % 128 == w % 128);
        }
    }
}
// What the encoder writes for a number: the flags above the prefix are kept, the number reads back, and nothing shorter says the same.
pub proof fn thm_int_round_trip(v: int, flags: u8, n: int, rest: Seq<u8>)
    requires 0 <= v, 1 <= n <= 8
    ensures ({
        let e = int_enc(v, flags, n);
        &&& e.len() >= 1 && e[0] as int / pow2i(n) == flags as int / pow2i(n)
        &&& int_dec(e + rest, n) == if e.len() <= 5 { IntR::Val(v, e.len() as int) } else { IntR::Long }
        &&& e.len() <= 5 <==> v < pow2i(n) - 1 + 0x1000_0000
    })
{
    let e = int_enc(v, flags, n); let m = pow2i(n) - 1; let b = e + rest;
    lemma_pow2i_small(); lemma_pow_shifts();
    lemma_top(flags, n);
    assert(b[0] == e[0]);
    if v < m {
        lemma_top_add(flags, n, v);
        assert(e.len() == 1);
    } else {
        lemma_top_add(flags, n, m);
        let t = tail7(v - m);
        assert(e.len() == 1 + t.len());
        assert(b.subrange(1, 1 + t.len() as int) =~= t);
        lemma_tail7_len(v - m, 3);
        lemma_read_tail7(b, 1, v - m, m, 1);
    }
}
pub proof fn lemma_top(flags: u8, n: int)
    requires 1 <= n <= 8
    ensures 0 <= top(flags, n) <= 256 - pow2i(n), 2 <= pow2i(n) <= 256
{ lemma_prefix(n as u8, flags); }
pub proof fn lemma_top_add(flags: u8, n: int, v: int)
    requires 1 <= n <= 8, 0 <= v < pow2i(n)
    ensures ((top(flags, n) + v) as u8) as int % pow2i(n) == v, ((top(flags, n) + v) as u8) as int / pow2i(n) == flags as int / pow2i(n), (top(flags, n) + v) as u8 == top(flags, n) + v
{
    lemma_top(flags, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(top(flags, n) + v, pow2i(n), flags as int / pow2i(n), v);
}
pub proof fn lemma_more_len(b: Seq<u8>, i: int, acc: int, mul: int)
    requires 1 <= i, mul >= 1, int_more(b, i, acc, mul) is Val
    ensures ({ let v = int_more(b, i, acc, mul)->Val_0; let u = int_more(b, i, acc, mul)->Val_1; i < u <= 5 && acc <= v && exists|w: int| v == acc + w * mul && #[trigger] tail7(w).len() <= u - i && 0 <= w })
    decreases 5 - i
{
    let d = b[i] as int % 128;
    if b[i] < 128 {
        assert(tail7(d).len() == 1);
        assert(d * mul >= 0) by(nonlinear_arith) requires d >= 0, mul >= 1;
    } else {
        lemma_more_len(b, i + 1, acc + d * mul, mul * 128);
        let v = int_more(b, i, acc, mul)->Val_0; let u = int_more(b, i, acc, mul)->Val_1;
        let w = choose|w: int| v == acc + d * mul + w * (mul * 128) && #[trigger] tail7(w).len() <= u - i - 1 && 0 <= w;
        let x = w * 128 + d;
        assert(d * mul + w * (mul * 128) == x * mul) by(nonlinear_arith) requires x == w * 128 + d;
        assert(x * mul >= 0) by(nonlinear_arith) requires x >= 0, mul >= 1;
        lemma_tail7_len(w, 0);
        if x >= 128 { assert(x / 128 == w); assert(tail7(x).len() == 1 + tail7(w).len()); } else { assert(tail7(x).len() == 1); }
    }
}
pub proof fn thm_int_shortest(b: Seq<u8>, flags: u8, n: int)
    requires 1 <= n <= 8, int_dec(b, n) is Val
    ensures int_enc(int_dec(b, n)->Val_0, flags, n).len() <= int_dec(b, n)->Val_1
{
    lemma_pow2i_small();
    let m = pow2i(n) - 1;
    if b[0] as int % pow2i(n) >= m {
        lemma_more_len(b, 1, m, 1);
        let v = int_dec(b, n)->Val_0; let u = int_dec(b, n)->Val_1;
        let w = choose|w: int| v == m + w * 1 && #[trigger] tail7(w).len() <= u - 1 && 0 <= w;
        assert(w == v - m);
    }
}
// ------------------------------------------------------- more octets (H01, H03, H11)
pub proof fn lemma_more_prefix(b: Seq<u8>, c: Seq<u8>, i: int, acc: int, mul: int)
    requires 0 <= i
    ensures !(int_more(b, i, acc, mul) is Short) ==> int_more(b + c, i, acc, mul) == int_more(b, i, acc, mul)
    decreases 5 - i
{
    if i < 5 && i < b.len() {
        assert((b + c)[i] == b[i]);
        lemma_more_prefix(b, c, i + 1, acc + (b[i] as int % 128) * mul, mul * 128);
    }
}
pub proof fn thm_int_prefix(b: Seq<u8>, c: Seq<u8>, n: int)
    ensures !(int_dec(b, n) is Short) ==> int_dec(b + c, n) == int_dec(b, n)
{
    if b.len() > 0 { assert((b + c)[0] == b[0]); lemma_more_prefix(b, c, 1, pow2i(n) - 1, 1); }
}
pub proof fn thm_str_prefix(b: Seq<u8>, c: Seq<u8>)
    ensures !(str_dec(b) is Short) ==> str_dec(b + c) == str_dec(b)
{
    thm_int_prefix(b, c, 7); lemma_int_dec(b, 7);
    if let IntR::Val(l, u) = int_dec(b, 7) { if l <= b.len() - u { assert((b + c).subrange(u, u + l) =~= b.subrange(u, u + l)); assert((b + c)[0] == b[0]); } }
}
pub proof fn lemma_value_prefix(t: TV, b: Seq<u8>, c: Seq<u8>, u: int, name: Seq<u8>, f: u8)
    requires 0 <= u <= b.len()
    ensures dec_value(t, b, u, name, f) != StepR::Stop(Fail::Short) ==> dec_value(t, b + c, u, name, f) == dec_value(t, b, u, name, f)
{ assert((b + c).skip(u) =~= b.skip(u) + c); thm_str_prefix(b.skip(u), c); }
pub proof fn lemma_lit_prefix(t: TV, b: Seq<u8>, c: Seq<u8>, n: int, f: u8)
    requires 1 <= n <= 8
    ensures dec_lit(t, b, n, f) != StepR::Stop(Fail::Short) ==> dec_lit(t, b + c, n, f) == dec_lit(t, b, n, f)
{
    thm_int_prefix(b, c, n); lemma_int_dec(b, n);
    if let IntR::Val(i, u) = int_dec(b, n) {
        assert((b + c).skip(u) =~= b.skip(u) + c);
        thm_str_prefix(b.skip(u), c); lemma_str_dec(b.skip(u));
        if i == 0 { if let StrR::Val(name, k) = str_dec(b.skip(u)) { lemma_value_prefix(t, b, c, u + k, name, f); } }
        else if let Some(e) = lookup(t, i) { lemma_value_prefix(t, b, c, u, e.0, f); }
    }
}
// Whatever a representation means or breaks does not depend on what follows it.
pub proof fn thm_step_prefix(t: TV, limit: int, b: Seq<u8>, c: Seq<u8>)
    requires b.len() > 0
    ensures step(t, limit, b) != StepR::Stop(Fail::Short) ==> step(t, limit, b + c) == step(t, limit, b)
{
    assert((b + c)[0] == b[0]);
    thm_int_prefix(b, c, 7); thm_int_prefix(b, c, 5);
    lemma_lit_prefix(t, b, c, 6, 4); lemma_lit_prefix(t, b, c, 4, 8); lemma_lit_prefix(t, b, c, 4, 0);
}
// Part of a representation is reported as too short.
pub proof fn thm_step_cut(t: TV, limit: int, b: Seq<u8>, k: int)
    requires b.len() > 0, step(t, limit, b) is Done, 0 < k < step(t, limit, b)->Done_2
    ensures step(t, limit, b.take(k)) == StepR::Stop(Fail::Short)
{
    lemma_step(t, limit, b); lemma_step(t, limit, b.take(k));
    assert(b.take(k) + b.skip(k) =~= b);
    thm_step_prefix(t, limit, b.take(k), b.skip(k));
}
// H11: stopping for want of octets and going on when they are there is as good as having had them at once;
// any other failure stays one.
pub proof fn thm_resume(t: TV, limit: int, b: Seq<u8>, c: Seq<u8>)
    ensures ({
        let r = run_all(t, limit, b);
        0 <= r.used <= b.len() && run_all(t, limit, b + c) == if r.fail is None || r.fail == Some(Fail::Short) { join(r.out, r.used, run_all(r.t, limit, b.skip(r.used) + c)) } else { r }
    })
    decreases b.len()
{
    hide(step); hide(run);
    let r = run_all(t, limit, b);
    lemma_run_all(t, limit, b); lemma_run_all(t, limit, b + c);
    if b.len() == 0 {
        assert(b.skip(0) + c =~= b + c);
        assert(Seq::<Field>::empty() + run_all(t, limit, b + c).out =~= run_all(t, limit, b + c).out);
    } else {
        thm_step_prefix(t, limit, b, c);
        match step(t, limit, b) {
            StepR::Stop(e) => {
                assert(b.skip(0) + c =~= b + c);
                assert(Seq::<Field>::empty() + run_all(t, limit, b + c).out =~= run_all(t, limit, b + c).out);
            },
            StepR::Done(t1, f, u) => {
                thm_resume(t1, limit, b.skip(u), c);
                let q = run_all(t1, limit, b.skip(u));
                assert((b + c).skip(u) =~= b.skip(u) + c);
                assert(b.skip(r.used) =~= b.skip(u).skip(q.used));
                let z = run_all(r.t, limit, b.skip(r.used) + c);
                assert(opt(f) + (q.out + z.out) =~= (opt(f) + q.out) + z.out);
            },
        }
    }
}
// ------------------------------------------------------- H03
pub proof fn lemma_raw_huff(s: Seq<u8>)
    ensures huff(s, raw(s, true))
{ thm_encodable(s); }
pub open spec fn short(s: Seq<u8>, h: bool) -> bool { raw(s, h).len() < 0x1000_007f }
pub proof fn lemma_str_full(s: Seq<u8>, h: bool, rest: Seq<u8>)
    requires short(s, h)
    ensures str_dec(str_enc(s, h) + rest) == StrR::Val(s, str_enc(s, h).len() as int), (str_enc(s, h)[0] >= 128) == h
{
    hide(int_enc); hide(int_dec);
    let r = raw(s, h); let n = r.len() as int; let fl = if h { 0x80u8 } else { 0 };
    let i = int_enc(n, fl, 7); let e = str_enc(s, h); let b = e + rest;
    lemma_pow2i_small();
    thm_int_round_trip(n, fl, 7, r + rest);
    assert(b =~= i + (r + rest));
    assert(b[0] == i[0] && e[0] == i[0]);
    assert(b.subrange(i.len() as int, i.len() + n) =~= r);
    assert(int_dec(b, 7) == IntR::Val(n, i.len() as int));
    assert((b[0] >= 128) == h);
    if h {
        lemma_raw_huff(s);
        assert(huff(s, r));
        thm_decoding_unique(s, choose|x: Seq<u8>| #[trigger] huff(x, r), r);
    }
}
pub proof fn lemma_str_cut(s: Seq<u8>, h: bool, k: int)
    requires short(s, h), 0 <= k < str_enc(s, h).len()
    ensures str_dec(str_enc(s, h).take(k)) is Short
{
    hide(str_dec); hide(str_enc);
    let e = str_enc(s, h);
    lemma_str_full(s, h, Seq::empty());
    assert(e + Seq::<u8>::empty() =~= e);
    assert(e.take(k) + e.skip(k) =~= e);
    thm_str_prefix(e.take(k), e.skip(k));
    lemma_str_dec(e.take(k));
}
pub proof fn thm_str_round_trip(s: Seq<u8>, h: bool, rest: Seq<u8>)
    requires short(s, h)
    ensures str_dec(str_enc(s, h) + rest) == StrR::Val(s, str_enc(s, h).len() as int), (str_enc(s, h)[0] >= 128) == h,
        forall|k: int| 0 <= k < str_enc(s, h).len() ==> str_dec(#[trigger] str_enc(s, h).take(k)) is Short
{
    hide(str_dec); hide(str_enc);
    lemma_str_full(s, h, rest);
    assert forall|k: int| 0 <= k < str_enc(s, h).len() implies str_dec(#[trigger] str_enc(s, h).take(k)) is Short by { lemma_str_cut(s, h, k); }
}
// ------------------------------------------------------- H04
// What is left is the longest front (newest entries) that fits.
pub proof fn thm_evict(d: Seq<Entry>, max: int)
    requires 0 <= max
    ensures evict(d, max).len() <= d.len(), evict(d, max) == d.take(evict(d, max).len() as int), dsize(evict(d, max)) <= max,
        evict(d, max).len() < d.len() ==> dsize(d.take(evict(d, max).len() as int + 1)) > max
    decreases d.len()
{
    if d.len() == 0 || dsize(d) <= max { assert(d.take(d.len() as int) =~= d); }
    else {
        thm_evict(d.drop_last(), max);
        let k = evict(d, max).len() as int;
        assert(d.drop_last().take(k) =~= d.take(k));
        if k < d.drop_last().len() { assert(d.drop_last().take(k + 1) =~= d.take(k + 1)); } else { assert(d.take(k + 1) =~= d); }
    }
}
// RFC 7541, 4.4: room is made for the new entry; one larger than the whole table empties it and is not added.
pub proof fn thm_insert(t: TV, n: Seq<u8>, v: Seq<u8>)
    requires fits(t)
    ensures fits(insert(t, n, v)), insert(t, n, v).max == t.max,
        esize((n, v)) > t.max ==> insert(t, n, v).dy.len() == 0,
        esize((n, v)) <= t.max ==> insert(t, n, v).dy == seq![(n, v)] + evict(t.dy, t.max - esize((n, v)))
{
    lemma_evict_fits(seq![(n, v)] + t.dy, t.max);
    lemma_insert(t.dy, (n, v), t.max);
}
pub proof fn lemma_insert(d: Seq<Entry>, e: Entry, max: int)
    requires 0 <= max
    ensures esize(e) > max ==> evict(seq![e] + d, max).len() == 0, esize(e) <= max ==> evict(seq![e] + d, max) == seq![e] + evict(d, max - esize(e))
    decreases d.len()
{
    lemma_dsize_push_front(d, e); lemma_dsize(d);
    if d.len() == 0 {
        assert(evict((seq![e] + d).drop_last(), max).len() == 0) by { assert((seq![e] + d).drop_last() =~= Seq::empty()); }
    } else {
        lemma_insert(d.drop_last(), e, max);
        assert((seq![e] + d).drop_last() =~= seq![e] + d.drop_last());
    }
}
pub proof fn thm_resize(t: TV, m: int)
    requires 0 <= m <= u32::MAX
    ensures fits(resize(t, m)), fits(t) && m >= t.max ==> resize(t, m).dy == t.dy
{ lemma_evict_fits(t.dy, m); }
// ------------------------------------------------------- H05
pub proof fn thm_lookup(t: TV, i: int)
    ensures lookup(t, i) is Some <==> 1 <= i < 62 + t.dy.len(), 1 <= i <= 61 ==> lookup(t, i) == Some(rfc_static(i - 1)), 0 <= i < t.dy.len() ==> lookup(t, 62 + i) == Some(t.dy[i])
{}
pub proof fn thm_lookup_after_insert(t: TV, n: Seq<u8>, v: Seq<u8>, i: int)
    requires fits(t), esize((n, v)) <= t.max
    ensures lookup(insert(t, n, v), 62) == Some((n, v)), i >= 62 && lookup(insert(t, n, v), i + 1) is Some ==> lookup(insert(t, n, v), i + 1) == lookup(t, i)
{
    thm_insert(t, n, v); thm_evict(t.dy, t.max - esize((n, v)));
}
// ------------------------------------------------------- H06
pub proof fn thm_found(t: TV, n: Seq<u8>, v: Seq<u8>, r: Option<(int, bool)>)
    requires found(t, n, v, r)
    ensures find(t, n, v) == r, r is Some <==> exists|j: int| #[trigger] named(t, j, n),
        (r is Some && r.unwrap().1) <==> exists|j: int| #[trigger] is_at(t, j, n, v)
{
    lemma_found(t, n, v, r);
    match r {
        Some((i, true)) => { assert(is_at(t, i, n, v) && named(t, i, n)); },
        Some((i, false)) => { assert(named(t, i, n)); },
        None => { assert forall|j: int| !#[trigger] is_at(t, j, n, v) by { assert(!named(t, j, n)); } },
    }
}
pub proof fn lemma_first_named(t: TV, n: Seq<u8>, k: int) -> (r: Option<int>)
    ensures match r { Some(i) => named(t, i, n) && i <= k && forall|j: int| j < i ==> !#[trigger] named(t, j, n), None => forall|j: int| j <= k ==> !#[trigger] named(t, j, n) }
    decreases k
{
    if k <= 0 { None }
    else {
        let r = lemma_first_named(t, n, k - 1);
        if r is None && named(t, k, n) { Some(k) } else { r }
    }
}
pub proof fn lemma_first_at(t: TV, n: Seq<u8>, v: Seq<u8>, k: int) -> (r: Option<int>)
    ensures match r { Some(i) => is_at(t, i, n, v) && i <= k && forall|j: int| j < i ==> !#[trigger] is_at(t, j, n, v), None => forall|j: int| j <= k ==> !#[trigger] is_at(t, j, n, v) }
    decreases k
{
    if k <= 0 { None }
    else {
        let r = lemma_first_at(t, n, v, k - 1);
        if r is None && is_at(t, k, n, v) { Some(k) } else { r }
    }
}
// A search always has an answer.
pub proof fn thm_find(t: TV, n: Seq<u8>, v: Seq<u8>)
    ensures found(t, n, v, find(t, n, v))
{
    let k = 61 + t.dy.len() as int;
    let r = match lemma_first_at(t, n, v, k) {
        Some(i) => Some((i, true)),
        None => match lemma_first_named(t, n, k) { Some(i) => Some((i, false)), None => None },
    };
    assert(found(t, n, v, r));
}
// ------------------------------------------------------- H07, H08
// The header that is meant (None: a size change).
pub open spec fn meant(t: TV, x: Inp) -> Option<Field> {
    match x {
        Inp::Idx(i) => Some((lookup(t, i).unwrap().0, lookup(t, i).unwrap().1, 0)),
        Inp::Name(i, v, f) => Some((lookup(t, i).unwrap().0, v, mark(f))),
        Inp::Lit(n, v, f) => Some((n, v, if as_index(t, x) { 0 } else { mark(f) })),
        Inp::Size(m) => None,
    }
}
// A literal that is written as an index after all.
pub open spec fn as_index(t: TV, x: Inp) -> bool {
    match x { Inp::Lit(n, v, f) => f & 0x10 == 0x10 && mark(f) != 8 && exists|j: int| #[trigger] is_at(t, j, n, v), _ => false }
}
// Within what the decoder reads: integers of at most five octets, size changes up to the limit.
pub open spec fn readable(x: Inp, limit: int) -> bool {
    match x {
        Inp::Idx(i) => true,
        Inp::Name(i, v, f) => short(v, f & 2 == 2),
        Inp::Lit(n, v, f) => short(n, f & 1 == 1) && short(v, f & 2 == 2),
        Inp::Size(m) => 0 <= m <= limit && m < 0x1000_001f,
    }
}
pub proof fn lemma_value_item(t: TV, b: Seq<u8>, u: int, name: Seq<u8>, f: u8, v: Seq<u8>, h: bool, rest: Seq<u8>)
    requires 0 <= u <= b.len(), b.skip(u) == str_enc(v, h) + rest, short(v, h)
    ensures dec_value(t, b, u, name, f) == StepR::Done(if f == 4 { insert(t, name, v) } else { t }, Some((name, v, f)), u + str_enc(v, h).len())
{ thm_str_round_trip(v, h, rest); }
pub proof fn lemma_name_item(t: TV, i: int, v: Seq<u8>, f: u8, rest: Seq<u8>)
    requires fits(t), lookup(t, i) is Some, short(v, f & 2 == 2)
    ensures ({
        let o = int_enc(i, pattern(f), prefix(f)) + str_enc(v, f & 2 == 2); let n = lookup(t, i).unwrap().0;
        &&& dec_lit(t, o + rest, prefix(f), mark(f)) == StepR::Done(after(t, n, v, f), Some((n, v, mark(f))), o.len() as int)
        &&& o.len() > 0 && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    })
{
    lemma_short_table(t);
    let h = f & 2 == 2; let e = int_enc(i, pattern(f), prefix(f)); let o = e + str_enc(v, h); let b = o + rest;
    lemma_pow2i_small();
    thm_int_round_trip(i, pattern(f), prefix(f), str_enc(v, h) + rest);
    assert(b =~= e + (str_enc(v, h) + rest));
    assert(b.skip(e.len() as int) =~= str_enc(v, h) + rest);
    lemma_value_item(t, b, e.len() as int, lookup(t, i).unwrap().0, mark(f), v, h, rest);
}
pub proof fn lemma_lit_item(t: TV, n: Seq<u8>, v: Seq<u8>, f: u8, rest: Seq<u8>)
    requires short(n, f & 1 == 1), short(v, f & 2 == 2)
    ensures ({
        let o = enc_lit(t, n, v, f).unwrap().1;
        &&& dec_lit(t, o + rest, prefix(f), mark(f)) == StepR::Done(after(t, n, v, f), Some((n, v, mark(f))), o.len() as int)
        &&& o.len() > 0 && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    })
{
    hide(str_dec); hide(str_enc); hide(int_dec); hide(int_enc); hide(dec_value); hide(pow2i); hide(insert);
    let (g, h) = (f & 1 == 1, f & 2 == 2); let e = int_enc(0, pattern(f), prefix(f)); let o = e + str_enc(n, g) + str_enc(v, h); let b = o + rest;
    let w = str_enc(v, h) + rest; let k = e.len() as int; let l = str_enc(n, g).len() as int;
    lemma_pow2i_small();
    thm_int_round_trip(0, pattern(f), prefix(f), str_enc(n, g) + w);
    assert(b =~= e + (str_enc(n, g) + w));
    assert(b.skip(k) =~= str_enc(n, g) + w);
    thm_str_round_trip(n, g, w);
    assert(b.skip(k + l) =~= w);
    lemma_value_item(t, b, k + l, n, mark(f), v, h, rest);
}
pub proof fn lemma_index_item(t: TV, limit: int, i: int, rest: Seq<u8>)
    requires fits(t), lookup(t, i) is Some
    ensures ({
        let o = int_enc(i, 0x80, 7); let e = lookup(t, i).unwrap();
        &&& step(t, limit, o + rest) == StepR::Done(t, Some((e.0, e.1, 0)), o.len() as int)
        &&& o.len() > 0 && o[0] >= 0x80
    })
{
    lemma_short_table(t); lemma_pow2i_small();
    let o = int_enc(i, 0x80, 7);
    thm_int_round_trip(i, 0x80, 7, rest);
    assert((o + rest)[0] == o[0]);
}
pub proof fn lemma_lit_step(t: TV, limit: int, b: Seq<u8>, f: u8)
    requires b.len() > 0, b[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f))
    ensures step(t, limit, b) == dec_lit(t, b, prefix(f), mark(f)), b[0] < 0x80,
        mark(f) == 4 <==> 0x40 <= b[0] < 0x80, mark(f) == 8 <==> 0x10 <= b[0] < 0x20, mark(f) == 0 <==> b[0] < 0x10
{ lemma_pow2i_small(); }
// H07: one item, read by the decoder, is the header that was meant and leaves the table the encoder has.
pub proof fn thm_item(t: TV, limit: int, x: Inp, rest: Seq<u8>)
    requires fits(t), enc(t, x) is Some, readable(x, limit)
    ensures ({
        let (t1, o) = enc(t, x).unwrap();
        &&& step(t, limit, o + rest) == StepR::Done(t1, meant(t, x), o.len() as int)
        &&& o.len() > 0
    })
{
    let (t1, o) = enc(t, x).unwrap();
    match x {
        Inp::Idx(i) => { lemma_index_item(t, limit, i, rest); },
        Inp::Name(i, v, f) => {
            lemma_name_item(t, i, v, f, rest);
            assert((o + rest)[0] == o[0]);
            lemma_lit_step(t, limit, o + rest, f);
        },
        Inp::Lit(n, v, f) => {
            thm_find(t, n, v); thm_found(t, n, v, find(t, n, v));
            assert((o + rest).len() > 0 ==> o.len() > 0 ==> (o + rest)[0] == o[0]);
            match find(t, n, v) {
                Some((i, full)) => {
                    if f & 0x10 == 0x10 {
                        if full && mark(f) != 8 { assert(is_at(t, i, n, v)); lemma_index_item(t, limit, i, rest); }
                        else {
                            assert(named(t, i, n)) by { if full { assert(is_at(t, i, n, v)); } }
                            lemma_name_item(t, i, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f);
                        }
                    } else { lemma_lit_item(t, n, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f); }
                },
                None => { lemma_lit_item(t, n, v, f, rest); assert((o + rest)[0] == o[0]); lemma_lit_step(t, limit, o + rest, f); },
            }
        },
        Inp::Size(m) => {
            lemma_pow2i_small();
            thm_int_round_trip(m, 0x20, 5, rest);
            assert((o + rest)[0] == o[0]);
        },
    }
}
pub open spec fn enc_all(t: TV, xs: Seq<Inp>) -> Option<(TV, Seq<u8>)> decreases xs.len() {
    if xs.len() == 0 { Some((t, Seq::empty())) }
    else {
        match enc(t, xs[0]) {
            None => None,
            Some((t1, o)) => match enc_all(t1, xs.skip(1)) { None => None, Some((t2, o2)) => Some((t2, o + o2)) },
        }
    }
}
pub open spec fn meant_all(t: TV, xs: Seq<Inp>) -> Seq<Field> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { opt(meant(t, xs[0])) + meant_all(enc(t, xs[0]).unwrap().0, xs.skip(1)) }
}
pub proof fn lemma_enc_fits(t: TV, x: Inp)
    requires fits(t), enc(t, x) is Some, x is Size ==> 0 <= x->Size_0 <= u32::MAX
    ensures fits(enc(t, x).unwrap().0)
{
    match x {
        Inp::Idx(i) => {},
        Inp::Name(i, v, f) => { thm_insert(t, lookup(t, i).unwrap().0, v); },
        Inp::Lit(n, v, f) => {
            thm_insert(t, n, v);
            if let Some((i, full)) = find(t, n, v) { if lookup(t, i) is Some { thm_insert(t, lookup(t, i).unwrap().0, v); } }
        },
        Inp::Size(m) => { thm_resize(t, m); },
    }
}
// H07: whatever an encoder writes is read back in full, and both sides end with the same table (so the next block starts alike).
pub proof fn thm_blocks(t: TV, limit: int, xs: Seq<Inp>)
    requires fits(t), enc_all(t, xs) is Some, limit <= u32::MAX, forall|i: int| 0 <= i < xs.len() ==> readable(#[trigger] xs[i], limit)
    ensures ({
        let (t1, o) = enc_all(t, xs).unwrap();
        run_all(t, limit, o) == RunR { t: t1, out: meant_all(t, xs), used: o.len() as int, fail: None }
    })
    decreases xs.len()
{
    hide(step); hide(enc); hide(run);
    let (t2, b) = enc_all(t, xs).unwrap();
    lemma_run_all(t, limit, b);
    if xs.len() > 0 {
        let (t1, o) = enc(t, xs[0]).unwrap();
        let o2 = enc_all(t1, xs.skip(1)).unwrap().1;
        assert(readable(xs[0], limit));
        lemma_enc_fits(t, xs[0]);
        thm_item(t, limit, xs[0], o2);
        assert forall|i: int| 0 <= i < xs.skip(1).len() implies readable(#[trigger] xs.skip(1)[i], limit) by { assert(readable(xs[i + 1], limit)); }
        thm_blocks(t1, limit, xs.skip(1));
        assert(b.skip(o.len() as int) =~= o2);
    }
}
// H08: which representation an item gets and what it does to the table.
pub proof fn thm_representation(t: TV, x: Inp)
    requires fits(t), enc(t, x) is Some
    ensures ({
        let (t1, o) = enc(t, x).unwrap();
        &&& o.len() > 0
        &&& x is Idx || as_index(t, x) ==> t1 == t && o[0] >= 0x80
        &&& match x {
            Inp::Idx(i) => lookup(t, i) is Some,
            Inp::Name(i, v, f) => t1 == after(t, lookup(t, i).unwrap().0, v, f) && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f)),
            Inp::Lit(n, v, f) => !as_index(t, x) ==> t1 == after(t, n, v, f) && o[0] as int / pow2i(prefix(f)) == pattern(f) as int / pow2i(prefix(f)),
            Inp::Size(m) => 0 <= m ==> t1 == resize(t, m) && 0x20 <= o[0] < 0x40,
        }
    })
{
    lemma_pow2i_small(); lemma_short_table(t);
    let (t1, o) = enc(t, x).unwrap();
    match x {
        Inp::Idx(i) => { lemma_index_item(t, 0, i, Seq::empty()); },
        Inp::Name(i, v, f) => { thm_int_round_trip(i, pattern(f), prefix(f), Seq::empty()); },
        Inp::Lit(n, v, f) => {
            thm_find(t, n, v); thm_found(t, n, v, find(t, n, v));
            thm_int_round_trip(0, pattern(f), prefix(f), Seq::empty());
            if let Some((i, full)) = find(t, n, v) {
                assert(named(t, i, n)) by { if full { assert(is_at(t, i, n, v)); } }
                lemma_index_item(t, 0, i, Seq::empty());
                thm_int_round_trip(i, pattern(f), prefix(f), Seq::empty());
            }
        },
        Inp::Size(m) => { if m >= 0 { thm_int_round_trip(m, 0x20, 5, Seq::empty()); } },
    }
}
// ------------------------------------------------------- H10
pub proof fn thm_unindexed(t: TV, limit: int, x: Inp, rest: Seq<u8>)
    requires fits(t), enc(t, x) is Some, match x { Inp::Name(i, v, f) => mark(f) != 4, Inp::Lit(n, v, f) => mark(f) != 4, _ => false }
    ensures ({
        let (t1, o) = enc(t, x).unwrap(); let f = match x { Inp::Name(i, v, f) => f, Inp::Lit(n, v, f) => f, _ => 0 };
        &&& t1 == t
        &&& mark(f) == 8 ==> 0x10 <= o[0] < 0x20
        &&& readable(x, limit) && mark(f) == 8 ==> step(t, limit, o + rest) is Done && step(t, limit, o + rest)->Done_0 == t && step(t, limit, o + rest)->Done_1.unwrap().2 == 8
    })
{
    lemma_pow2i_small();
    thm_representation(t, x);
    if readable(x, limit) { thm_item(t, limit, x, rest); }
}
// On the reading side: only the pattern 01 adds to the table.
pub proof fn thm_decode_unindexed(t: TV, limit: int, b: Seq<u8>)
    requires b.len() > 0, step(t, limit, b) is Done, !(0x20 <= b[0] < 0x80)
    ensures step(t, limit, b)->Done_0 == t, step(t, limit, b)->Done_1 is Some,
        b[0] < 0x80 ==> step(t, limit, b)->Done_1.unwrap().2 == (if b[0] >= 0x10 { 8u8 } else { 0u8 })
{}
// ------------------------------------------------------- H12
pub proof fn thm_size_update(t: TV, limit: int, b: Seq<u8>)
    requires fits(t), 0 <= limit <= u32::MAX, b.len() > 0
    ensures
        0x20 <= b[0] < 0x40 ==> match int_dec(b, 5) {
            IntR::Val(m, u) => if m > limit { step(t, limit, b) == StepR::Stop(Fail::Size) }
                else { step(t, limit, b) == StepR::Done(resize(t, m), None, u) && fits(resize(t, m)) && (m >= t.max ==> resize(t, m).dy == t.dy) },
            _ => step(t, limit, b) is Stop,
        },
        !(0x20 <= b[0] < 0x40) && step(t, limit, b) is Done ==> step(t, limit, b)->Done_0.max == t.max
{
    lemma_int_dec(b, 5);
    if let IntR::Val(m, u) = int_dec(b, 5) { if m <= limit { thm_resize(t, m); } }
}
} // verus!
}
