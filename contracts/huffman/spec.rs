// The Huffman code of RFC 7541 (appendix B) and what encoding and decoding with
// it mean, independently of the code.
pub mod hspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
#[allow(unused_imports)] use crate::hints::*;
use vstd::arithmetic::power2::pow2;
verus! {

global size_of usize == 8;


#[verifier::memoize]
pub open spec fn pow2i(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }
// The n low bits of v, most significant first.
pub open spec fn bits(n: int, v: int) -> Seq<bool> decreases n
{ if n <= 0 { Seq::empty() } else { bits(n - 1, v / 2).push(v % 2 == 1) } }
pub open spec fn clen(c: int) -> int { rfc(c).0 }
pub open spec fn cval(c: int) -> int { rfc(c).1 }
pub open spec fn code(c: int) -> Seq<bool> { bits(clen(c), cval(c)) }
pub open spec fn ones(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { bits_of(b.drop_last()) + bits(8, b.last() as int) } }
// The codes of a string, one after the other.
pub open spec fn enc_bits(s: Seq<u8>) -> Seq<bool> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { code(s[0] as int) + enc_bits(s.skip(1)) } }
pub open spec fn pad(n: int) -> int { (8 - n % 8) % 8 }
// `out` is the encoding of `s`: its codes, padded with ones (the start of EOS) to a whole octet.
pub open spec fn huff(s: Seq<u8>, out: Seq<u8>) -> bool {
    bits_of(out) == enc_bits(s) + ones(pad(enc_bits(s).len() as int))
}

// ------------------------------------------------------- tables
// (length, value) of the bits that lead to a row; a code that goes on from there; whether the row is used
pub open spec fn sym_ok(s: int, p: (int, int, int, bool), k: int, c: int, l: int) -> bool {
    &&& 0 <= c <= 256
    &&& 0 <= l < s
    &&& clen(c) == p.0 + s - l
    &&& cval(c) == p.1 * pow2i(s - l) + k / pow2i(l)
}
pub open spec fn next_ok(s: int, p: (int, int, int, bool), k: int, q: (int, int, int, bool)) -> bool {
    q.3 && q.0 == p.0 + s && q.1 == p.1 * pow2i(s) + k
}
pub open spec fn row_ok(p: (int, int, int, bool)) -> bool {
    &&& 0 <= p.2 <= 256
    &&& 0 <= p.0 < clen(p.2)
    &&& 0 <= p.1 < pow2i(p.0)
    &&& cval(p.2) / pow2i(clen(p.2) - p.0) == p.1
}

// ------------------------------------------------------- numbers and bits
pub proof fn lemma_pow2i(n: int)
    requires 0 <= n
    ensures pow2i(n) == pow2(n as nat), pow2i(n) > 0, pow2i(n + 1) == 2 * pow2i(n)
    decreases n
{
    if n > 0 { lemma_pow2i(n - 1); vstd::arithmetic::power2::lemma_pow2_unfold(n as nat); }
    else { vstd::arithmetic::power2::lemma2_to64(); }
}
pub proof fn lemma_pow2i_add(a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures pow2i(a + b) == pow2i(a) * pow2i(b), pow2i(a) > 0, pow2i(b) > 0
    decreases b
{
    lemma_pow2i(a); lemma_pow2i(b); lemma_pow2i(a + b);
    if b > 0 {
        lemma_pow2i_add(a, b - 1);
        assert(pow2i(a) * (2 * pow2i(b - 1)) == 2 * (pow2i(a) * pow2i(b - 1))) by(nonlinear_arith);
    }
}
pub proof fn lemma_pow2i_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures 0 < pow2i(a) <= pow2i(b)
    decreases b
{ lemma_pow2i(a); if a < b { lemma_pow2i_mono(a, b - 1); lemma_pow2i(b - 1); } }
pub proof fn lemma_pow2i_small()
    ensures pow2i(0) == 1, pow2i(1) == 2, pow2i(2) == 4, pow2i(3) == 8, pow2i(4) == 16, pow2i(5) == 32, pow2i(6) == 64, pow2i(8) == 256, pow2i(7) == 128, pow2i(13) == 8192,
        pow2i(30) == 0x4000_0000, pow2i(32) == 0x1_0000_0000, pow2i(40) == 0x100_0000_0000, pow2i(63) == 0x8000_0000_0000_0000
{
    assert(pow2i(0) == 1 && pow2i(1) == 2 && pow2i(2) == 4 && pow2i(3) == 8 && pow2i(4) == 16 && pow2i(5) == 32 && pow2i(6) == 64 && pow2i(8) == 256 && pow2i(7) == 128 && pow2i(13) == 8192
        && pow2i(30) == 0x4000_0000 && pow2i(32) == 0x1_0000_0000 && pow2i(40) == 0x100_0000_0000 && pow2i(63) == 0x8000_0000_0000_0000) by(compute_only);
}
pub proof fn lemma_bits_len(n: int, v: int)
    requires 0 <= n
    ensures bits(n, v).len() == n
    decreases n
{ if n > 0 { lemma_bits_len(n - 1, v / 2); } }
// a * 2^m + b: the bits of a, then those of b
pub proof fn lemma_bits_join(n: int, m: int, a: int, b: int)
    requires 0 <= n, 0 <= m, 0 <= a, 0 <= b < pow2i(m)
    ensures bits(n + m, a * pow2i(m) + b) == bits(n, a) + bits(m, b)
    decreases m
{
    if m == 0 { assert(a * pow2i(0) + b == a) by(nonlinear_arith) requires pow2i(0) == 1, b == 0; assert(bits(n, a) + bits(0, b) =~= bits(n, a)); }
    else {
        lemma_pow2i(m - 1);
        let v = a * pow2i(m) + b;
        let q = a * pow2i(m - 1);
        assert(a * pow2i(m) == 2 * q) by(nonlinear_arith) requires pow2i(m) == 2 * pow2i(m - 1), q == a * pow2i(m - 1);
        assert(v / 2 == q + b / 2);
        assert(v % 2 == b % 2);
        assert(q >= 0) by(nonlinear_arith) requires a >= 0, pow2i(m - 1) > 0, q == a * pow2i(m - 1);
        lemma_bits_join(n, m - 1, a, b / 2);
        assert(bits(n + m, v) =~= bits(n, a) + bits(m, b));
    }
}
pub proof fn lemma_bits_split(n: int, m: int, v: int)
    requires 0 <= n, 0 <= m, 0 <= v
    ensures bits(n + m, v) == bits(n, v / pow2i(m)) + bits(m, v % pow2i(m)), 0 <= v % pow2i(m) < pow2i(m), 0 <= v / pow2i(m)
{
    lemma_pow2i(m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, pow2i(m));
    assert(v / pow2i(m) * pow2i(m) == pow2i(m) * (v / pow2i(m))) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(v, pow2i(m));
    lemma_bits_join(n, m, v / pow2i(m), v % pow2i(m));
}
pub proof fn lemma_bits_inj(n: int, a: int, b: int)
    requires 0 <= n, 0 <= a < pow2i(n), 0 <= b < pow2i(n), bits(n, a) == bits(n, b)
    ensures a == b
    decreases n
{
    if n > 0 {
        lemma_pow2i(n - 1);
        let (x, y) = (bits(n, a), bits(n, b));
        assert(x.last() == (a % 2 == 1) && y.last() == (b % 2 == 1));
        assert(x.drop_last() =~= bits(n - 1, a / 2) && y.drop_last() =~= bits(n - 1, b / 2));
        lemma_bits_inj(n - 1, a / 2, b / 2);
    }
}
pub proof fn lemma_bits_ones(n: int)
    requires 0 <= n
    ensures bits(n, pow2i(n) - 1) == ones(n), pow2i(n) > 0
    decreases n
{
    if n > 0 { lemma_pow2i(n - 1); lemma_bits_ones(n - 1); assert((pow2i(n) - 1) / 2 == pow2i(n - 1) - 1); assert(bits(n, pow2i(n) - 1) =~= ones(n)); }
    else { assert(bits(n, pow2i(n) - 1) =~= ones(n)); }
}
pub proof fn lemma_bits_of_push(b: Seq<u8>, x: u8)
    ensures bits_of(b.push(x)) == bits_of(b) + bits(8, x as int)
{ assert(b.push(x).drop_last() =~= b); }
pub proof fn lemma_bits_of_len(b: Seq<u8>)
    ensures bits_of(b).len() == 8 * b.len()
    decreases b.len()
{ if b.len() > 0 { lemma_bits_of_len(b.drop_last()); lemma_bits_len(8, b.last() as int); } }
pub proof fn lemma_bits_of_inj(a: Seq<u8>, b: Seq<u8>)
    requires bits_of(a) == bits_of(b)
    ensures a == b
    decreases a.len()
{
    lemma_bits_of_len(a); lemma_bits_of_len(b);
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        lemma_bits_of_len(x); lemma_bits_of_len(y);
        lemma_bits_len(8, a.last() as int); lemma_bits_len(8, b.last() as int);
        lemma_pow2i_small();
        assert(bits_of(a).skip(8 * x.len() as int) =~= bits(8, a.last() as int));
        assert(bits_of(b).skip(8 * x.len() as int) =~= bits(8, b.last() as int));
        assert(bits_of(a).take(8 * x.len() as int) =~= bits_of(x));
        assert(bits_of(b).take(8 * x.len() as int) =~= bits_of(y));
        lemma_bits_inj(8, a.last() as int, b.last() as int);
        lemma_bits_of_inj(x, y);
        assert(a =~= x.push(a.last()) && b =~= y.push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lemma_enc_bits_cat(a: Seq<u8>, b: Seq<u8>)
    ensures enc_bits(a + b) == enc_bits(a) + enc_bits(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(enc_bits(a) + enc_bits(b) =~= enc_bits(b)); }
    else {
        lemma_enc_bits_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(enc_bits(a + b) =~= enc_bits(a) + enc_bits(b));
    }
}
pub proof fn lemma_enc_bits_one(c: u8)
    ensures enc_bits(seq![c]) == code(c as int)
{ assert(seq![c].skip(1) =~= Seq::<u8>::empty()); assert(enc_bits(seq![c].skip(1)) =~= Seq::<bool>::empty()); assert(enc_bits(seq![c]) =~= code(c as int)); }
pub proof fn lemma_enc_bits_push(a: Seq<u8>, c: u8)
    ensures enc_bits(a.push(c)) == enc_bits(a) + code(c as int)
{ lemma_enc_bits_cat(a, seq![c]); lemma_enc_bits_one(c); assert(a + seq![c] =~= a.push(c)); }

// ------------------------------------------------------- the code
pub open spec fn code_ok(c: int) -> bool { 5 <= clen(c) <= 30 && 0 <= cval(c) < pow2i(clen(c)) }
pub open spec fn codes_ok(n: int) -> bool decreases n { n <= 0 || (code_ok(n - 1) && codes_ok(n - 1)) }
// Codes, padded to 30 bits, are disjoint intervals [lo, hi); `sorted` lists them in order.
pub open spec fn lo(c: int) -> int { cval(c) * pow2i(30 - clen(c)) }
pub open spec fn hi(c: int) -> int { (cval(c) + 1) * pow2i(30 - clen(c)) }
pub open spec fn sorted_ok(n: int) -> bool decreases n { n <= 1 || (hi(sorted(n - 2)) <= lo(sorted(n - 1)) && sorted_ok(n - 1)) }
pub open spec fn rank_ok(n: int) -> bool decreases n { n <= 0 || (0 <= rank(n - 1) <= 256 && sorted(rank(n - 1)) == n - 1 && 0 <= sorted(n - 1) <= 256 && rank_ok(n - 1)) }
proof fn lemma_codes_ok_at(n: int, c: int) requires codes_ok(n), 0 <= c < n ensures code_ok(c) decreases n { if c < n - 1 { lemma_codes_ok_at(n - 1, c); } }
proof fn lemma_rank_ok_at(n: int, c: int) requires rank_ok(n), 0 <= c < n ensures 0 <= rank(c) <= 256, sorted(rank(c)) == c, 0 <= sorted(c) <= 256 decreases n { if c < n - 1 { lemma_rank_ok_at(n - 1, c); } }
proof fn lemma_sorted_ok_at(n: int, i: int) requires sorted_ok(n), 0 <= i < n - 1 ensures hi(sorted(i)) <= lo(sorted(i + 1)) decreases n { if i < n - 2 { lemma_sorted_ok_at(n - 1, i); } }
proof fn lemma_sorted(i: int, j: int)
    requires 0 <= i < j <= 256
    ensures hi(sorted(i)) <= lo(sorted(j))
    decreases j
{
    hcode::lemma_facts();
    lemma_sorted_ok_at(257, j - 1);
    if i < j - 1 {
        lemma_sorted(i, j - 1);
        let c = sorted(j - 1);
        lemma_rank_ok_at(257, j - 1); lemma_code(c); lemma_pow2i(30 - clen(c));
        assert(lo(c) <= hi(c)) by(nonlinear_arith) requires pow2i(30 - clen(c)) > 0, lo(c) == cval(c) * pow2i(30 - clen(c)), hi(c) == (cval(c) + 1) * pow2i(30 - clen(c));
    }
}
pub proof fn lemma_code(c: int)
    requires 0 <= c <= 256
    ensures code_ok(c), code(c).len() == clen(c)
{ hcode::lemma_facts(); lemma_codes_ok_at(257, c); lemma_bits_len(clen(c), cval(c)); }
proof fn lemma_apart(c: int, d: int)
    requires 0 <= c <= 256, 0 <= d <= 256, c != d
    ensures hi(c) <= lo(d) || hi(d) <= lo(c)
{
    hcode::lemma_facts(); lemma_rank_ok_at(257, c); lemma_rank_ok_at(257, d);
    if rank(c) < rank(d) { lemma_sorted(rank(c), rank(d)); } else { lemma_sorted(rank(d), rank(c)); }
}
pub proof fn lemma_eos() ensures code(256) == ones(30), clen(256) == 30
{ hcode::lemma_facts(); lemma_pow2i_small(); lemma_bits_ones(30); }
pub open spec fn starts(s: Seq<bool>, p: Seq<bool>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
// No code is the beginning of another one.
pub proof fn lemma_prefix_free(c: int, d: int)
    requires 0 <= c <= 256, 0 <= d <= 256, starts(code(d), code(c))
    ensures c == d
{
    lemma_code(c); lemma_code(d);
    if c != d {
        lemma_apart(c, d);
        let m = clen(d) - clen(c);
        lemma_bits_split(clen(c), m, cval(d));
        lemma_bits_len(clen(c), cval(d) / pow2i(m));
        assert(code(d).take(clen(c)) =~= bits(clen(c), cval(d) / pow2i(m)));
        lemma_pow2i_add(clen(c), m);
        assert(cval(d) / pow2i(m) < pow2i(clen(c))) by {
            let (v, p, q) = (cval(d), pow2i(clen(c)), pow2i(m));
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, q);
            assert(v / q < p) by(nonlinear_arith) requires v < p * q, q > 0, v == q * (v / q) + v % q, 0 <= v % q;
        }
        lemma_bits_inj(clen(c), cval(d) / pow2i(m), cval(c));
        lemma_pow2i_add(m, 30 - clen(d));
        let (v, w, p, q) = (cval(c), cval(d), pow2i(m), pow2i(30 - clen(d)));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, p);
        assert(v * (p * q) <= w * q < (v + 1) * (p * q) && w * q < (w + 1) * q && (w + 1) * q > v * (p * q)) by(nonlinear_arith)
            requires w == p * v + w % p, 0 <= w % p < p, q > 0, p > 0;
    }
}
// No code (of an octet) is the beginning of r.
pub open spec fn stuck(r: Seq<bool>) -> bool { forall|c: int| 0 <= c < 256 ==> !#[trigger] starts(r, code(c)) }
pub proof fn lemma_stuck_ones(k: int)
    requires 0 <= k <= 29
    ensures stuck(ones(k))
{
    lemma_eos();
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(ones(k), code(c)) by {
        lemma_code(c);
        if starts(ones(k), code(c)) { assert(ones(30).take(clen(c)) =~= ones(k).take(clen(c))); lemma_prefix_free(c, 256); }
    }
}
pub proof fn lemma_stuck_eos(r: Seq<bool>)
    ensures stuck(code(256) + r)
{
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(code(256) + r, code(c)) by {
        lemma_code(c); lemma_code(256);
        let t = code(256) + r;
        if starts(t, code(c)) {
            if clen(c) <= clen(256) { assert(t.take(clen(c)) =~= code(256).take(clen(c))); lemma_prefix_free(c, 256); }
            else { assert(code(c).take(clen(256)) =~= t.take(clen(c)).take(clen(256))); assert(t.take(clen(c)).take(clen(256)) =~= code(256)); lemma_prefix_free(256, c); }
        }
    }
}
// A proper beginning of a code is stuck.
pub proof fn lemma_stuck_proper(w: int, r: Seq<bool>)
    requires 0 <= w <= 256, r.len() < clen(w), starts(code(w), r)
    ensures stuck(r)
{
    lemma_code(w);
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(r, code(c)) by {
        lemma_code(c);
        if starts(r, code(c)) { assert(code(w).take(clen(c)) =~= r.take(clen(c))); lemma_prefix_free(c, w); }
    }
}
// Splitting into codes and a stuck rest can be done in one way only.
pub proof fn lemma_unique(a: Seq<u8>, r: Seq<bool>, b: Seq<u8>, q: Seq<bool>)
    requires enc_bits(a) + r == enc_bits(b) + q, stuck(r), stuck(q)
    ensures a == b, r == q
    decreases a.len()
{
    let t = enc_bits(a) + r;
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); assert(t =~= r && t =~= q); }
    else if a.len() == 0 {
        let c = b[0] as int; lemma_code(c);
        assert(t =~= r); assert(t.take(clen(c)) =~= code(c)); assert(starts(r, code(c)));
    } else if b.len() == 0 {
        let c = a[0] as int; lemma_code(c);
        assert(t =~= q); assert(t.take(clen(c)) =~= code(c)); assert(starts(q, code(c)));
    } else {
        let (c, d) = (a[0] as int, b[0] as int);
        lemma_code(c); lemma_code(d);
        assert(t.take(clen(c)) =~= code(c)); assert(t.take(clen(d)) =~= code(d));
        if clen(c) <= clen(d) { assert(code(d).take(clen(c)) =~= code(c)); lemma_prefix_free(c, d); }
        else { assert(code(c).take(clen(d)) =~= code(d)); lemma_prefix_free(d, c); }
        assert(t.skip(clen(c)) =~= enc_bits(a.skip(1)) + r);
        assert(t.skip(clen(c)) =~= enc_bits(b.skip(1)) + q);
        lemma_unique(a.skip(1), r, b.skip(1), q);
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    }
}
// b cannot be followed by anything to become an encoding: it holds the code of EOS.
pub open spec fn dead(b: Seq<bool>) -> bool { exists|s: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(s) + (code(256) + r)) }
pub proof fn lemma_dead_more(s: Seq<u8>, b: Seq<bool>, x: Seq<bool>)
    requires dead(b)
    ensures dead(enc_bits(s) + b + x)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + (code(256) + r));
    lemma_enc_bits_cat(s, t);
    assert(enc_bits(s) + b + x =~= enc_bits(s + t) + (code(256) + (r + x)));
}
// b is no encoding: something other than at most seven ones is left over.
pub open spec fn fails(b: Seq<bool>) -> bool {
    exists|s: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(s) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int))
}
pub proof fn lemma_dead_fails(b: Seq<bool>)
    requires dead(b)
    ensures fails(b)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + (code(256) + r));
    lemma_stuck_eos(r); lemma_code(256); lemma_eos();
}
pub proof fn lemma_fails_more(s: Seq<u8>, b: Seq<bool>)
    requires fails(b)
    ensures fails(enc_bits(s) + b)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| b == #[trigger] (enc_bits(t) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int));
    lemma_enc_bits_cat(s, t);
    assert(enc_bits(s) + b =~= enc_bits(s + t) + r);
}
pub proof fn lemma_fails(src: Seq<u8>)
    requires fails(bits_of(src))
    ensures forall|s: Seq<u8>| !#[trigger] huff(s, src)
{
    let (t, r) = choose|t: Seq<u8>, r: Seq<bool>| bits_of(src) == #[trigger] (enc_bits(t) + r) && stuck(r) && !(r.len() <= 7 && r == ones(r.len() as int));
    assert forall|s: Seq<u8>| !#[trigger] huff(s, src) by {
        if huff(s, src) {
            let k = pad(enc_bits(s).len() as int);
            lemma_stuck_ones(k);
            lemma_unique(s, ones(k), t, r);
        }
    }
}

// ------------------------------------------------------- the encoder
// `b` holds, in its 40 low bits, 40 - left bits that are still to be written, then zeros.
pub open spec fn low40(b: u64) -> int { (b & 0xff_ffff_ffff) as int }
pub open spec fn holds(b: u64, left: int) -> bool { 0 <= left <= 40 && low40(b) % pow2i(left) == 0 }
pub open spec fn pending(b: u64, left: int) -> Seq<bool> { bits(40 - left, low40(b) / pow2i(left)) }
// f is o and then the encoding of s.
pub open spec fn wrote_huff(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>) -> bool { o.len() <= f.len() && f.take(o.len() as int) == o && huff(s, f.skip(o.len() as int)) }
// The same for what is written so far.
pub open spec fn writing(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: int) -> bool {
    &&& o.len() <= f.len() && f.take(o.len() as int) == o
    &&& holds(b, left)
    &&& bits_of(f.skip(o.len() as int)) + pending(b, left) == enc_bits(s)
}
pub proof fn lemma_pow2i_u64(n: u64)
    requires n < 64
    ensures pow2i(n as int) == (1u64 << n) as int, (1u64 << n) >= 1
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::arithmetic::power2::lemma2_to64(); vstd::arithmetic::power2::lemma2_to64_rest();
    if n < 63 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(n as nat, 63); }
    vstd::bits::lemma_u64_shl_is_mul(1, n);
}
proof fn lemma_mask(n: nat)
    ensures vstd::bits::low_bits_mask(n) as int == pow2i(n as int) - 1
    decreases n
{
    vstd::bits::lemma_low_bits_mask_values();
    lemma_pow2i(n as int);
    if n > 0 { lemma_mask((n - 1) as nat); lemma_pow2i(n - 1); vstd::bits::lemma_low_bits_mask_unfold(n); }
}
pub proof fn lemma_holds(b: u64, left: u64)
    requires left <= 40
    ensures holds(b, left as int) <==> (b & 0xff_ffff_ffff) & sub(1u64 << left, 1) == 0, low40(b) < 0x100_0000_0000, 1u64 << left >= 1
{
    lemma_pow2i_u64(left);
    let w = b & 0xff_ffff_ffff;
    assert(w < 0x100_0000_0000) by(bit_vector) requires w == b & 0xff_ffff_ffff;
    let m = 1u64 << left;
    vstd::bits::lemma_u64_low_bits_mask_is_mod(w, left as nat);
    vstd::bits::lemma_low_bits_mask_values();
    lemma_mask(left as nat); lemma_pow2i(left as int);
    assert(vstd::bits::low_bits_mask(left as nat) as u64 == sub(m, 1));
    assert(pow2(left as nat) as u64 == m);
    assert((w & sub(m, 1)) as int == low40(b) % pow2i(left as int));
}
pub proof fn lemma_start(b: u64, o: Seq<u8>)
    requires b == 0
    ensures writing(Seq::empty(), o, o, b, 40)
{
    assert(0u64 & 0xff_ffff_ffff == 0) by(bit_vector);
    lemma_pow2i_small();
    assert(o.take(o.len() as int) =~= o);
    assert(o.skip(o.len() as int) =~= Seq::<u8>::empty());
    assert(bits_of(o.skip(o.len() as int)) + pending(b, 40) =~= enc_bits(Seq::<u8>::empty()));
}
// One more code.
pub proof fn lemma_add(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, c: u8, len: u8, val: u32, nb: u64)
    requires writing(s, o, f, b, left as int), len as int == clen(c as int), val as int == cval(c as int), left >= len,
        nb == b | ((val as u64) << ((left - len) as u8))
    ensures writing(s.push(c), o, f, nb, left - len), 5 <= len <= 30
{
    lemma_code(c as int);
    let (l, r, v) = (left as u64, (left - len) as u64, val as u64);
    lemma_holds(b, l); lemma_pow2i(r as int); lemma_pow2i_u64(l); lemma_pow2i_u64(r); lemma_pow2i_u64(len as u64);
    lemma_pow2i_add(len as int, left - len);
    let x = v << r;
    assert(v * pow2i(r as int) < pow2i(l as int)) by(nonlinear_arith) requires v + 1 <= pow2i(len as int), pow2i(r as int) > 0, pow2i(l as int) == pow2i(len as int) * pow2i(r as int);
    lemma_pow2i_mono(l as int, 40); lemma_pow2i_small();
    assert(v * pow2i(r as int) <= u64::MAX);
    vstd::bits::lemma_u64_shl_is_mul(v, r);
    assert(x as int == v * pow2i(r as int));
    let m = 1u64 << l;
    assert(x < m);
    let w = b & 0xff_ffff_ffff;
    assert((b | x) & 0xff_ffff_ffff == add(w, x) && w <= 0xff_ffff_ffff) by(bit_vector) requires x < m, m == 1u64 << l, l <= 40, w == b & 0xff_ffff_ffff, w & sub(m, 1) == 0;
    assert(nb == b | x) by { assert(v << ((left - len) as u8) == v << r) by(bit_vector) requires r == (left - len) as u8 as u64, left >= len; }
    let p = low40(b) / pow2i(l as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pow2i(l as int));
    let np = p * pow2i(len as int) + v;
    assert(low40(nb) == np * pow2i(r as int)) by(nonlinear_arith)
        requires low40(nb) == pow2i(l as int) * p + v * pow2i(r as int), pow2i(l as int) == pow2i(len as int) * pow2i(r as int), np == p * pow2i(len as int) + v;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(np, pow2i(r as int));
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(np, pow2i(r as int));
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pow2i(l as int));
    lemma_bits_join(40 - left, len as int, p, v as int);
    lemma_enc_bits_push(s, c);
    let g = bits_of(f.skip(o.len() as int));
    assert(g + pending(nb, left - len) =~= (g + pending(b, left as int)) + code(c as int));
}
// A whole octet goes out.
pub proof fn lemma_drain(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, byte: u8, nb: u64)
    requires writing(s, o, f, b, left as int), left <= 32, byte == (b >> 32) as u8, nb == b << 8
    ensures writing(s, o, f.push(byte), nb, left + 8)
{
    let w = b & 0xff_ffff_ffff;
    let l = left as u64;
    assert((b >> 32) as u8 as u64 == w / 0x1_0000_0000 && (b << 8) & 0xff_ffff_ffff == mul(w % 0x1_0000_0000, 256) && w % 0x1_0000_0000 < 0x1_0000_0000)
        by(bit_vector) requires w == b & 0xff_ffff_ffff;
    lemma_pow2i_small();
    lemma_pow2i_add(left as int, 32 - left); lemma_pow2i_add(left as int, 8);
    let (pl, pm) = (pow2i(left as int), pow2i(32 - left));
    let p = low40(b) / pl;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, pm);
    let (q, r) = (p / pm, p % pm);
    assert(0 <= r < pm);
    assert(low40(b) == q * 0x1_0000_0000 + r * pl && 0 <= r * pl < 0x1_0000_0000) by(nonlinear_arith)
        requires low40(b) == pl * p, p == pm * q + r, 0 <= r < pm, pl * pm == 0x1_0000_0000, pl > 0;
    assert(low40(b) / 0x1_0000_0000 == q && low40(b) % 0x1_0000_0000 == r * pl);
    assert(low40(nb) == r * (pl * 256)) by(nonlinear_arith) requires low40(nb) == (r * pl) * 256;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(r, pl * 256);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r, pl * 256);
    lemma_bits_split(8, 32 - left, p);
    assert(pending(b, left as int) == bits(8, byte as int) + pending(nb, left + 8));
    let g = f.skip(o.len() as int);
    assert(f.push(byte).skip(o.len() as int) =~= g.push(byte));
    assert(f.push(byte).take(o.len() as int) =~= f.take(o.len() as int));
    lemma_bits_of_push(g, byte);
    assert(bits_of(g.push(byte)) + pending(nb, left + 8) =~= bits_of(g) + pending(b, left as int));
}
// The last octet is filled with ones.
pub proof fn lemma_fill(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64, left: u8, nb: u64, byte: u8)
    requires writing(s, o, f, b, left as int), 33 <= left <= 39, nb == b | sub(1u64 << left, 1), byte == (nb >> 32) as u8
    ensures wrote_huff(s, o, f.push(byte))
{
    let l = left as u64;
    lemma_holds(b, l); lemma_pow2i_u64(l); lemma_pow2i_small();
    let w = b & 0xff_ffff_ffff;
    let m = 1u64 << l;
    assert(1u64 << left == m) by(bit_vector) requires m == 1u64 << l, l == left as u64;
    assert((nb >> 32) as u8 as u64 == add(w, sub(m, 1)) / 0x1_0000_0000 && add(w, sub(m, 1)) <= 0xff_ffff_ffff && w <= 0xff_ffff_ffff && 1 <= m <= 0x80_0000_0000) by(bit_vector)
        requires nb == b | sub(m, 1), m == 1u64 << l, 33 <= l <= 39, w == b & 0xff_ffff_ffff, w & sub(m, 1) == 0;
    let k = left - 32;
    lemma_pow2i_add(32, k);
    let (pl, pk) = (pow2i(left as int), pow2i(k));
    let p = low40(b) / pl;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low40(b), pl);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(low40(b), pl);
    let e = p * pk + (pk - 1);
    assert(low40(b) + pl - 1 == e * 0x1_0000_0000 + 0xffff_ffff) by(nonlinear_arith)
        requires low40(b) == pl * p, pl == 0x1_0000_0000 * pk, e == p * pk + (pk - 1);
    assert(byte as int == e);
    lemma_bits_ones(k);
    lemma_bits_join(40 - left, k, p, pk - 1);
    let g = f.skip(o.len() as int);
    assert(f.push(byte).skip(o.len() as int) =~= g.push(byte));
    assert(f.push(byte).take(o.len() as int) =~= f.take(o.len() as int));
    lemma_bits_of_push(g, byte);
    lemma_bits_of_len(g);
    lemma_bits_len(40 - left, p);
    assert(enc_bits(s).len() == 8 * g.len() + (40 - left));
    assert(pad(enc_bits(s).len() as int) == k);
    assert(bits_of(g.push(byte)) =~= enc_bits(s) + ones(k));
}
pub proof fn lemma_full(s: Seq<u8>, o: Seq<u8>, f: Seq<u8>, b: u64)
    requires writing(s, o, f, b, 40)
    ensures wrote_huff(s, o, f)
{
    let g = f.skip(o.len() as int);
    lemma_bits_of_len(g);
    assert(bits_of(g) + pending(b, 40) =~= bits_of(g));
    assert(bits_of(g) =~= enc_bits(s) + ones(0));
}
// ------------------------------------------------------- the decoder
// f is o and then a string whose codes, and then b1, are b0.
pub open spec fn gave(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>) -> bool {
    o.len() <= f.len() && f.take(o.len() as int) == o && b0 == enc_bits(f.skip(o.len() as int)) + b1
}
pub proof fn lemma_gave_none(o: Seq<u8>, b: Seq<bool>)
    ensures gave(o, o, b, b)
{ assert(o.take(o.len() as int) =~= o); assert(o.skip(o.len() as int) =~= Seq::<u8>::empty()); assert(enc_bits(Seq::<u8>::empty()) + b =~= b); }
pub proof fn lemma_prefix_trans(o: Seq<u8>, d: Seq<u8>)
    requires o.len() <= d.len(), d.take(o.len() as int) == o
    ensures forall|g: Seq<u8>| d.len() <= g.len() && #[trigger] g.take(d.len() as int) == d ==> g.take(o.len() as int) == o
{
    assert forall|g: Seq<u8>| d.len() <= g.len() && #[trigger] g.take(d.len() as int) == d implies g.take(o.len() as int) == o by {
        assert(g.take(d.len() as int).take(o.len() as int) =~= g.take(o.len() as int));
    }
}
pub proof fn lemma_gave_push(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, c: u8, b2: Seq<bool>)
    requires gave(o, f, b0, b1), b1 == code(c as int) + b2
    ensures gave(o, f.push(c), b0, b2)
{
    let n = o.len() as int;
    assert(f.push(c).take(n) =~= f.take(n)); assert(f.push(c).skip(n) =~= f.skip(n).push(c));
    lemma_enc_bits_push(f.skip(n), c);
    assert(enc_bits(f.skip(n)) + (code(c as int) + b2) =~= enc_bits(f.skip(n)) + code(c as int) + b2);
}
pub proof fn lemma_gave_cat(o: Seq<u8>, f: Seq<u8>, g: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, x: Seq<bool>, b2: Seq<bool>)
    requires gave(o, f, b0, b1), gave(f, g, b1 + x, b2)
    ensures gave(o, g, b0 + x, b2)
{
    let n = o.len() as int; let m = f.len() as int;
    assert(g.take(n) =~= g.take(m).take(n));
    assert(g.skip(n) =~= g.take(m).skip(n) + g.skip(m));
    assert(g.take(m).skip(n) =~= f.skip(n));
    lemma_enc_bits_cat(f.skip(n), g.skip(m));
    assert(b0 + x =~= enc_bits(f.skip(n)) + (b1 + x));
    assert(enc_bits(f.skip(n)) + (enc_bits(g.skip(m)) + b2) =~= enc_bits(g.skip(n)) + b2);
}
pub proof fn lemma_gave_dead(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>, x: Seq<bool>)
    requires gave(o, f, b0, b1), dead(b1)
    ensures dead(b0 + x)
{ lemma_dead_more(f.skip(o.len() as int), b1, x); }
// The bits read but not yet given as a symbol.
pub open spec fn kept(tail_size: int, tail: int, buf_size: int, buf: int) -> Seq<bool> { bits(tail_size, tail) + bits(buf_size, buf) }
pub open spec fn at_row(speed: int, id: int, tail_size: int, tail: int) -> bool {
    1 <= speed <= 5 && 0 <= id < rows(speed) && path(speed, id).3 && tail_size == path(speed, id).0 && tail == path(speed, id).1
}
pub open spec fn take_key(speed: int, bs: int, b: int) -> int { b / pow2i(bs - speed) }
pub broadcast proof fn lemma_shr(x: usize, n: usize)
    requires n < 64
    ensures #[trigger] (x >> n) == x as int / pow2i(n as int), pow2i(n as int) > 0
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::bits::lemma_usize_shr_is_div(x, n);
}
pub broadcast proof fn lemma_shl(x: usize, n: usize)
    requires n < 64, x * pow2i(n as int) <= usize::MAX
    ensures #[trigger] (x << n) == x * pow2i(n as int)
{
    lemma_pow2i(n as int);
    vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
    vstd::bits::lemma_usize_shl_is_mul(x, n);
}
pub proof fn lemma_or(x: usize, n: usize, y: usize)
    requires n < 64, x * pow2i(n as int) <= usize::MAX, y < pow2i(n as int)
    ensures ((x << n) | y) == x * pow2i(n as int) + y
{
    lemma_shl(x, n);
    lemma_pow2i_usize(n);
    let m = 1usize << n;
    let z = x << n;
    assert(z & sub(m, 1) == 0) by(bit_vector) requires m == 1usize << n, z == x << n, n < 64;
    assert(z | y == add(z, y) && y <= sub(usize::MAX, z)) by(bit_vector) requires z & sub(m, 1) == 0, y < m, m == 1usize << n, n < 64;
    assert(z + y <= usize::MAX);
    assert(add(z, y) == z + y);
}
pub proof fn lemma_pow2i_usize(n: usize)
    requires n < 64
    ensures pow2i(n as int) == (1usize << n) as int, (1usize << n) >= 1
{
    lemma_pow2i_u64(n as u64);
    assert((1u64 << (n as u64)) as usize == 1usize << n) by(bit_vector) requires n < 64;
}
pub proof fn lemma_low_mask(x: usize, n: usize)
    requires n < 64
    ensures (x & ((1usize << n) - 1) as usize) == x as int % pow2i(n as int), (1usize << n) >= 1
{
    lemma_pow2i_usize(n);
    let m = 1usize << n;
    lemma_mask(n as nat); lemma_pow2i(n as int);
    vstd::bits::lemma_usize_low_bits_mask_is_mod(x, n as nat);
}
// What a step of the decoder does with its next `speed` bits.
pub proof fn lemma_key_symbol(speed: int, id: int, bs: int, b: int, c: int, l: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, speed <= bs, 0 <= b < pow2i(bs),
        ent(speed, id, take_key(speed, bs, b)).1 == Some(c as u16), ent(speed, id, take_key(speed, bs, b)).2 == l as u8, 0 <= c <= u16::MAX, 0 <= l <= u8::MAX
    ensures 0 <= c <= 256, 0 <= l < speed,
        kept(path(speed, id).0, path(speed, id).1, bs, b) == code(c) + bits(bs - speed + l, b % pow2i(bs - speed + l)),
        clen(c) == path(speed, id).0 + speed - l,
        b - take_key(speed, bs, b) / pow2i(l) * pow2i(bs - speed + l) == b % pow2i(bs - speed + l), pow2i(bs - speed + l) > 0
{
    let m = bs - speed;
    let k = take_key(speed, bs, b);
    lemma_key(speed, bs, b);
    lemma_table(speed, id, k);
    let p = path(speed, id);
    lemma_pow2i_add(m, l); lemma_pow2i(m); lemma_pow2i(l);
    vstd::arithmetic::div_mod::lemma_div_denominator(b, pow2i(m), pow2i(l));
    assert(k / pow2i(l) == b / pow2i(m + l));
    lemma_bits_split(speed - l, m + l, b);
    lemma_pow2i(m + l);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m + l));
    assert(k / pow2i(l) * pow2i(m + l) == pow2i(m + l) * (b / pow2i(m + l))) by(nonlinear_arith) requires k / pow2i(l) == b / pow2i(m + l);
    let top = b / pow2i(m + l);
    lemma_pow2i_add(speed - l, m + l);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, pow2i(m + l));
    assert(top < pow2i(speed - l)) by(nonlinear_arith) requires b < pow2i(speed - l) * pow2i(m + l), b == pow2i(m + l) * top + b % pow2i(m + l), 0 <= b % pow2i(m + l), pow2i(m + l) > 0;
    lemma_bits_join(p.0, speed - l, p.1, top);
    assert(kept(p.0, p.1, bs, b) =~= code(c) + bits(m + l, b % pow2i(m + l)));
}
pub proof fn lemma_key_row(speed: int, id: int, bs: int, b: int, j: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, speed <= bs, 0 <= b < pow2i(bs), 0 <= j <= u8::MAX,
        ent(speed, id, take_key(speed, bs, b)).1 is None, ent(speed, id, take_key(speed, bs, b)).0 == Some(j as u8)
    ensures
        ent(speed, id, take_key(speed, bs, b)).2 == 0,
        at_row(speed, j, path(speed, id).0 + speed, path(speed, id).1 * pow2i(speed) + take_key(speed, bs, b)),
        kept(path(speed, id).0, path(speed, id).1, bs, b) == kept(path(speed, j).0, path(speed, j).1, bs - speed, b % pow2i(bs - speed)),
        b - take_key(speed, bs, b) * pow2i(bs - speed) == b % pow2i(bs - speed), pow2i(bs - speed) > 0
{
    let m = bs - speed;
    let k = take_key(speed, bs, b);
    lemma_key(speed, bs, b);
    lemma_table(speed, id, k);
    let p = path(speed, id);
    lemma_bits_split(speed, m, b);
    lemma_pow2i(m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m));
    assert(k * pow2i(m) == pow2i(m) * (b / pow2i(m))) by(nonlinear_arith) requires k == b / pow2i(m);
    lemma_bits_join(p.0, speed, p.1, k);
    assert(kept(p.0, p.1, bs, b) =~= kept(path(speed, j).0, path(speed, j).1, m, b % pow2i(m)));
}
pub proof fn lemma_key(speed: int, bs: int, b: int)
    requires 1 <= speed <= bs, 0 <= b < pow2i(bs)
    ensures 0 <= take_key(speed, bs, b) < pow2i(speed), 0 < pow2i(bs - speed)
{
    let q = pow2i(bs - speed);
    lemma_pow2i(bs - speed); lemma_pow2i_add(speed, bs - speed);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, q);
    assert(b / q < pow2i(speed)) by(nonlinear_arith) requires b < pow2i(speed) * q, b == q * (b / q) + b % q, 0 <= b % q, q > 0;
}
pub proof fn lemma_key_all(sp: int, k: int)
    ensures take_key(sp, sp, k) == k
{ assert(sp - sp == 0); lemma_pow2i_small(); }
pub proof fn lemma_tail(n: int, v: int, m: int, w: int)
    requires 0 <= n < 30, 0 <= v < pow2i(n), 0 <= m <= 5, 0 <= w < pow2i(m)
    ensures 0 <= v * pow2i(m) < 0x10_0000_0000, 0 <= v * pow2i(m) + w < pow2i(n + m), bits(n + m, v * pow2i(m) + w) == bits(n, v) + bits(m, w)
{
    lemma_bits_join(n, m, v, w); lemma_pow2i_add(n, m); lemma_pow2i_mono(n, 30); lemma_pow2i_mono(m, 5); lemma_pow2i_small();
    assert(0 <= v * pow2i(m) < 0x10_0000_0000) by(nonlinear_arith) requires 0 <= v < 0x4000_0000, 0 < pow2i(m) <= 32;
    assert(v * pow2i(m) + w < pow2i(n + m)) by(nonlinear_arith) requires v + 1 <= pow2i(n), w < pow2i(m), pow2i(n + m) == pow2i(n) * pow2i(m), pow2i(m) > 0;
}
pub proof fn lemma_entry(speed: int, id: int, k: int)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, 0 <= k < pow2i(speed)
    ensures match ent(speed, id, k) { (_, Some(c), l) => c <= 256 && l < speed, (Some(j), None, l) => l == 0 && j < rows(speed), _ => false }, path(speed, id).0 < 30, 0 <= path(speed, id).0, 0 <= path(speed, id).1 < pow2i(path(speed, id).0)
{ lemma_table(speed, id, k); lemma_code(path(speed, id).2); }

pub proof fn lemma_shifts(sp: int, bs: int, b: int, l: int, tl: int, tsz: int)
    requires 1 <= sp <= 5, sp <= bs <= 16, 0 <= b < pow2i(bs), 0 <= l < sp, 0 <= tsz < 30, 0 <= tl < pow2i(tsz)
    ensures
        b < 0x1_0000, pow2i(sp) <= 32, 0 <= take_key(sp, bs, b) / pow2i(l) < pow2i(sp - l), take_key(sp, bs, b) / pow2i(l) * pow2i(bs - sp + l) <= b,
        0 <= tl * pow2i(sp - l) < 0x10_0000_0000, 0 <= b % pow2i(bs - sp + l) < pow2i(bs - sp + l), take_key(sp, bs, b) / pow2i(0) == take_key(sp, bs, b)
{
    lemma_pow2i_small(); lemma_pow2i_mono(bs, 16); lemma_pow2i_mono(sp, 5); lemma_pow2i_add(8, 8);
    lemma_key(sp, bs, b);
    let k = take_key(sp, bs, b);
    let (m, q) = (bs - sp, pow2i(l));
    lemma_pow2i_add(sp - l, l); lemma_pow2i_add(m, l); lemma_pow2i(m); lemma_pow2i(m + l);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, q);
    assert(k / q < pow2i(sp - l)) by(nonlinear_arith) requires k < pow2i(sp - l) * q, k == q * (k / q) + k % q, 0 <= k % q, q > 0;
    vstd::arithmetic::div_mod::lemma_div_denominator(b, pow2i(m), q);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, pow2i(m + l));
    assert(k / q * pow2i(m + l) <= b) by(nonlinear_arith) requires k / q == b / pow2i(m + l), b == pow2i(m + l) * (b / pow2i(m + l)) + b % pow2i(m + l), 0 <= b % pow2i(m + l);
    lemma_pow2i_mono(tsz, 30); lemma_pow2i_mono(sp - l, 5);
    assert(0 <= tl * pow2i(sp - l) < 0x10_0000_0000) by(nonlinear_arith) requires 0 <= tl < 0x4000_0000, 0 < pow2i(sp - l) <= 32;
    assert(k / pow2i(0) == k);
}
pub proof fn lemma_gave_eos(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, b1: Seq<bool>)
    requires gave(o, f, b0, b1)
    ensures forall|x: Seq<bool>| b1 == #[trigger] (code(256) + x) ==> dead(b0)
{
    assert forall|x: Seq<bool>| b1 == #[trigger] (code(256) + x) implies dead(b0) by {
        let s = f.skip(o.len() as int);
        assert(b0 == enc_bits(s) + (code(256) + x));
    }
}
pub proof fn lemma_row_proper(p: (int, int, int, bool))
    requires row_ok(p)
    ensures starts(code(p.2), bits(p.0, p.1)), bits(p.0, p.1).len() == p.0
{
    lemma_code(p.2);
    lemma_bits_split(p.0, clen(p.2) - p.0, cval(p.2));
    lemma_bits_len(p.0, p.1);
    assert(code(p.2).take(p.0) =~= bits(p.0, p.1));
}
// The last bits, fewer than a key: if they hold no whole code they hold a proper beginning of one.
pub proof fn lemma_final_stuck(sp: int, id: int, bs: int, b: int)
    requires 1 <= sp <= 5, 0 <= id < rows(sp), path(sp, id).3, 0 <= bs < sp, 0 <= b < pow2i(bs),
        bs > 0 && ent(sp, id, b * pow2i(sp - bs)).1 is Some ==> ent(sp, id, b * pow2i(sp - bs)).2 < sp - bs
    ensures stuck(kept(path(sp, id).0, path(sp, id).1, bs, b)), path(sp, id).0 < 30
{
    let p = path(sp, id);
    let r = kept(p.0, p.1, bs, b);
    lemma_bits_len(bs, b);
    lemma_pow2i_mono(0, sp);
    lemma_table(sp, id, 0); lemma_row_proper(p); lemma_code(p.2);
    if bs == 0 {
        assert(r =~= bits(p.0, p.1));
        lemma_stuck_proper(p.2, r);
    } else {
        let sh = sp - bs;
        let k = b * pow2i(sh);
        lemma_pow2i_add(bs, sh);
        assert(0 <= k < pow2i(sp)) by(nonlinear_arith) requires k == b * pow2i(sh), 0 <= b < pow2i(bs), pow2i(sh) > 0, pow2i(sp) == pow2i(bs) * pow2i(sh);
        lemma_pow2i_small();
        lemma_key_all(sp, k);
        lemma_entry(sp, id, k);
        lemma_table(sp, id, k);
        lemma_bits_join(bs, sh, b, 0);
        let e = ent(sp, id, k);
        let full = kept(p.0, p.1, sp, k);
        assert(full =~= r + bits(sh, 0));
        lemma_bits_len(sh, 0);
        assert(full.take(r.len() as int) =~= r);
        match e.1 {
            Some(c) => {
                lemma_key_symbol(sp, id, sp, k, c as int, e.2 as int);
                lemma_code(c as int);
                assert(full.take(clen(c as int)) =~= code(c as int));
                assert(code(c as int).take(r.len() as int) =~= r);
                lemma_stuck_proper(c as int, r);
            },
            None => {
                let j = e.0.unwrap() as int;
                let q = path(sp, j);
                lemma_key_row(sp, id, sp, k, j);
                lemma_table(sp, j, 0); lemma_row_proper(q); lemma_code(q.2);
                lemma_bits_len(0, k % pow2i(0));
                assert(full =~= bits(q.0, q.1));
                assert(code(q.2).take(r.len() as int) =~= full.take(r.len() as int));
                lemma_stuck_proper(q.2, r);
            },
        }
    }
}
pub proof fn lemma_final_symbol(sp: int, tsz: int, tl: int, bs: int, b: int, c: int, l: int, nb: int)
    requires 0 < bs < sp <= 5, 0 <= b < pow2i(bs), 0 <= tsz, sp - bs <= l, 0 <= nb < pow2i(l), 0 <= c <= 256,
        kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(c) + bits(l, nb)
    ensures kept(tsz, tl, bs, b) == code(c) + bits(l - (sp - bs), nb / pow2i(sp - bs)), 0 <= nb / pow2i(sp - bs) < pow2i(l - (sp - bs))
{
    let sh = sp - bs;
    lemma_pow2i(sh);
    lemma_bits_join(bs, sh, b, 0);
    lemma_bits_split(l - sh, sh, nb);
    lemma_bits_len(tsz, tl); lemma_bits_len(bs, b); lemma_bits_len(sh, 0); lemma_code(c); lemma_bits_len(l - sh, nb / pow2i(sh)); lemma_bits_len(sh, nb % pow2i(sh));
    let r = kept(tsz, tl, bs, b);
    let x = code(c) + bits(l - sh, nb / pow2i(sh));
    assert(kept(tsz, tl, sp, b * pow2i(sh)) =~= r + bits(sh, 0));
    assert(code(c) + bits(l, nb) =~= x + bits(sh, nb % pow2i(sh)));
    assert((r + bits(sh, 0)).take(r.len() as int) =~= r);
    assert((x + bits(sh, nb % pow2i(sh))).take(x.len() as int) =~= x);
    lemma_pow2i_add(l - sh, sh);
    let q = pow2i(sh);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nb, q);
    assert(nb / q < pow2i(l - sh)) by(nonlinear_arith) requires nb < pow2i(l - sh) * q, nb == q * (nb / q) + nb % q, 0 <= nb % q, q > 0;
}
pub proof fn lemma_final_eos(sp: int, tsz: int, tl: int, bs: int, b: int, l: int)
    requires 0 < bs < sp <= 5, 0 <= b < pow2i(bs), 0 <= tsz, sp - bs <= l
    ensures forall|nb: int| 0 <= nb < pow2i(l) && kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(256) + #[trigger] bits(l, nb) ==> fails(kept(tsz, tl, bs, b))
{
    assert forall|nb: int| 0 <= nb < pow2i(l) && kept(tsz, tl, sp, b * pow2i(sp - bs)) == code(256) + #[trigger] bits(l, nb) implies fails(kept(tsz, tl, bs, b)) by {
        lemma_final_symbol(sp, tsz, tl, bs, b, 256, l, nb);
        let r = bits(l - (sp - bs), nb / pow2i(sp - bs));
        assert(enc_bits(Seq::<u8>::empty()) + (code(256) + r) =~= code(256) + r);
        lemma_dead_fails(kept(tsz, tl, bs, b));
    }
}
pub proof fn lemma_stuck_short(n: int, v: int)
    requires 0 <= n < 5
    ensures stuck(bits(n, v))
{
    lemma_bits_len(n, v);
    assert forall|c: int| 0 <= c < 256 implies !#[trigger] starts(bits(n, v), code(c)) by { lemma_code(c); }
}
pub proof fn lemma_verdict(o: Seq<u8>, f: Seq<u8>, b0: Seq<bool>, n: int, v: int)
    requires gave(o, f, b0, bits(n, v)), stuck(bits(n, v)), 0 <= n, 0 <= v < pow2i(n)
    ensures n <= 7 && v == pow2i(n) - 1 ==> gave(o, f, b0, ones(n)), !(n <= 7 && v == pow2i(n) - 1) ==> fails(b0)
{
    lemma_bits_ones(n); lemma_bits_len(n, v);
    if !(n <= 7 && v == pow2i(n) - 1) {
        let r = bits(n, v);
        if r.len() <= 7 && r == ones(r.len() as int) { lemma_bits_inj(n, v, pow2i(n) - 1); }
        assert(b0 == enc_bits(f.skip(o.len() as int)) + r);
    }
}
pub open spec fn num(b: Seq<bool>) -> int decreases b.len() { if b.len() == 0 { 0 } else { 2 * num(b.drop_last()) + if b.last() { 1int } else { 0 } } }
pub proof fn lemma_num(b: Seq<bool>)
    ensures 0 <= num(b) < pow2i(b.len() as int), bits(b.len() as int, num(b)) == b
    decreases b.len()
{
    if b.len() > 0 {
        lemma_num(b.drop_last());
        let v = num(b);
        assert(v / 2 == num(b.drop_last()) && (v % 2 == 1) == b.last());
        assert(bits(b.len() as int, v) =~= b);
    } else { assert(bits(0, 0) =~= b); }
}
pub open spec fn octets(b: Seq<bool>) -> Seq<u8> decreases b.len() { if b.len() < 8 { Seq::empty() } else { octets(b.take(b.len() - 8)).push(num(b.skip(b.len() - 8)) as u8) } }
pub proof fn lemma_octets(b: Seq<bool>)
    requires b.len() % 8 == 0
    ensures bits_of(octets(b)) == b
    decreases b.len()
{
    if b.len() >= 8 {
        let (x, y) = (b.take(b.len() - 8), b.skip(b.len() - 8));
        lemma_octets(x); lemma_num(y); lemma_pow2i_small();
        lemma_bits_of_push(octets(x), num(y) as u8);
        assert(x + y =~= b);
    } else { assert(bits_of(Seq::<u8>::empty()) =~= b); }
}
// U01: every string has an encoding.
pub proof fn thm_encodable(s: Seq<u8>)
    ensures huff(s, octets(enc_bits(s) + ones(pad(enc_bits(s).len() as int))))
{ lemma_octets(enc_bits(s) + ones(pad(enc_bits(s).len() as int))); }
// f is o and then the string that src encodes.
pub open spec fn read_huff(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>) -> bool { o.len() <= f.len() && f.take(o.len() as int) == o && huff(f.skip(o.len() as int), src) }
// What decoding promises.
pub open spec fn dec_post(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, ok: bool) -> bool {
    &&& o.len() <= f.len() && f.take(o.len() as int) == o
    &&& ok ==> read_huff(src, o, f)
    &&& !ok ==> forall|s: Seq<u8>| !#[trigger] huff(s, src)
}
pub proof fn lemma_read(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, k: int)
    requires 0 <= k <= 7, gave(o, f, bits_of(src), ones(k))
    ensures read_huff(src, o, f)
{ lemma_bits_of_len(src); assert(pad(enc_bits(f.skip(o.len() as int)).len() as int) == k); }
pub proof fn lemma_finish(src: Seq<u8>, o: Seq<u8>, d: Seq<u8>, r: Seq<bool>)
    requires gave(o, d, bits_of(src), r)
    ensures forall|f: Seq<u8>, k: int| 0 <= k <= 7 && #[trigger] gave(d, f, r, ones(k)) ==> read_huff(src, o, f) && o.len() <= f.len() && f.take(o.len() as int) == o,
        fails(r) ==> (forall|s: Seq<u8>| !#[trigger] huff(s, src))
{
    let e = Seq::<bool>::empty();
    lemma_prefix_trans(o, d);
    if fails(r) { assert(src.take(src.len() as int) =~= src); lemma_fails_more(d.skip(o.len() as int), r); lemma_fails(src); }
    assert forall|f: Seq<u8>, k: int| 0 <= k <= 7 && #[trigger] gave(d, f, r, ones(k)) implies read_huff(src, o, f) && o.len() <= f.len() && f.take(o.len() as int) == o by {
        assert(r + e =~= r); assert(bits_of(src) + e =~= bits_of(src));
        lemma_gave_cat(o, d, f, bits_of(src), r, e, ones(k));
        lemma_read(src, o, f, k);
    }
}
pub proof fn lemma_src_step(src: Seq<u8>, i: int)
    requires 0 <= i < src.len()
    ensures bits_of(src.take(i + 1)) == bits_of(src.take(i)) + bits(8, src[i] as int)
{ assert(src.take(i + 1) =~= src.take(i).push(src[i])); lemma_bits_of_push(src.take(i), src[i]); }
pub proof fn lemma_bits_of_cat(a: Seq<u8>, b: Seq<u8>)
    ensures bits_of(a + b) == bits_of(a) + bits_of(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bits_of(a) + bits_of(b) =~= bits_of(a)); }
    else { lemma_bits_of_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(bits_of(a + b) =~= bits_of(a) + bits_of(b)); }
}
pub proof fn lemma_refuse(src: Seq<u8>, i: int, b: Seq<bool>)
    requires 0 <= i < src.len(), dead(b), gave_prefix(src, i, b)
    ensures fails(bits_of(src)), forall|s: Seq<u8>| !#[trigger] huff(s, src)
{
    let s = choose|s: Seq<u8>| bits_of(src.take(i + 1)) == #[trigger] enc_bits(s) + b;
    lemma_bits_of_cat(src.take(i + 1), src.skip(i + 1));
    assert(src =~= src.take(i + 1) + src.skip(i + 1));
    lemma_dead_more(s, b, bits_of(src.skip(i + 1)));
    lemma_dead_fails(bits_of(src));
    lemma_fails(src);
}
// After i octets and with the next one, b is what is not yet decoded.
pub open spec fn gave_prefix(src: Seq<u8>, i: int, b: Seq<bool>) -> bool { exists|s: Seq<u8>| bits_of(src.take(i + 1)) == #[trigger] enc_bits(s) + b }

pub open spec fn enc_table_ok(n: int) -> bool decreases n {
    n <= 0 || (crate::httlib_huffman::encoder::table::ENCODE_TABLE[n - 1].0 as int == clen(n - 1) && crate::httlib_huffman::encoder::table::ENCODE_TABLE[n - 1].1 as int == cval(n - 1) && enc_table_ok(n - 1))
}
proof fn lemma_enc_table_at(n: int, c: int)
    requires enc_table_ok(n), 0 <= c < n
    ensures crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].0 as int == clen(c), crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].1 as int == cval(c)
    decreases n
{ if c < n - 1 { lemma_enc_table_at(n - 1, c); } }
// U04: the table of the encoder is the one of RFC 7541.
pub proof fn thm_enc_table(c: int)
    requires 0 <= c <= 256
    ensures crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].0 as int == clen(c), crate::httlib_huffman::encoder::table::ENCODE_TABLE[c].1 as int == cval(c)
{ hcode::lemma_enc_table(); lemma_enc_table_at(257, c); }

pub mod hcode {
use super::*;
proof fn thm_enc_table_all()
    ensures enc_table_ok(257)
{ reveal(rfc); reveal(crate::httlib_huffman::encoder::table::ENCODE_TABLE); assert(enc_table_ok(257)) by(compute_only); }
pub proof fn lemma_enc_table() ensures enc_table_ok(257) { thm_enc_table_all(); }
// What follows from the numbers of the table alone.
pub proof fn lemma_facts()
    ensures codes_ok(257), sorted_ok(257), rank_ok(257), clen(256) == 30, cval(256) == 0x3fff_ffff
{
    reveal(rfc); reveal(sorted); reveal(rank);
    assert(codes_ok(257)) by(compute_only);
    assert(sorted_ok(257)) by(compute_only);
    assert(rank_ok(257)) by(compute_only);
    assert(clen(256) == 30 && cval(256) == 0x3fff_ffff) by(compute_only);
}
}

// ------------------------------------------------------- theorems
// U02, U03: an octet sequence is the encoding of at most one string, whatever the speed.
pub proof fn thm_decoding_unique(a: Seq<u8>, b: Seq<u8>, out: Seq<u8>)
    requires huff(a, out), huff(b, out)
    ensures a == b
{
    let (j, k) = (pad(enc_bits(a).len() as int), pad(enc_bits(b).len() as int));
    lemma_stuck_ones(j); lemma_stuck_ones(k);
    lemma_unique(a, ones(j), b, ones(k));
}
// U01: there is exactly one encoding of a string.
pub proof fn thm_encoding_unique(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires huff(s, a), huff(s, b)
    ensures a == b
{ lemma_bits_of_inj(a, b); }

// U02: what was encoded comes back.
pub proof fn thm_huffman_round_trip(s: Seq<u8>, o1: Seq<u8>, f1: Seq<u8>, o2: Seq<u8>, f2: Seq<u8>, ok: bool)
    requires wrote_huff(s, o1, f1), dec_post(f1.skip(o1.len() as int), o2, f2, ok)
    ensures ok, f2 == o2 + s
{
    let out = f1.skip(o1.len() as int);
    assert(huff(s, out));
    thm_decoding_unique(s, f2.skip(o2.len() as int), out);
    assert(f2 =~= f2.take(o2.len() as int) + f2.skip(o2.len() as int));
}
// U03: decoding succeeds exactly on encodings, and two decodings of the same octets agree.
pub proof fn thm_same_result(src: Seq<u8>, o: Seq<u8>, f: Seq<u8>, ok: bool, g: Seq<u8>, ok2: bool)
    requires dec_post(src, o, f, ok), dec_post(src, o, g, ok2)
    ensures ok <==> exists|s: Seq<u8>| huff(s, src), ok == ok2, ok ==> f == g
{
    if ok && ok2 {
        thm_decoding_unique(f.skip(o.len() as int), g.skip(o.len() as int), src);
        assert(f =~= f.take(o.len() as int) + f.skip(o.len() as int));
        assert(g =~= g.take(o.len() as int) + g.skip(o.len() as int));
    }
}
// U03: nothing that holds the code of EOS is an encoding.
pub proof fn thm_eos_refused(a: Seq<u8>, r: Seq<bool>, src: Seq<u8>)
    requires bits_of(src) == enc_bits(a) + (code(256) + r)
    ensures forall|s: Seq<u8>| !#[trigger] huff(s, src)
{ assert(dead(bits_of(src))); lemma_dead_fails(bits_of(src)); lemma_fails(src); }
// U04: whatever is done with a table, a code leads to its symbol: after a row whose bits begin the
// code of c, the key that holds the next bits of the code gives c, or a row further along the code.
pub proof fn thm_table_follows(speed: int, id: int, k: int, c: int, r: Seq<bool>)
    requires 1 <= speed <= 5, 0 <= id < rows(speed), path(speed, id).3, 0 <= k < pow2i(speed), 0 <= c <= 256,
        code(c) + r == bits(path(speed, id).0, path(speed, id).1) + bits(speed, k)
    ensures ent(speed, id, k).1 == Some(c as u16), ent(speed, id, k).2 == r.len()
{
    lemma_entry(speed, id, k); lemma_key_all(speed, k);
    let e = ent(speed, id, k);
    let p = path(speed, id);
    let full = kept(p.0, p.1, speed, k);
    lemma_code(c);
    lemma_bits_len(p.0, p.1); lemma_bits_len(speed, k);
    match e.1 {
        Some(d) => {
            lemma_key_symbol(speed, id, speed, k, d as int, e.2 as int);
            lemma_code(d as int);
            assert(full.take(clen(c)) =~= code(c));
            assert(full.take(clen(d as int)) =~= code(d as int));
            if clen(c) <= clen(d as int) { assert(code(d as int).take(clen(c)) =~= code(c)); lemma_prefix_free(c, d as int); }
            else { assert(code(c).take(clen(d as int)) =~= code(d as int)); lemma_prefix_free(d as int, c); }
        },
        None => {
            let j = e.0.unwrap() as int;
            let q = path(speed, j);
            lemma_key_row(speed, id, speed, k, j);
            lemma_pow2i_mono(0, speed);
            lemma_table(speed, j, 0); lemma_row_proper(q); lemma_code(q.2);
            lemma_bits_len(0, k % pow2i(0));
            assert(full =~= bits(q.0, q.1));
            assert(full.take(clen(c)) =~= code(c));
            assert(code(q.2).take(clen(c)) =~= full.take(clen(c)));
            lemma_prefix_free(c, q.2);
        },
    }
}

} // verus!
}
pub mod spec { pub use crate::hspec::*; pub use crate::hints::*; }
