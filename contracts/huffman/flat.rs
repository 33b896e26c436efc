// What flattening a code means: tables that lead along any code to its symbol.
pub mod fspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
use crate::hspec::*;
verus! {
pub type Ent = (Option<u8>, Option<u16>, u8);
// How many keys of s bits a code of l bits takes, and the bits that are left over in the last one.
pub open spec fn nkeys(l: int, s: int) -> int { (l + s - 1) / s }
pub open spec fn clo(l: int, s: int) -> int { nkeys(l, s) * s - l }
pub open spec fn cb(c: (u8, u32)) -> Seq<bool> { bits(c.0 as int, c.1 as int) }
pub open spec fn padded(c: (u8, u32), s: int, v: int) -> Seq<bool> { cb(c) + bits(clo(c.0 as int, s), v) }
pub open spec fn coding_ok(c: (u8, u32)) -> bool { 1 <= c.0 <= 30 && (c.1 as int) < pow2i(c.0 as int) }
pub open spec fn key_is(k: int, s: int, b: Seq<bool>, j: int) -> bool { 0 <= k < pow2i(s) && bits(s, k) == b.subrange(j * s, (j + 1) * s) }
// The keys of one way to fill up the code.
pub open spec fn variant_ok(ks: Seq<usize>, c: (u8, u32), s: int, v: int) -> bool {
    ks.len() == nkeys(c.0 as int, s) && forall|j: int| 0 <= j < ks.len() ==> key_is((#[trigger] ks[j]) as int, s, padded(c, s, v), j)
}
// The j-th key of the code filled up with v.
pub open spec fn nth_key(c: (u8, u32), s: int, v: int, j: int) -> int {
    ((c.1 as int * pow2i(clo(c.0 as int, s)) + v) / pow2i(s * (nkeys(c.0 as int, s) - 1 - j))) % pow2i(s)
}
pub proof fn lemma_chunks(l: int, s: int)
    requires 1 <= l <= 30, 1 <= s <= 5
    ensures 0 <= clo(l, s) < s, nkeys(l, s) * s == l + clo(l, s), 1 <= nkeys(l, s) <= l, l + clo(l, s) <= 32, (nkeys(l, s) - 1) * s < l
{
    assert(0 <= clo(l, s) < s && 1 <= nkeys(l, s) <= l && l + clo(l, s) <= 32 && (nkeys(l, s) - 1) * s < l) by (nonlinear_arith) requires 1 <= l <= 30, s == 1 || s == 2 || s == 3 || s == 4 || s == 5, clo(l, s) == nkeys(l, s) * s - l, nkeys(l, s) == (l + s - 1) / s;
}
pub proof fn lemma_nth_key(c: (u8, u32), s: int, v: int, j: int)
    requires coding_ok(c), 1 <= s <= 5, 0 <= v < pow2i(clo(c.0 as int, s)), 0 <= j < nkeys(c.0 as int, s)
    ensures key_is(nth_key(c, s, v, j), s, padded(c, s, v), j)
{
    let l = c.0 as int; let n = nkeys(l, s); let lo = clo(l, s);
    lemma_chunks(l, s); lemma_pow2i(lo); lemma_pow2i(s);
    let p = c.1 as int * pow2i(lo) + v;
    assert(0 <= p) by (nonlinear_arith) requires p == c.1 as int * pow2i(lo) + v, c.1 >= 0, pow2i(lo) > 0, v >= 0;
    lemma_bits_join(l, lo, c.1 as int, v);
    let r = s * (n - 1 - j);
    let a = j * s;
    assert(a >= 0 && r >= 0 && a + s == (j + 1) * s && a + s + r == n * s) by (nonlinear_arith) requires r == s * (n - 1 - j), a == j * s, 0 <= j < n, s >= 1;
    lemma_bits_split(a + s, r, p);
    lemma_bits_split(a, s, p / pow2i(r));
    lemma_bits_len(a, p / pow2i(r) / pow2i(s)); lemma_bits_len(s, nth_key(c, s, v, j)); lemma_bits_len(r, p % pow2i(r));
    assert(padded(c, s, v).subrange(a, a + s) =~= bits(s, nth_key(c, s, v, j)));
}
// All keys but the last are those of the code itself; the last is counted up.
pub proof fn lemma_same_key(c: (u8, u32), s: int, v: int, j: int)
    requires coding_ok(c), 1 <= s <= 5, 0 <= v < pow2i(clo(c.0 as int, s)), 0 <= j < nkeys(c.0 as int, s) - 1
    ensures nth_key(c, s, v, j) == nth_key(c, s, 0, j)
{
    let l = c.0 as int;
    lemma_chunks(l, s); lemma_pow2i(clo(l, s));
    lemma_nth_key(c, s, v, j); lemma_nth_key(c, s, 0, j);
    lemma_bits_len(l, c.1 as int);
    assert((j + 1) * s <= l) by (nonlinear_arith) requires (nkeys(l, s) - 1) * s < l, j + 1 <= nkeys(l, s) - 1, s >= 1;
    assert(0 <= j * s <= (j + 1) * s) by (nonlinear_arith) requires j >= 0, s >= 1;
    assert(padded(c, s, v).subrange(j * s, (j + 1) * s) =~= padded(c, s, 0).subrange(j * s, (j + 1) * s));
    lemma_bits_inj(s, nth_key(c, s, v, j), nth_key(c, s, 0, j));
}
pub proof fn lemma_last_key(c: (u8, u32), s: int, v: int)
    requires coding_ok(c), 1 <= s <= 5, 0 <= v < pow2i(clo(c.0 as int, s))
    ensures nth_key(c, s, v, nkeys(c.0 as int, s) - 1) == nth_key(c, s, 0, nkeys(c.0 as int, s) - 1) + v
{
    let l = c.0 as int; let lo = clo(l, s); let n = nkeys(l, s);
    lemma_chunks(l, s);
    assert(s * (n - 1 - (n - 1)) == 0) by (nonlinear_arith);
    lemma_pow2i_small();
    let m = pow2i(lo); let g = pow2i(s - lo); let d = pow2i(s);
    lemma_pow2i(lo); lemma_pow2i(s - lo); lemma_pow2i_add(s - lo, lo);
    let x = c.1 as int; let q = x / g; let a = x % g;
    assert(x == q * g + a && 0 <= a < g) by (nonlinear_arith) requires q == x / g, a == x % g, g > 0;
    assert(x * m == q * d + a * m) by (nonlinear_arith) requires x == q * g + a, d == g * m;
    assert(0 <= a * m && a * m + m <= d) by (nonlinear_arith) requires 0 <= a < g, d == g * m, m > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * m + v, d, q, a * m + v);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * m + 0, d, q, a * m);
}
pub open spec fn blank(s: int, t: Seq<Ent>) -> bool { t.len() == pow2i(s) && forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == (None::<u8>, None::<u16>, 0u8) }
pub proof fn lemma_pow_two(n: int)
    requires 0 <= n <= 5
    ensures vstd::arithmetic::power::pow(2, n as nat) == pow2i(n), 1 <= pow2i(n) <= 32
{
    lemma_pow2i(n); vstd::arithmetic::power2::lemma_pow2(n as nat); lemma_pow2i_small(); lemma_pow2i_mono(n, 5); 
}
pub broadcast proof fn lemma_shl32(x: u32, n: usize)
    requires n < 32, x as int * pow2i(n as int) < 0x1_0000_0000
    ensures #[trigger] (x << n) as int == x as int * pow2i(n as int)
{
    lemma_pow2i(n as int);
    assert(x << n == x << (n as u32)) by (bit_vector) requires n < 32;
    vstd::bits::lemma_u32_shl_is_mul(x, n as u32);
}
pub broadcast proof fn lemma_shr32(x: u32, n: usize)
    requires n < 32
    ensures #[trigger] (x >> n) as int == x as int / pow2i(n as int)
{
    lemma_pow2i(n as int);
    assert(x >> n == x >> (n as u32)) by (bit_vector) requires n < 32;
    vstd::bits::lemma_u32_shr_is_div(x, n as u32);
}
pub proof fn lemma_low(x: usize, s: int, m: usize)
    requires 1 <= s <= 5, m as int == pow2i(s) - 1
    ensures (x & m) as int == x as int % pow2i(s)
{
    lemma_pow2i_small();
    assert(m == 1 || m == 3 || m == 7 || m == 15 || m == 31);
    assert(x & 1 == x % 2) by (bit_vector);
    assert(x & 3 == x % 4) by (bit_vector);
    assert(x & 7 == x % 8) by (bit_vector);
    assert(x & 15 == x % 16) by (bit_vector);
    assert(x & 31 == x % 32) by (bit_vector);
}

// ------------------------------------------------------- the table
// Every row stands for the bits that lead to it (`paths`): the beginnings, in
// whole keys, of the codes 0..n and the first d of those of code n. Every entry
// says which row the bits of the row and of the entry lead to, and which code
// (of 0..n, or of the first m ways to fill up code n) they are.
pub open spec fn start_of(cs: Seq<(u8, u32)>, s: int, n: int, d: int, w: Seq<bool>, i: int, j: int) -> bool {
    0 <= i <= n && i < cs.len() && 0 <= j < (if i < n { nkeys(cs[i].0 as int, s) } else { d }) && j < nkeys(cs[i].0 as int, s) && w == cb(cs[i]).take(j * s)
}
pub open spec fn way(cs: Seq<(u8, u32)>, s: int, n: int, d: int, w: Seq<bool>) -> bool {
    w.len() == 0 || exists|i: int, j: int| #[trigger] start_of(cs, s, n, d, w, i, j)
}
pub open spec fn entered_by(cs: Seq<(u8, u32)>, s: int, n: int, m: int, w: Seq<bool>, i: int, v: int) -> bool {
    0 <= i <= n && i < cs.len() && 0 <= v < (if i < n { pow2i(clo(cs[i].0 as int, s)) } else { m }) && w == padded(cs[i], s, v)
}
pub open spec fn entered(cs: Seq<(u8, u32)>, s: int, n: int, m: int, w: Seq<bool>, i: int) -> bool {
    exists|v: int| #[trigger] entered_by(cs, s, n, m, w, i, v)
}
pub open spec fn next_ok_f(cs: Seq<(u8, u32)>, s: int, n: int, d: int, paths: Seq<Seq<bool>>, w: Seq<bool>, e: Ent) -> bool {
    match e.0 { Some(j) => (j as int) < paths.len() && paths[j as int] == w, None => !way(cs, s, n, d, w) }
}
pub open spec fn sym_ok_f(cs: Seq<(u8, u32)>, s: int, n: int, m: int, w: Seq<bool>, e: Ent) -> bool {
    match e.1 { Some(i) => entered(cs, s, n, m, w, i as int) && e.2 == clo(cs[i as int].0 as int, s), None => e.2 == 0 && forall|i: int| !#[trigger] entered(cs, s, n, m, w, i) }
}
pub open spec fn at(t: Seq<Vec<Ent>>, r: int, k: int) -> Ent { t[r]@[k] }
pub open spec fn ent_ok(cs: Seq<(u8, u32)>, s: int, n: int, d: int, m: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>, r: int, k: int) -> bool {
    next_ok_f(cs, s, n, d, paths, paths[r] + bits(s, k), at(t, r, k)) && sym_ok_f(cs, s, n, m, paths[r] + bits(s, k), at(t, r, k))
}
#[verifier::opaque]
pub open spec fn good(cs: Seq<(u8, u32)>, s: int, n: int, d: int, m: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>) -> bool {
    &&& t.len() == paths.len() && 1 <= paths.len() && paths[0].len() == 0
    &&& forall|r: int| 0 <= r < t.len() ==> (#[trigger] t[r])@.len() == pow2i(s)
    &&& forall|a: int, b: int| 0 <= a < paths.len() && 0 <= b < paths.len() && #[trigger] paths[a] == #[trigger] paths[b] ==> a == b
    &&& forall|r: int| 0 <= r < paths.len() ==> way(cs, s, n, d, #[trigger] paths[r])
    &&& forall|w: Seq<bool>| #[trigger] way(cs, s, n, d, w) ==> paths.contains(w)
    &&& forall|r: int, k: int| 0 <= r < t.len() && 0 <= k < pow2i(s) ==> #[trigger] ent_ok(cs, s, n, d, m, t, paths, r, k)
}
pub open spec fn coding_all(cs: Seq<(u8, u32)>) -> bool { cs.len() <= 0x1_0000 && forall|i: int| 0 <= i < cs.len() ==> coding_ok(#[trigger] cs[i]) }
// One entry set.
pub open spec fn set_at(t0: Seq<Vec<Ent>>, t1: Seq<Vec<Ent>>, id: int, k: int, e: Ent) -> bool {
    t1.len() == t0.len() && 0 <= id < t0.len() && t1[id]@ == t0[id]@.update(k, e) && forall|r: int| 0 <= r < t0.len() && r != id ==> #[trigger] t1[r] == t0[r]
}
// What holds however long the table gets.
pub open spec fn shaped(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>) -> bool {
    &&& 1 <= t.len()
    &&& forall|r: int| 0 <= r < t.len() ==> (#[trigger] t[r])@.len() == pow2i(s)
    &&& forall|r: int, k: int| 0 <= r < t.len() && 0 <= k < pow2i(s) ==> match (#[trigger] at(t, r, k)).0 { Some(j) => (j as int) < t.len(), None => true }
}
pub open spec fn flat_ok(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>) -> bool { exists|paths: Seq<Seq<bool>>| #[trigger] good(cs, s, cs.len() as int, 0, 0, t, paths) }

pub proof fn lemma_cat_inj(a: Seq<bool>, b: Seq<bool>, s: int, k: int, l: int)
    requires 0 <= s, 0 <= k < pow2i(s), 0 <= l < pow2i(s), a + bits(s, k) == b + bits(s, l)
    ensures a == b, k == l
{
    lemma_bits_len(s, k); lemma_bits_len(s, l);
    let x = a + bits(s, k); let y = b + bits(s, l);
    assert(x.len() == y.len());
    assert(a =~= x.take(x.len() - s)); assert(b =~= y.take(y.len() - s));
    assert(bits(s, k) =~= x.skip(x.len() - s)); assert(bits(s, l) =~= y.skip(y.len() - s));
    lemma_bits_inj(s, k, l);
}
// A beginning of j keys is that long.
pub proof fn lemma_start(c: (u8, u32), s: int, j: int)
    requires coding_ok(c), 1 <= s <= 5, 0 <= j < nkeys(c.0 as int, s)
    ensures cb(c).take(j * s).len() == j * s, 0 <= j * s < c.0, cb(c).len() == c.0
{
    lemma_chunks(c.0 as int, s); lemma_bits_len(c.0 as int, c.1 as int);
    assert(0 <= j * s < c.0) by (nonlinear_arith) requires 0 <= j <= nkeys(c.0 as int, s) - 1, s >= 1, (nkeys(c.0 as int, s) - 1) * s < c.0;
}
// What is before the last key of a beginning is a beginning too ...
pub proof fn lemma_way_parent(cs: Seq<(u8, u32)>, s: int, n: int, d: int, p: Seq<bool>, k: int)
    requires coding_all(cs), 1 <= s <= 5, way(cs, s, n, d, p + bits(s, k))
    ensures way(cs, s, n, d, p)
{
    let w = p + bits(s, k);
    lemma_bits_len(s, k);
    let (i, j) = choose|i: int, j: int| start_of(cs, s, n, d, w, i, j);
    lemma_start(cs[i], s, j);
    assert(j >= 1) by (nonlinear_arith) requires j * s >= s, s >= 1;
    assert((j - 1) * s == j * s - s) by (nonlinear_arith);
    lemma_start(cs[i], s, j - 1);
    assert(p =~= w.take(w.len() - s));
    assert(p =~= cb(cs[i]).take((j - 1) * s));
    assert(start_of(cs, s, n, d, p, i, j - 1));
}
// ... and so is what is before the last key of a code.
pub proof fn lemma_entered_parent(cs: Seq<(u8, u32)>, s: int, n: int, d: int, m: int, p: Seq<bool>, k: int, i: int)
    requires coding_all(cs), 1 <= s <= 5, entered(cs, s, n, m, p + bits(s, k), i), i < n || d == nkeys(cs[n].0 as int, s)
    ensures way(cs, s, n, d, p)
{
    let w = p + bits(s, k);
    lemma_bits_len(s, k);
    let v = choose|v: int| entered_by(cs, s, n, m, w, i, v);
    let l = cs[i].0 as int; let j = nkeys(l, s) - 1;
    lemma_chunks(l, s);
    lemma_start(cs[i], s, j);
    lemma_bits_len(clo(l, s), v);
    assert(j * s == nkeys(l, s) * s - s) by (nonlinear_arith) requires j == nkeys(l, s) - 1;
    assert(w.len() == l + clo(l, s));
    assert(p =~= w.take(w.len() - s));
    assert(p =~= cb(cs[i]).take(j * s));
    assert(start_of(cs, s, n, d, p, i, j));
}
pub proof fn lemma_good_start(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>)
    requires coding_all(cs), 1 <= s <= 5, t.len() == 1, blank(s, t[0]@)
    ensures good(cs, s, 0, 0, 0, t, seq![Seq::empty()]), shaped(cs, s, t)
{
    reveal(good);
    let paths = seq![Seq::<bool>::empty()];
    assert forall|w: Seq<bool>| way(cs, s, 0, 0, w) implies paths.contains(w) && w.len() == 0 by { assert(w =~= Seq::empty()); assert(paths[0] == w); }
    assert forall|r: int, k: int| 0 <= r < t.len() && 0 <= k < pow2i(s) implies #[trigger] ent_ok(cs, s, 0, 0, 0, t, paths, r, k) by { lemma_bits_len(s, k); assert(at(t, r, k) == t[0]@[k]); }
    assert forall|r: int, k: int| 0 <= r < t.len() && 0 <= k < pow2i(s) implies (#[trigger] at(t, r, k)).0 is None by { assert(at(t, r, k) == t[0]@[k]); }
}
// The same table, said of other numbers that mean the same.
pub proof fn lemma_good_as(cs: Seq<(u8, u32)>, s: int, n: int, d: int, m: int, n1: int, d1: int, m1: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>)
    requires good(cs, s, n, d, m, t, paths), forall|w: Seq<bool>| way(cs, s, n, d, w) == #[trigger] way(cs, s, n1, d1, w), forall|w: Seq<bool>, i: int| entered(cs, s, n, m, w, i) == #[trigger] entered(cs, s, n1, m1, w, i)
    ensures good(cs, s, n1, d1, m1, t, paths)
{
    reveal(good);
    assert forall|r: int, k: int| 0 <= r < t.len() && 0 <= k < pow2i(s) implies #[trigger] ent_ok(cs, s, n1, d1, m1, t, paths, r, k) by {
        assert(ent_ok(cs, s, n, d, m, t, paths, r, k));
        let w = paths[r] + bits(s, k);
        assert forall|i: int| #[trigger] entered(cs, s, n, m, w, i) == entered(cs, s, n1, m1, w, i) by {}
        assert(way(cs, s, n, d, w) == way(cs, s, n1, d1, w));
    }
}
pub proof fn lemma_good_first(cs: Seq<(u8, u32)>, s: int, n: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), good(cs, s, n, 0, 0, t, paths)
    ensures good(cs, s, n, 1, 0, t, paths)
{
    assert forall|w: Seq<bool>| way(cs, s, n, 0, w) == #[trigger] way(cs, s, n, 1, w) by {
        if w.len() > 0 {
            if way(cs, s, n, 0, w) { let (i, j) = choose|i: int, j: int| start_of(cs, s, n, 0, w, i, j); assert(start_of(cs, s, n, 1, w, i, j)); }
            if way(cs, s, n, 1, w) { let (i, j) = choose|i: int, j: int| start_of(cs, s, n, 1, w, i, j); lemma_start(cs[i], s, j); assert(j == 0 ==> j * s == 0) by (nonlinear_arith); assert(i != n); assert(start_of(cs, s, n, 0, w, i, j)); }
        }
    }
    lemma_good_as(cs, s, n, 0, 0, n, 1, 0, t, paths);
}
pub proof fn lemma_good_done(cs: Seq<(u8, u32)>, s: int, n: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), good(cs, s, n, nkeys(cs[n].0 as int, s), pow2i(clo(cs[n].0 as int, s)), t, paths)
    ensures good(cs, s, n + 1, 0, 0, t, paths)
{
    let n1 = n + 1;
    let d = nkeys(cs[n].0 as int, s); let m = pow2i(clo(cs[n].0 as int, s));
    assert forall|w: Seq<bool>| way(cs, s, n, d, w) == #[trigger] way(cs, s, n1, 0, w) by {
        if w.len() > 0 {
            if way(cs, s, n, d, w) { let (i, j) = choose|i: int, j: int| start_of(cs, s, n, d, w, i, j); assert(start_of(cs, s, n1, 0, w, i, j)); }
            if way(cs, s, n1, 0, w) { let (i, j) = choose|i: int, j: int| start_of(cs, s, n1, 0, w, i, j); assert(start_of(cs, s, n, d, w, i, j)); }
        }
    }
    assert forall|w: Seq<bool>, i: int| entered(cs, s, n, m, w, i) == #[trigger] entered(cs, s, n1, 0, w, i) by {
        if entered(cs, s, n, m, w, i) { let v = choose|v: int| entered_by(cs, s, n, m, w, i, v); assert(entered_by(cs, s, n1, 0, w, i, v)); }
        if entered(cs, s, n1, 0, w, i) { let v = choose|v: int| entered_by(cs, s, n1, 0, w, i, v); assert(entered_by(cs, s, n, m, w, i, v)); }
    }
    lemma_good_as(cs, s, n, d, m, n1, 0, 0, t, paths);
}
// One beginning more of code n.
pub proof fn lemma_way_more(cs: Seq<(u8, u32)>, s: int, n: int, d: int, x: Seq<bool>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), 1 <= d < nkeys(cs[n].0 as int, s)
    ensures way(cs, s, n, d + 1, x) == (way(cs, s, n, d, x) || x == cb(cs[n]).take(d * s))
{
    let d1 = d + 1;
    if x.len() > 0 && way(cs, s, n, d1, x) {
        let (i, j) = choose|i: int, j: int| start_of(cs, s, n, d1, x, i, j);
        if !(i == n && j == d) { assert(start_of(cs, s, n, d, x, i, j)); }
    }
    if x.len() > 0 && way(cs, s, n, d, x) { let (i, j) = choose|i: int, j: int| start_of(cs, s, n, d, x, i, j); assert(start_of(cs, s, n, d1, x, i, j)); }
    if x == cb(cs[n]).take(d * s) { assert(start_of(cs, s, n, d1, x, n, d)); }
}
// The key leads on to a row that is there.
pub proof fn lemma_shl_pow(n: usize)
    requires n <= 5
    ensures 1usize << n == pow2i(n as int), 1u32 << n == pow2i(n as int), 1i32 << n == pow2i(n as int)
{
    lemma_pow2i_small();
    assert(n == 0 || n == 1 || n == 2 || n == 3 || n == 4 || n == 5);
    assert(1usize << 0usize == 1 && 1usize << 1usize == 2 && 1usize << 2usize == 4 && 1usize << 3usize == 8 && 1usize << 4usize == 16 && 1usize << 5usize == 32) by (bit_vector);
    assert(1u32 << 0usize == 1 && 1u32 << 1usize == 2 && 1u32 << 2usize == 4 && 1u32 << 3usize == 8 && 1u32 << 4usize == 16 && 1u32 << 5usize == 32) by (bit_vector);
    assert(1i32 << 0usize == 1 && 1i32 << 1usize == 2 && 1i32 << 2usize == 4 && 1i32 << 3usize == 8 && 1i32 << 4usize == 16 && 1i32 << 5usize == 32) by (bit_vector);
}
pub proof fn lemma_good_follow(cs: Seq<(u8, u32)>, s: int, n: int, d: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>, id: int, k: int)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), 1 <= d < nkeys(cs[n].0 as int, s), good(cs, s, n, d, 0, t, paths), 0 <= id < t.len(), 0 <= k < pow2i(s),
        paths[id] + bits(s, k) == cb(cs[n]).take(d * s), at(t, id, k).0 is Some
    ensures ({ let j = at(t, id, k).0->0 as int; 0 <= j < t.len() && paths[j] == cb(cs[n]).take(d * s) }), good(cs, s, n, d + 1, 0, t, paths)
{
    let d1 = d + 1;
    let w = cb(cs[n]).take(d * s);
    assert(ent_ok(cs, s, n, d, 0, t, paths, id, k) && t.len() == paths.len() && way(cs, s, n, d, paths[at(t, id, k).0->0 as int])) by { reveal(good); }
    assert forall|x: Seq<bool>| way(cs, s, n, d, x) == #[trigger] way(cs, s, n, d1, x) by { lemma_way_more(cs, s, n, d, x); }
    lemma_good_as(cs, s, n, d, 0, n, d1, 0, t, paths);
}
// A row is added, and the key made to lead to it.
pub proof fn lemma_good_row(cs: Seq<(u8, u32)>, s: int, n: int, d: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>, id: int, k: int, t1: Seq<Vec<Ent>>, t2: Seq<Vec<Ent>>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), 1 <= d < nkeys(cs[n].0 as int, s), good(cs, s, n, d, 0, t, paths), 0 <= id < t.len(), 0 <= k < pow2i(s), t.len() <= 255,
        paths[id] + bits(s, k) == cb(cs[n]).take(d * s), at(t, id, k).0 is None,
        t1.len() == t.len() + 1, t1.take(t.len() as int) == t, blank(s, t1[t.len() as int]@), set_at(t1, t2, id, k, (Some(t.len() as u8), at(t, id, k).1, at(t, id, k).2))
    ensures good(cs, s, n, d + 1, 0, t2, paths.push(cb(cs[n]).take(d * s))), t2.len() == paths.len() + 1
{
    let d1 = d + 1;
    reveal(good);
    let w = cb(cs[n]).take(d * s); let p2 = paths.push(w); let z = t.len() as int;
    assert(ent_ok(cs, s, n, d, 0, t, paths, id, k));
    assert(!way(cs, s, n, d, w));
    assert forall|r: int| 0 <= r < z implies t1[r] == #[trigger] t[r] by { assert(t1.take(z)[r] == t1[r]); }
    assert forall|r: int| 0 <= r < t2.len() implies (#[trigger] t2[r])@.len() == pow2i(s) by { if r < z { assert(t[r]@.len() == pow2i(s)); } }
    assert forall|r: int| 0 <= r < p2.len() implies way(cs, s, n, d1, #[trigger] p2[r]) by { if r < z { assert(way(cs, s, n, d, paths[r])); } lemma_way_more(cs, s, n, d, p2[r]); }
    assert forall|x: Seq<bool>| #[trigger] way(cs, s, n, d1, x) implies p2.contains(x) by {
        lemma_way_more(cs, s, n, d, x);
        if way(cs, s, n, d, x) { let r = choose|r: int| 0 <= r < paths.len() && paths[r] == x; assert(p2[r] == x); } else { assert(p2[z] == x); }
    }
    assert forall|a: int, b: int| 0 <= a < p2.len() && 0 <= b < p2.len() && #[trigger] p2[a] == #[trigger] p2[b] implies a == b by {
        if a < z { assert(way(cs, s, n, d, paths[a])); } if b < z { assert(way(cs, s, n, d, paths[b])); }
    }
    assert forall|r: int, q: int| 0 <= r < t2.len() && 0 <= q < pow2i(s) implies #[trigger] ent_ok(cs, s, n, d1, 0, t2, p2, r, q) by {
        let x = p2[r] + bits(s, q);
        lemma_way_more(cs, s, n, d, x);
        if r == z {
            lemma_bits_len(s, q);
            assert(at(t2, r, q) == t1[z]@[q]);
            assert(x != w);
            if way(cs, s, n, d, x) { lemma_way_parent(cs, s, n, d, w, q); }
            assert forall|i: int| !#[trigger] entered(cs, s, n, 0, x, i) by {
                if entered(cs, s, n, 0, x, i) {
                    assert(i < n) by { let v = choose|v: int| entered_by(cs, s, n, 0, x, i, v); }
                    lemma_entered_parent(cs, s, n, d, 0, w, q, i);
                }
            }
        } else {
            assert(ent_ok(cs, s, n, d, 0, t, paths, r, q));
            assert(t[r]@.len() == pow2i(s));
            if r == id && q == k { assert(p2[z] == w); }
            else {
                assert(at(t2, r, q) == at(t, r, q));
                if x == w { lemma_cat_inj(paths[r], paths[id], s, q, k); }
            }
        }
    }
}
// A code is entered.
pub proof fn lemma_good_sym(cs: Seq<(u8, u32)>, s: int, n: int, m: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>, id: int, k: int, t2: Seq<Vec<Ent>>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), 0 <= m < pow2i(clo(cs[n].0 as int, s)), good(cs, s, n, nkeys(cs[n].0 as int, s), m, t, paths), 0 <= id < t.len(), 0 <= k < pow2i(s),
        paths[id] + bits(s, k) == padded(cs[n], s, m), set_at(t, t2, id, k, (at(t, id, k).0, Some(n as u16), clo(cs[n].0 as int, s) as u8))
    ensures good(cs, s, n, nkeys(cs[n].0 as int, s), m + 1, t2, paths)
{
    let m1 = m + 1;
    reveal(good);
    let d = nkeys(cs[n].0 as int, s); let w = padded(cs[n], s, m);
    lemma_chunks(cs[n].0 as int, s);
    assert forall|r: int| 0 <= r < t2.len() implies (#[trigger] t2[r])@.len() == pow2i(s) by { assert(t[r]@.len() == pow2i(s)); }
    assert forall|r: int, q: int| 0 <= r < t2.len() && 0 <= q < pow2i(s) implies #[trigger] ent_ok(cs, s, n, d, m1, t2, paths, r, q) by {
        let x = paths[r] + bits(s, q);
        assert(ent_ok(cs, s, n, d, m, t, paths, r, q));
        assert(t[r]@.len() == pow2i(s));
        assert forall|i: int| #[trigger] entered(cs, s, n, m1, x, i) == (entered(cs, s, n, m, x, i) || i == n && x == w) by {
            if entered(cs, s, n, m1, x, i) { let v = choose|v: int| entered_by(cs, s, n, m1, x, i, v); if !(i == n && v == m) { assert(entered_by(cs, s, n, m, x, i, v)); } }
            if entered(cs, s, n, m, x, i) { let v = choose|v: int| entered_by(cs, s, n, m, x, i, v); assert(entered_by(cs, s, n, m1, x, i, v)); }
            if i == n && x == w { assert(entered_by(cs, s, n, m1, x, i, m)); }
        }
        if r == id && q == k { assert(x == w); assert(entered(cs, s, n, m1, x, n)); }
        else {
            assert(at(t2, r, q) == at(t, r, q));
            if x == w { lemma_cat_inj(paths[r], paths[id], s, q, k); }
            match at(t, r, q).1 { Some(i) => { assert(entered(cs, s, n, m, x, i as int)); } None => {} }
        }
    }
}

pub proof fn lemma_step(c: (u8, u32), s: int, v: int, j: int, p: Seq<bool>, k: int)
    requires coding_ok(c), 1 <= s <= 5, 0 <= v, 0 <= j < nkeys(c.0 as int, s), key_is(k, s, padded(c, s, v), j), p == cb(c).take(j * s)
    ensures j < nkeys(c.0 as int, s) - 1 ==> p + bits(s, k) == cb(c).take((j + 1) * s), j == nkeys(c.0 as int, s) - 1 ==> p + bits(s, k) == padded(c, s, v)
{
    let l = c.0 as int; let n = nkeys(l, s); let w = padded(c, s, v);
    lemma_chunks(l, s); lemma_start(c, s, j); lemma_bits_len(s, k); lemma_bits_len(clo(l, s), v);
    assert((j + 1) * s == j * s + s) by (nonlinear_arith);
    if j < n - 1 { lemma_start(c, s, j + 1); assert(p + bits(s, k) =~= cb(c).take((j + 1) * s)); }
    else { assert(w.len() == (j + 1) * s); assert(p + bits(s, k) =~= w); }
}
pub proof fn lemma_first_row(cs: Seq<(u8, u32)>, s: int, n: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>)
    requires coding_all(cs), 1 <= s <= 5, 0 <= n < cs.len(), good(cs, s, n, 0, 0, t, paths)
    ensures good(cs, s, n, 1, 0, t, paths), paths[0] == cb(cs[n]).take(0 * s), paths.len() == t.len()
{
    lemma_good_first(cs, s, n, t, paths);
    lemma_chunks(cs[n].0 as int, s); lemma_start(cs[n], s, 0);
    reveal(good);
    assert(paths[0] =~= cb(cs[n]).take(0 * s));
}
pub proof fn lemma_shaped_push(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>, t1: Seq<Vec<Ent>>)
    requires shaped(cs, s, t), t1.len() == t.len() + 1, t1.take(t.len() as int) == t, blank(s, t1[t.len() as int]@)
    ensures shaped(cs, s, t1), forall|r: int| 0 <= r < t.len() ==> t1[r] == #[trigger] t[r]
{
    assert forall|r: int| 0 <= r < t.len() implies t1[r] == #[trigger] t[r] by { assert(t1.take(t.len() as int)[r] == t1[r]); }
    assert forall|r: int| 0 <= r < t1.len() implies (#[trigger] t1[r])@.len() == pow2i(s) by { if r < t.len() { assert(t[r]@.len() == pow2i(s)); } }
    assert forall|r: int, k: int| 0 <= r < t1.len() && 0 <= k < pow2i(s) implies match (#[trigger] at(t1, r, k)).0 { Some(j) => (j as int) < t1.len(), None => true } by {
        if r < t.len() { assert(at(t1, r, k) == at(t, r, k)); } else { assert(t1[r]@[k] == (None::<u8>, None::<u16>, 0u8)); }
    }
}
pub proof fn lemma_shaped_set(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>, t1: Seq<Vec<Ent>>, id: int, k: int, e: Ent)
    requires shaped(cs, s, t), set_at(t, t1, id, k, e), 0 <= k < pow2i(s), match e.0 { Some(j) => (j as int) < t.len(), None => true }
    ensures shaped(cs, s, t1)
{
    assert forall|r: int| 0 <= r < t1.len() implies (#[trigger] t1[r])@.len() == pow2i(s) by { assert(t[r]@.len() == pow2i(s)); }
    assert forall|r: int, q: int| 0 <= r < t1.len() && 0 <= q < pow2i(s) implies match (#[trigger] at(t1, r, q)).0 { Some(j) => (j as int) < t1.len(), None => true } by {
        assert(t[r]@.len() == pow2i(s));
        if r == id && q == k { assert(at(t1, r, q) == e); } else { assert(at(t1, r, q) == at(t, r, q)); }
    }
}

// ------------------------------------------------------- what the table decodes
// The number the bits stand for.
pub open spec fn key_of(b: Seq<bool>) -> int decreases b.len() { if b.len() == 0 { 0 } else { 2 * key_of(b.drop_last()) + (if b.last() { 1int } else { 0 }) } }
// The entry that reading `b` from row r on, s bits at a time, ends at.
pub open spec fn walk(s: int, t: Seq<Vec<Ent>>, r: int, b: Seq<bool>) -> Option<Ent> decreases b.len() {
    if s < 1 || b.len() < s || !(0 <= r < t.len()) { None }
    else if b.len() == s { Some(at(t, r, key_of(b))) }
    else { match at(t, r, key_of(b.take(s))).0 { Some(j) => walk(s, t, j as int, b.skip(s)), None => None } }
}
pub open spec fn prefix_free(cs: Seq<(u8, u32)>) -> bool {
    forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && #[trigger] cb(cs[i]).is_prefix_of(#[trigger] cb(cs[j])) ==> i == j
}
// Exactly the codes, filled up in any way, end at a symbol, and it is their own.
pub open spec fn decodes(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>) -> bool {
    &&& forall|i: int, v: int| 0 <= i < cs.len() && 0 <= v < pow2i(clo(cs[i].0 as int, s)) ==> match walk(s, t, 0, #[trigger] padded(cs[i], s, v)) {
            Some(e) => e.1 == Some(i as u16) && e.2 == clo(cs[i].0 as int, s), None => false }
    &&& forall|b: Seq<bool>| match #[trigger] walk(s, t, 0, b) {
            Some(e) => match e.1 { Some(i) => (i as int) < cs.len() && cb(cs[i as int]).is_prefix_of(b) && b.len() == cs[i as int].0 + clo(cs[i as int].0 as int, s) && e.2 == clo(cs[i as int].0 as int, s), None => e.2 == 0 }, None => true }
    // and reading goes on exactly where a code does
    &&& forall|b: Seq<bool>| match #[trigger] walk(s, t, 0, b) { Some(e) => e.0 is Some ==> exists|i: int| 0 <= i < cs.len() && b.len() < cs[i].0 && b.is_prefix_of(#[trigger] cb(cs[i])), None => true }
}
pub proof fn lemma_key_of(b: Seq<bool>)
    ensures 0 <= key_of(b) < pow2i(b.len() as int), bits(b.len() as int, key_of(b)) == b
    decreases b.len()
{
    if b.len() > 0 {
        lemma_key_of(b.drop_last()); lemma_pow2i(b.len() - 1);
        assert(key_of(b) / 2 == key_of(b.drop_last()));
        assert(bits(b.len() as int, key_of(b)) =~= b);
    } else { assert(bits(0, 0) =~= b); }
}
pub proof fn lemma_less(a: int, s: int)
    requires s > 0, a > 0, a % s == 0
    ensures a >= s, (a - s) % s == 0
{
    if a < s { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, s as nat); }
    vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(a, s);
}
pub proof fn lemma_walk(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>, paths: Seq<Seq<bool>>, r: int, b: Seq<bool>)
    requires coding_all(cs), 1 <= s <= 5, good(cs, s, cs.len() as int, 0, 0, t, paths), 0 <= r < t.len()
    ensures match walk(s, t, r, b) { Some(e) => exists|q: int, k: int| 0 <= q < t.len() && 0 <= k < pow2i(s) && e == #[trigger] at(t, q, k) && paths[q] + bits(s, k) == paths[r] + b, None => true },
        b.len() >= s && b.len() % (s as nat) == 0 && way(cs, s, cs.len() as int, 0, paths[r] + b.take(b.len() - s)) ==> walk(s, t, r, b) is Some
    decreases b.len()
{
    let n = cs.len() as int;
    assert(t.len() == paths.len()) by { reveal(good); }
    if b.len() >= s {
        let f = b.take(s); let k = key_of(f);
        lemma_key_of(f);
        assert(ent_ok(cs, s, n, 0, 0, t, paths, r, k)) by { reveal(good); }
        assert(b.len() == s ==> f =~= b);
        if b.len() > s {
            let g = b.skip(s);
            if at(t, r, k).0 is Some {
                let j = at(t, r, k).0->0 as int;
                lemma_walk(cs, s, t, paths, j, g);
                assert(paths[j] + g =~= paths[r] + b);
                if b.len() % (s as nat) == 0 {
                    lemma_less(b.len() as int, s); lemma_less(g.len() as int, s);
                    assert(paths[j] + g.take(g.len() - s) =~= paths[r] + b.take(b.len() - s));
                }
            } else if b.len() % (s as nat) == 0 && way(cs, s, n, 0, paths[r] + b.take(b.len() - s)) {
                lemma_less(b.len() as int, s); lemma_less(b.len() - s, s);
                let h = b.take(b.len() - s).skip(s); assert(paths[r] + f + h =~= paths[r] + b.take(b.len() - s)); assert((h.len() as int) % s == 0) by { if h.len() == 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, s as nat); } else { lemma_less(b.len() - s, s); } }
                lemma_way_start(cs, s, n, 0, paths[r] + f, b.take(b.len() - s).skip(s));
                assert(paths[r] + f + b.take(b.len() - s).skip(s) =~= paths[r] + b.take(b.len() - s));
            }
        }
    }
}
// Any whole number of keys at the beginning of a beginning.
pub proof fn lemma_way_start(cs: Seq<(u8, u32)>, s: int, n: int, d: int, p: Seq<bool>, g: Seq<bool>)
    requires coding_all(cs), 1 <= s <= 5, way(cs, s, n, d, p + g), g.len() % (s as nat) == 0
    ensures way(cs, s, n, d, p)
    decreases g.len()
{
    if g.len() == 0 { assert(p + g =~= p); }
    else {
        lemma_less(g.len() as int, s);
        let g0 = g.take(g.len() - s); let l = g.skip(g.len() - s);
        lemma_key_of(l);
        assert(p + g0 + bits(s, key_of(l)) =~= p + g);
        lemma_way_parent(cs, s, n, d, p + g0, key_of(l));
        lemma_way_start(cs, s, n, d, p, g0);
    }
}
pub proof fn thm_flat_decodes(cs: Seq<(u8, u32)>, s: int, t: Seq<Vec<Ent>>)
    requires coding_all(cs), prefix_free(cs), 1 <= s <= 5, flat_ok(cs, s, t)
    ensures decodes(cs, s, t)
{
    let n = cs.len() as int;
    let paths = choose|paths: Seq<Seq<bool>>| #[trigger] good(cs, s, n, 0, 0, t, paths);
    assert(paths[0].len() == 0 && t.len() == paths.len() && 1 <= t.len()) by { reveal(good); }
    assert forall|b: Seq<bool>| #[trigger] (paths[0] + b) == b by { assert(paths[0] + b =~= b); }
    assert forall|i: int, v: int| 0 <= i < cs.len() && 0 <= v < pow2i(clo(cs[i].0 as int, s)) implies match walk(s, t, 0, #[trigger] padded(cs[i], s, v)) {
            Some(e) => e.1 == Some(i as u16) && e.2 == clo(cs[i].0 as int, s), None => false } by {
        let w = padded(cs[i], s, v); let l = cs[i].0 as int; let j = nkeys(l, s) - 1;
        lemma_chunks(l, s); lemma_start(cs[i], s, j); lemma_bits_len(clo(l, s), v);
        assert(j * s == nkeys(l, s) * s - s) by (nonlinear_arith) requires j == nkeys(l, s) - 1;
        assert(w.take(w.len() - s) =~= cb(cs[i]).take(j * s));
        assert(start_of(cs, s, n, 0, w.take(w.len() - s), i, j));
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(nkeys(l, s), s);
        assert(w.len() >= s) by (nonlinear_arith) requires w.len() == nkeys(l, s) * s, nkeys(l, s) >= 1, s >= 1;
        assert(w.len() == nkeys(l, s) * s);
        lemma_walk(cs, s, t, paths, 0, w);
        let e = walk(s, t, 0, w)->0;
        let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < pow2i(s) && e == #[trigger] at(t, q, k) && paths[q] + bits(s, k) == paths[0] + w;
        assert(ent_ok(cs, s, n, 0, 0, t, paths, q, k)) by { reveal(good); }
        assert(entered_by(cs, s, n, 0, w, i, v)); assert(entered(cs, s, n, 0, w, i));
        let i2 = e.1->0 as int;
        let v2 = choose|v2: int| entered_by(cs, s, n, 0, w, i2, v2);
        lemma_bits_len(l, cs[i].1 as int); lemma_bits_len(cs[i2].0 as int, cs[i2].1 as int);
        assert(cb(cs[i]) =~= w.take(l)); assert(cb(cs[i2]) =~= w.take(cs[i2].0 as int));
        if l <= cs[i2].0 { assert(cb(cs[i]).is_prefix_of(cb(cs[i2]))); } else { assert(cb(cs[i2]).is_prefix_of(cb(cs[i]))); }
    }
    assert forall|b: Seq<bool>| match #[trigger] walk(s, t, 0, b) {
            Some(e) => (match e.1 { Some(i) => (i as int) < cs.len() && cb(cs[i as int]).is_prefix_of(b) && b.len() == cs[i as int].0 + clo(cs[i as int].0 as int, s) && e.2 == clo(cs[i as int].0 as int, s), None => e.2 == 0 })
                && (e.0 is Some ==> exists|i: int| 0 <= i < cs.len() && b.len() < cs[i].0 && b.is_prefix_of(#[trigger] cb(cs[i]))), None => true } by {
        lemma_walk(cs, s, t, paths, 0, b);
        if walk(s, t, 0, b) is Some {
            let e = walk(s, t, 0, b)->0;
            let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < pow2i(s) && e == #[trigger] at(t, q, k) && paths[q] + bits(s, k) == paths[0] + b;
            assert(ent_ok(cs, s, n, 0, 0, t, paths, q, k)) by { reveal(good); }
            if e.1 is Some {
                let i = e.1->0 as int;
                let v = choose|v: int| entered_by(cs, s, n, 0, b, i, v);
                lemma_chunks(cs[i].0 as int, s);
                lemma_bits_len(cs[i].0 as int, cs[i].1 as int); lemma_bits_len(clo(cs[i].0 as int, s), v);
                assert(cb(cs[i]) =~= b.take(cs[i].0 as int));
            }
            if e.0 is Some {
                let j = e.0->0 as int;
                assert(way(cs, s, n, 0, paths[j])) by { reveal(good); }
                lemma_bits_len(s, k);
                let (i, x) = choose|i: int, x: int| start_of(cs, s, n, 0, b, i, x);
                lemma_start(cs[i], s, x);
                assert(b.is_prefix_of(cb(cs[i])));
            }
        }
    }
}
} // verus!
}
