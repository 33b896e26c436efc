// The text of a code table, in the layout of RFC 7541 Appendix B.
pub mod tspec {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::trust::*;
verus! {
pub open spec fn is_bit(b: u8) -> bool { b == 48 || b == 49 }
pub open spec fn bit_count(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { bit_count(b.drop_last()) + (if is_bit(b.last()) { 1int } else { 0 }) } }
pub open spec fn hex_field(l: Seq<u8>) -> Option<int> { hex(trim_end(trim_start(l.subrange(50, 59)))) }
// The bits in columns 12 to 44, in groups of eight, and their value in hex in columns 50 to 58.
pub open spec fn line_ok(l: Seq<u8>) -> bool {
    &&& l.len() >= 59 && all_ascii(l)
    &&& forall|i: int| 12 <= i < 45 ==> is_bit(#[trigger] l[i]) || l[i] == 124 || l[i] == 32
    &&& match hex_field(l) { Some(v) => 0 <= v < 0x1_0000_0000, None => false }
}
pub open spec fn line_code(l: Seq<u8>) -> (u16, u32) { (bit_count(l.subrange(12, 45)) as u16, hex_field(l)->0 as u32) }
pub open spec fn lines_ok(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < lines_of(b).len() ==> line_ok(#[trigger] lines_of(b)[i]) }
pub open spec fn line_codes(b: Seq<u8>) -> Seq<(u16, u32)> { Seq::new(lines_of(b).len(), |i: int| line_code(lines_of(b)[i])) }

pub proof fn lemma_bit_count(b: Seq<u8>) ensures 0 <= bit_count(b) <= b.len() decreases b.len() { if b.len() > 0 { lemma_bit_count(b.drop_last()); } }
pub proof fn lemma_boundary(s: &str, i: int)
    requires all_ascii(str_bytes(s)), 0 <= i <= str_bytes(s).len()
    ensures vstd::utf8::is_char_boundary(str_bytes(s), i)
{
    vstd::utf8::encode_utf8_valid_utf8(s@);
    let b = str_bytes(s);
    assert(b == vstd::utf8::encode_utf8(s@));
    vstd::utf8::is_char_boundary_start_end_of_seq(b);
    if i < b.len() { vstd::utf8::is_char_boundary_iff_is_leading_byte(b, i); assert(b[i] < 128); let x = b[i]; assert(x < 128 ==> x & 0x80 == 0) by (bit_vector); assert(vstd::utf8::is_leading_byte_width_1(x)); }
}
} // verus!
}
