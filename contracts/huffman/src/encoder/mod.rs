/*@@ broadcast use {axiom_sub_assign_obeys, axiom_sub_assign_ref}; @@*/
mod error;
pub mod table;

pub use error::*;

pub fn encode(src: &[u8], dst: &mut Vec<u8>) -> Result<(), EncoderError>
/*@ ensures ret is Ok, wrote_huff(src@, old(dst)@, final(dst)@) @*/
{
    /*@ proof { lemma_start(0, old(dst)@); } @*/
    let mut bits: u64 = 0;
    let mut bits_left = 40;
    let codings = self::table::ENCODE_TABLE;

    for &byte in /*@ it_: @*/ src
    /*@ invariant codings == crate::httlib_huffman::encoder::table::ENCODE_TABLE, 33 <= bits_left <= 40, it_.seq() == src@.as_ref(),
            writing(src@.take(it_.index@), old(dst)@, dst@, bits, bits_left as int) @*/
    {
        /*@ proof {
            let c = src@[it_.index@ as int];
            thm_enc_table(c as int); lemma_code(c as int); assert(src@.take(it_.index@ + 1) =~= src@.take(it_.index@).push(c));
            let (cl, cv) = codings@[c as int];
            lemma_add(src@.take(it_.index@), old(dst)@, dst@, bits, bits_left, c, cl, cv, bits | ((cv as u64) << ((bits_left - cl) as u8)));
        } @*/
        let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };

        bits |= (*code as u64) << (bits_left - code_len);
        bits_left -= code_len;

        while bits_left <= 32
        /*@ invariant bits_left <= 40, writing(src@.take(it_.index@ + 1), old(dst)@, dst@, bits, bits_left as int)
            decreases 40 - bits_left @*/
        {
            /*@ proof { if bits_left <= 32 { lemma_drain(src@.take(it_.index@ + 1), old(dst)@, dst@, bits, bits_left, (bits >> 32) as u8, bits << 8); } } @*/
            dst.push((bits >> 32) as u8);

            bits <<= 8;
            bits_left += 8;
        }
    }

    /*@ proof { assert(src@.take(src@.len() as int) =~= src@);
        lemma_holds(bits, bits_left as u64);
        assert(1u64 << bits_left == 1u64 << (bits_left as u64)) by(bit_vector);
        if bits_left == 40 { lemma_full(src@, old(dst)@, dst@, bits); }
        else { let nb = bits | sub(1u64 << bits_left, 1); lemma_fill(src@, old(dst)@, dst@, bits, bits_left, nb, (nb >> 32) as u8); } } @*/
    if bits_left != 40 {
        bits |= (1 << bits_left) - 1;
        dst.push((bits >> 32) as u8);
    }

    Ok(())
}
