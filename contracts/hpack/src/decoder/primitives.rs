/*@@ broadcast use {axiom_question_mark, lemma_vec_short, group_bits}; @@*/
use super::*;

pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Result<usize, DecoderError>
/*@ requires 1 <= prefix_size <= 8
    ensures match int_dec(buf@, prefix_size as int) {
        IntR::Val(v, u) => ret == Ok::<usize, DecoderError>(u as usize) && *final(dst) == v && 0 < u <= buf@.len() && u <= 5 && 0 <= v <= u32::MAX,
        IntR::Short => ret == Err::<usize, DecoderError>(DecoderError::IntegerUnderflow),
        IntR::Long => ret == Err::<usize, DecoderError>(DecoderError::IntegerOverflow),
    } @*/
{
    /*@ proof { lemma_prefix(prefix_size, 0); lemma_prefix_forms(prefix_size); if buf@.len() > 0 { lemma_low(prefix_size, buf@[0]); } } @*/
    if prefix_size < 1 || prefix_size > 8 {
        return Err(DecoderError::InvalidPrefix);
    }

    let mut total = 0;
    let byte = if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    } else {
        total += 1;
        buf[total - 1]
    };

    let mask = ((1 << prefix_size) - 1) as u8;
    let mut value = (byte & mask) as u32;
    if value < (mask as u32) {
        *dst = value;
        return Ok(total);
    }

    /*@ proof { lemma_pow_shifts(); } @*/
    let mut shift = 0;
    loop
    /*@ invariant 1 <= total <= 4, total <= buf@.len(), shift == 7 * (total - 1), 0 <= value < 256 + pow2i(shift as int), int_dec(buf@, prefix_size as int) == int_more(buf@, total as int, value as int, pow2i(shift as int))
        decreases 5 - total
        at_break 0 < total <= 5, total <= buf@.len(), int_dec(buf@, prefix_size as int) == IntR::Val(value as int, total as int) @*/
    {
        let byte = if total >= buf.len() {
            return Err(DecoderError::IntegerUnderflow);
        } else {
            total += 1;
            buf[total - 1]
        };

        /*@ proof { lemma_dec_group(byte, shift as int); lemma_octet_forms(byte, shift as int); } @*/
        value += ((byte & 0b01111111) as u32) << shift;
        shift += 7;

        if byte & 0b10000000 == 0 {
            *dst = value;
            return Ok(total);
        } else if total == 5 {
            return Err(DecoderError::IntegerOverflow);
        }
    }
}

pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError>
/*@ ensures match str_dec(buf@) {
        StrR::Val(s, u) => ret == Ok::<usize, DecoderError>(u as usize) && final(dst)@ == old(dst)@ + s && 0 < u <= buf@.len(),
        StrR::Short => ret == Err::<usize, DecoderError>(DecoderError::IntegerUnderflow),
        StrR::Long => ret == Err::<usize, DecoderError>(DecoderError::IntegerOverflow),
        StrR::Bad => ret == Err::<usize, DecoderError>(DecoderError::InvalidInput),
    } @*/
{
    /*@ proof { lemma_read_any(dst@); if buf@.len() > 0 { lemma_patterns(buf[0]); } lemma_int_dec(buf@, 7); } @*/
    if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    }
    let huffman = buf[0] & 128 == 128;

    let mut len = 0;
    let mut total = decode_integer(buf, &mut len, 7)?;

    if len as usize > buf.len() - total {
        return Err(DecoderError::IntegerUnderflow);
    }

    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();
    total += len as usize;
    if huffman {
        httlib_huffman::decode(&buf, dst, speed)?;
    } else {
        dst.append(&mut buf);
    }

    Ok(total)
}
