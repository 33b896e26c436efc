/*@@ broadcast use {lemma_vec_short, lemma_assoc, group_bits}; @@*/
use super::*;

pub(crate) fn encode_integer(
    value: u32,
    flags: u8,
    prefix_size: u8,
    dst: &mut Vec<u8>,
) -> Result<(), EncoderError>
/*@ ensures 1 <= prefix_size <= 8 ==> ret is Ok && final(dst)@ == old(dst)@ + int_enc(value as int, flags, prefix_size as int),
        !(1 <= prefix_size <= 8) ==> ret is Err && final(dst)@ == old(dst)@ @*/
{
    /*@ broadcast use lemma_push_one;
    let ghost (v0, f0) = (value as int, flags);
    proof { lemma_prefix(prefix_size, flags); if 1 <= prefix_size <= 8 { lemma_prefix_forms(prefix_size); } } @*/
    if prefix_size < 1 || prefix_size > 8 {
        return Err(EncoderError::InvalidPrefix);
    }

    let mask = ((1 << prefix_size) - 1) as u8;
    let flags = flags & 255 - mask as u8;

    if value < mask as u32 {
        dst.push(flags | value as u8);
        return Ok(());
    }

    let mut value = value - mask as u32;
    dst.push(flags | mask as u8);
    while value >= 128
    /*@ invariant dst@ + tail7(value as int) == old(dst)@ + int_enc(v0, f0, prefix_size as int) decreases value @*/
    {
        /*@ proof { lemma_group_forms(value); if value >= 128 { lemma_group(value, dst@); } } @*/
        dst.push(0b10000000 | value as u8);
        value >>= 7;
    }
    dst.push(value as u8);
    Ok(())
}

pub(crate) fn encode_string(
    data: Vec<u8>,
    huffman: bool,
    dst: &mut Vec<u8>,
) -> Result<(), EncoderError>
/*@ ensures ret is Ok ==> final(dst)@ == old(dst)@ + str_enc(data@, huffman), ret is Err ==> raw(data@, huffman).len() > u32::MAX && final(dst)@ == old(dst)@ && ret == Err::<(), EncoderError>(EncoderError::IntegerOverflow) @*/
{
    /*@ proof { lemma_raw_all(data@); } @*/
    let (flags, bytes) = if huffman {
        let mut dst = Vec::new();
        httlib_huffman::encode(&data, &mut dst)?;
        (0x80, dst)
    } else {
        (0, data.to_vec())
    };

    /*@ proof { assert(bytes@ =~= raw(data@, huffman)); } @*/
    let len = bytes.len();
    if len > u32::MAX as usize {
        return Err(EncoderError::IntegerOverflow);
    }

    encode_integer(len as u32, flags, 7, dst)?;
    dst.append(&mut bytes.to_vec());

    return Ok(());
}
