/*@@ broadcast use { lemma_zz32, lemma_zz64, lemma_shl29, axiom_question_mark, lemma_vec_u8_len}; @@*/
use std::io;
pub use super::EncoderError;
use crate::{Typ, Encoder};

/*@ #[verifier::loop_isolation(false)] @*/
pub fn encode_varint<W>(
    mut val: u64,
    buf: &mut W,
) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), varint(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    let mut size = 0;
    /*@ let ghost v0 = val; let ghost l0 = varint(val).len() as int; let ghost k0 = size + l0;
    proof { assert(varint(v0) =~= varint(v0).take(0) + varint(v0)); assert(varint(v0).take(0) =~= Seq::empty()); assert(old(buf).out() + Seq::<u8>::empty() =~= old(buf).out()); lemma_varint_state(old(buf).out(), v0, val, 0); } @*/
    loop
    /*@ invariant size + varint(val).len() == k0, l0 == varint(v0).len(), varint_ready(old(buf).out(), v0, val, l0 - varint(val).len()), buf.out() == old(buf).out() + varint(v0).take(l0 - varint(val).len()), buf.reliable() == old(buf).reliable()
        decreases val
        at_break size == varint(v0).len(), buf.out() == old(buf).out() + varint(v0), buf.reliable() == old(buf).reliable() @*/
    {
        size += 1;
        if val < 0x80 {
            buf.write_all(&[val as u8 & 0x7F])?;
            return Ok(size);
        } else {
            let byte = ((val & 0x7F) | 0x80) as u8;
            buf.write_all(&[byte])?;
            val >>= 7;
        }
        /*@ proof { lemma_varint_state(old(buf).out(), v0, val, l0 - varint(val).len()); } @*/
    }
}

pub fn encode_key<W>(
    tag: u32,
    typ: Typ,
    buf: &mut W,
) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ requires typ != Typ::Unknown ensures wrote_field(tag, old(buf).out(), old(buf).reliable(), final(buf).out(), e_key(tag, typ), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    /*@ proof { lemma_key_forms(tag, typ); } @*/
    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX {
        return Err(EncoderError::InvalidTag);
    }

    let key = (tag << 3) | typ as u32;
    encode_varint(u64::from(key), buf)
}

pub fn encode_bool<W>(val: bool, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_bool(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    let res = if val { 1u64 } else { 0u64 };
    encode_varint(res, buf)
}

pub fn encode_int32<W>(val: i32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_int32(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    encode_varint(val as u64, buf)
}

pub fn encode_int64<W>(val: i64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_int64(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    encode_varint(val as u64, buf)
}

pub fn encode_uint32<W>(val: u32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_uint32(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    encode_varint(val as u64, buf)
}

pub fn encode_uint64<W>(val: u64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_uint64(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    encode_varint(val, buf)
}

pub fn encode_sint32<W>(val: i32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_sint32(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    /*@ proof { lemma_zz32_forms(val); } @*/
    let res = ((val << 1) ^ (val >> 31)) as u32 as u64;
    encode_varint(res, buf)
}

pub fn encode_sint64<W>(val: i64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_sint64(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    /*@ proof { lemma_zz64_forms(val); } @*/
    let res = ((val << 1) ^ (val >> 63)) as u64;
    encode_varint(res, buf)
}

pub fn encode_fixed32<W>(val: u32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_fixed32(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(4)
}

pub fn encode_fixed64<W>(val: u64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_fixed64(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(8)
}

pub fn encode_sfixed32<W>(val: i32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_sfixed32(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(4)
}

pub fn encode_sfixed64<W>(val: i64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_sfixed64(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(8)
}

pub fn encode_float<W>(val: f32, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_float(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(4)
}

pub fn encode_double<W>(val: f64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_double(val), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    buf.write_all(&val.to_le_bytes())?;
    Ok(8)
}

pub fn encode_bytes<W>(
    mut bytes: Vec<u8>,
    buf: &mut W,
) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
/*@ ensures wrote(old(buf).out(), old(buf).reliable(), final(buf).out(), e_bytes(bytes@), ret), final(buf).reliable() == old(buf).reliable() @*/
{
    /*@ broadcast use group_write; @*/
    let mut size = bytes.len();
    if size > u64::MAX as usize {
        return Err(EncoderError::DataOverflow);
    }
    size += encode_varint(size as u64, buf)?;
    buf.write_all(&mut bytes)?;
    Ok(size)
}
