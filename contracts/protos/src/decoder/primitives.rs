/*@@ broadcast use {axiom_question_mark, lemma_vec_u8_len, lemma_and1, lemma_top_bit, lemma_low_bits, lemma_zz_shift, group_floats}; @@*/
use core::convert::TryFrom;
pub use super::DecoderError;
use crate::{Typ, Encoder};

pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError>
/*@ ensures match vdec(buf@) {
        VR::Good(v, n) => 0 < n <= buf@.len() && n <= 10 && ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v,
        VR::Underflow => ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst),
        VR::Invalid => ret is Err && ret->Err_0 != DecoderError::InputUnderflow && *final(dst) == *old(dst),
    } @*/
{
    /*@ proof { lemma_vdec_bounds(buf@, 0, 0); } @*/
    let mut value: u64 = 0;
    let mut count = 0;
    loop
    /*@ invariant 0 <= count < 10, vdec(buf@) == vdec_from(buf@, count as int, value), *dst == *old(dst) decreases 10 - count
        at_break 0 < count <= 10, count <= buf@.len(), vdec(buf@) == VR::Good(value, count as int), *dst == *old(dst) @*/
    {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };
        value |= u64::from(byte & 0x7F) << (7 * count);
        count += 1;
        if byte <= 0x7F {
            *dst = value;
            return Ok(count);
        } else if count == 10 {
            return Err(DecoderError::InvalidInput);
        }
    }
}

pub fn decode_key(
    buf: &[u8],
    dst: &mut (u32, Typ),
) -> Result<usize, DecoderError>
/*@ ensures match kdec(buf@) {
        KR::Good(tag, typ, n) => 0 < n <= buf@.len() && n <= 10 && ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == (tag, typ),
        KR::Underflow => ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst),
        KR::Invalid => ret is Err && ret->Err_0 != DecoderError::InputUnderflow && *final(dst) == *old(dst),
    } @*/
{
    let mut key = 0;
    let size = decode_varint(buf, &mut key)?;
    if key > u64::from(u32::MAX) {
        return Err(DecoderError::InvalidInput);
    }

    let typ = Typ::try_from(key & 0x07)?;
    let tag = key as u32 >> 3;
    if tag < Encoder::TAG_MIN {
        return Err(DecoderError::InvalidInput);
    } else if typ == Typ::Unknown {
        return Err(DecoderError::InvalidInput);
    }

    *dst = (tag, typ);
    Ok(size)
}

pub fn decode_bool(buf: &[u8], dst: &mut bool) -> Result<usize, DecoderError> 
/*@ ensures match d_bool(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    *dst = if val == 0u64 { false } else { true };
    Ok(size)
}

pub fn decode_bool_vec(
    buf: &[u8],
    dst: &mut Vec<bool>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_bool(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_bool(), items@, buf@); } @*/
    while total > size  || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_bool(), buf@) == pdec_join(items@, pdec(df_bool(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_bool(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = false;
        size += decode_bool(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_int32(buf: &[u8], dst: &mut i32) -> Result<usize, DecoderError> 
/*@ ensures match d_int32(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    *dst = val as i32;
    Ok(size)
}

pub fn decode_int32_vec(
    buf: &[u8],
    dst: &mut Vec<i32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_int32(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_int32(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_int32(), buf@) == pdec_join(items@, pdec(df_int32(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_int32(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_int32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_int64(buf: &[u8], dst: &mut i64) -> Result<usize, DecoderError> 
/*@ ensures match d_int64(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    *dst = val as i64;
    Ok(size)
}

pub fn decode_int64_vec(
    buf: &[u8],
    dst: &mut Vec<i64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_int64(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_int64(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_int64(), buf@) == pdec_join(items@, pdec(df_int64(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_int64(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_int64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_uint32(buf: &[u8], dst: &mut u32) -> Result<usize, DecoderError> 
/*@ ensures match d_uint32(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    *dst = val as u32;
    Ok(size)
}

pub fn decode_uint32_vec(
    buf: &[u8],
    dst: &mut Vec<u32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_uint32(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_uint32(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_uint32(), buf@) == pdec_join(items@, pdec(df_uint32(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_uint32(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_uint32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_uint64(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> 
/*@ ensures match d_uint64(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    decode_varint(buf, dst)
}

pub fn decode_uint64_vec(
    buf: &[u8],
    dst: &mut Vec<u64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_uint64(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_uint64(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_uint64(), buf@) == pdec_join(items@, pdec(df_uint64(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_uint64(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_varint(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_sint32(buf: &[u8], dst: &mut i32) -> Result<usize, DecoderError> 
/*@ ensures match d_sint32(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    /*@ proof { lemma_un_zz32_forms(val); } @*/
    *dst = ((val >> 1) as i32) ^ (-((val & 1) as i32));
    Ok(size)
}

pub fn decode_sint32_vec(
    buf: &[u8],
    dst: &mut Vec<i32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_sint32(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_sint32(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_sint32(), buf@) == pdec_join(items@, pdec(df_sint32(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_sint32(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_sint32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_sint64(buf: &[u8], dst: &mut i64) -> Result<usize, DecoderError> 
/*@ ensures match d_sint64(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    let mut val = 0;
    let size = decode_varint(buf, &mut val)?;
    /*@ proof { lemma_un_zz64_forms(val); } @*/
    *dst = ((val >> 1) as i64) ^ (-((val & 1) as i64));
    Ok(size)
}

pub fn decode_sint64_vec(
    buf: &[u8],
    dst: &mut Vec<i64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_sint64(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_sint64(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_sint64(), buf@) == pdec_join(items@, pdec(df_sint64(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_sint64(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_sint64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_fixed32(
    buf: &[u8],
    dst: &mut u32,
) -> Result<usize, DecoderError> 
/*@ ensures match d_fixed32(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = u32::from_le_bytes(bytes);
    Ok(4)
}

pub fn decode_fixed32_vec(
    buf: &[u8],
    dst: &mut Vec<u32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_fixed32(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_fixed32(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_fixed32(), buf@) == pdec_join(items@, pdec(df_fixed32(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_fixed32(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_fixed32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_fixed64(
    buf: &[u8],
    dst: &mut u64,
) -> Result<usize, DecoderError> 
/*@ ensures match d_fixed64(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 8 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 8];
    bytes.clone_from_slice(&buf[0..8]);
    *dst = u64::from_le_bytes(bytes);
    Ok(8)
}

pub fn decode_fixed64_vec(
    buf: &[u8],
    dst: &mut Vec<u64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_fixed64(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_fixed64(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_fixed64(), buf@) == pdec_join(items@, pdec(df_fixed64(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_fixed64(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_fixed64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_sfixed32(
    buf: &[u8],
    dst: &mut i32,
) -> Result<usize, DecoderError> 
/*@ ensures match d_sfixed32(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = i32::from_le_bytes(bytes);
    Ok(4)
}

pub fn decode_sfixed32_vec(
    buf: &[u8],
    dst: &mut Vec<i32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_sfixed32(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_sfixed32(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_sfixed32(), buf@) == pdec_join(items@, pdec(df_sfixed32(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_sfixed32(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_sfixed32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_sfixed64(
    buf: &[u8],
    dst: &mut i64,
) -> Result<usize, DecoderError> 
/*@ ensures match d_sfixed64(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && *final(dst) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 8 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 8];
    bytes.clone_from_slice(&buf[0..8]);
    *dst = i64::from_le_bytes(bytes);
    Ok(8)
}

pub fn decode_sfixed64_vec(
    buf: &[u8],
    dst: &mut Vec<i64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_sfixed64(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@ == old(dst)@ + s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_sfixed64(), items@, buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_sfixed64(), buf@) == pdec_join(items@, pdec(df_sfixed64(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_sfixed64(), items@, buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0;
        size += decode_sfixed64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_float(buf: &[u8], dst: &mut f32) -> Result<usize, DecoderError> 
/*@ ensures match d_float(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && f32_bits(*final(dst)) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = f32::from_le_bytes(bytes);
    Ok(4)
}

pub fn decode_float_vec(
    buf: &[u8],
    dst: &mut Vec<f32>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_float(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@.len() == old(dst)@.len() + s.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@ && bits32(final(dst)@.skip(old(dst)@.len() as int)) == s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_float(), bits32(items@), buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_float(), buf@) == pdec_join(bits32(items@), pdec(df_float(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_float(), bits32(items@), buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0.0;
        size += decode_float(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_double(buf: &[u8], dst: &mut f64) -> Result<usize, DecoderError> 
/*@ ensures match d_double(buf@) { Some((v, n)) => ret == Ok::<usize, DecoderError>(n as usize) && f64_bits(*final(dst)) == v, None => ret is Err && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 8 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 8];
    bytes.clone_from_slice(&buf[0..8]);
    *dst = f64::from_le_bytes(bytes);
    Ok(8)
}

pub fn decode_double_vec(
    buf: &[u8],
    dst: &mut Vec<f64>,
) -> Result<usize, DecoderError> 
/*@ ensures match pdec(df_double(), buf@) { Some(s) if buf@.len() > 0 => ret == Ok::<usize, DecoderError>(buf@.len() as usize) && final(dst)@.len() == old(dst)@.len() + s.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@ && bits64(final(dst)@.skip(old(dst)@.len() as int)) == s, _ => final(dst)@ == old(dst)@ && (buf@.len() > 0 ==> ret is Err) } @*/
{
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    /*@ proof { lemma_pdec_start(df_double(), bits64(items@), buf@); } @*/
    while total > size || total == 0
    /*@ invariant total == buf@.len(), size <= total, *dst == *old(dst), pdec(df_double(), buf@) == pdec_join(bits64(items@), pdec(df_double(), buf@.skip(size as int)))
        decreases total - size
        in_loop total > size || total == 0 @*/
    {
        /*@ let ghost items0 = items@; proof { lemma_pdec_step(df_double(), bits64(items@), buf@, size as int); lemma_vdec_bounds(buf@.skip(size as int), 0, 0); } @*/
        let mut val = 0.0;
        size += decode_double(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn extract_varint(
    buf: &[u8],
    dst: &mut Vec<u8>,
) -> Result<usize, DecoderError>
/*@ ensures match vdec(buf@) {
        VR::Good(v, n) => 0 < n <= buf@.len() && n <= 10 && ret == Ok::<usize, DecoderError>(n as usize) && final(dst)@ == old(dst)@ + buf@.take(n),
        VR::Underflow => ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst),
        VR::Invalid => ret is Err && ret->Err_0 != DecoderError::InputUnderflow && *final(dst) == *old(dst),
    } @*/
{
    /*@ proof { lemma_vdec_bounds(buf@, 0, 0); } @*/
    let mut bytes = vec![];
    let mut count = 0;
    /*@ let ghost mut acc = 0u64; @*/
    loop
    /*@ invariant 0 <= count < 10, count <= buf@.len(), vdec(buf@) == vdec_from(buf@, count as int, acc), bytes@ == buf@.take(count as int), *dst == *old(dst) decreases 10 - count
        at_break 0 < count <= 10, count <= buf@.len(), vdec(buf@) is Good, vdec(buf@)->Good_1 == count, bytes@ == buf@.take(count as int), *dst == *old(dst) @*/
    {
        /*@ proof { acc = acc | (((buf@[count as int] & 0x7f) as u64) << ((7 * count) as u64)); } @*/
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };
        bytes.push(byte.clone());
        count += 1;
        if byte <= 0x7F {
            dst.append(&mut bytes);
            return Ok(count);
        } else if count == 10 {
            return Err(DecoderError::InvalidInput);
        }
    }
}

pub fn extract_bit32(
    buf: &[u8],
    dst: &mut Vec<u8>,
) -> Result<usize, DecoderError>
/*@ ensures if buf@.len() >= 4 { ret == Ok::<usize, DecoderError>(4) && final(dst)@ == old(dst)@ + buf@.take(4) }
    else { ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.append(&mut buf[0..4].to_vec());
    Ok(4)
}

pub fn extract_bit64(
    buf: &[u8],
    dst: &mut Vec<u8>,
) -> Result<usize, DecoderError>
/*@ ensures if buf@.len() >= 8 { ret == Ok::<usize, DecoderError>(8) && final(dst)@ == old(dst)@ + buf@.take(8) }
    else { ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst) } @*/
{
    if buf.len() < 8 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.append(&mut buf[0..8].to_vec());
    Ok(8)
}

pub fn extract_ld(
    buf: &[u8],
    size: u64,
    dst: &mut Vec<u8>,
) -> Result<usize, DecoderError>
/*@ ensures if buf@.len() >= size { ret == Ok::<usize, DecoderError>(size as usize) && final(dst)@ == old(dst)@ + buf@.take(size as int) }
    else { ret == Err::<usize, DecoderError>(DecoderError::InputUnderflow) && *final(dst) == *old(dst) } @*/
{
    let size = size as usize;
    if buf.len() < size {
        return Err(DecoderError::InputUnderflow);
    }
    dst.append(&mut buf[0..size].to_vec());
    Ok(size)
}
