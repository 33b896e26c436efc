/*@@ broadcast use group_floats; @@*/
use super::primitives::*;

#[derive(Debug)]
pub enum DecoderLit {

    Bytes(Vec<u8>),

    Bool(Vec<u8>),

    BoolVec(Vec<u8>),

    Int32(Vec<u8>),

    Int32Vec(Vec<u8>),

    Int64(Vec<u8>),

    Int64Vec(Vec<u8>),

    UInt32(Vec<u8>),

    UInt32Vec(Vec<u8>),

    UInt64(Vec<u8>),

    UInt64Vec(Vec<u8>),

    Float(Vec<u8>),

    FloatVec(Vec<u8>),

    Double(Vec<u8>),

    DoubleVec(Vec<u8>),

    SInt32(Vec<u8>),

    SInt32Vec(Vec<u8>),

    SInt64(Vec<u8>),

    SInt64Vec(Vec<u8>),

    Fixed32(Vec<u8>),

    Fixed32Vec(Vec<u8>),

    Fixed64(Vec<u8>),

    Fixed64Vec(Vec<u8>),

    SFixed32(Vec<u8>),

    SFixed32Vec(Vec<u8>),

    SFixed64(Vec<u8>),

    SFixed64Vec(Vec<u8>),
}

impl From<DecoderLit> for bool {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Bool(b) => d_bool(b@), _ => None }) { Some((v, _)) => ret == v, None => ret == false } @*/
    {
        let mut dst = false;
        match lit {
            DecoderLit::Bool(byt) => decode_bool(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<bool> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::BoolVec(b) => pdec(df_bool(), b@), _ => None }) { Some(v) => ret@ == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::BoolVec(byt) => decode_bool_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for i32 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Int32(b) => d_int32(b@), DecoderLit::SInt32(b) => d_sint32(b@), DecoderLit::SFixed32(b) => d_sfixed32(b@), _ => None }) { Some((v, _)) => ret == v, None => ret == 0 } @*/
    {
        let mut dst = 0i32;
        match lit {
            DecoderLit::Int32(byt) => decode_int32(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SInt32(byt) => decode_sint32(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SFixed32(byt) => decode_sfixed32(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<i32> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Int32Vec(b) => pdec(df_int32(), b@), DecoderLit::SInt32Vec(b) => pdec(df_sint32(), b@), DecoderLit::SFixed32Vec(b) => pdec(df_sfixed32(), b@), _ => None }) { Some(v) => ret@ == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::Int32Vec(byt) => decode_int32_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SInt32Vec(byt) => decode_sint32_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SFixed32Vec(byt) => decode_sfixed32_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for i64 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Int64(b) => d_int64(b@), DecoderLit::SInt64(b) => d_sint64(b@), DecoderLit::SFixed64(b) => d_sfixed64(b@), _ => None }) { Some((v, _)) => ret == v, None => ret == 0 } @*/
    {
        let mut dst = 0i64;
        match lit {
            DecoderLit::Int64(byt) => decode_int64(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SInt64(byt) => decode_sint64(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SFixed64(byt) => decode_sfixed64(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<i64> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Int64Vec(b) => pdec(df_int64(), b@), DecoderLit::SInt64Vec(b) => pdec(df_sint64(), b@), DecoderLit::SFixed64Vec(b) => pdec(df_sfixed64(), b@), _ => None }) { Some(v) => ret@ == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::Int64Vec(byt) => decode_int64_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SInt64Vec(byt) => decode_sint64_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::SFixed64Vec(byt) => decode_sfixed64_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for u32 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::UInt32(b) => d_uint32(b@), DecoderLit::Fixed32(b) => d_fixed32(b@), _ => None }) { Some((v, _)) => ret == v, None => ret == 0 } @*/
    {
        let mut dst = 0u32;
        match lit {
            DecoderLit::UInt32(byt) => decode_uint32(&byt, &mut dst).unwrap_or(0),
            DecoderLit::Fixed32(byt) => decode_fixed32(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<u32> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::UInt32Vec(b) => pdec(df_uint32(), b@), DecoderLit::Fixed32Vec(b) => pdec(df_fixed32(), b@), _ => None }) { Some(v) => ret@ == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::UInt32Vec(byt) => decode_uint32_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::Fixed32Vec(byt) => decode_fixed32_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for u64 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::UInt64(b) => d_uint64(b@), DecoderLit::Fixed64(b) => d_fixed64(b@), _ => None }) { Some((v, _)) => ret == v, None => ret == 0 } @*/
    {
        let mut dst = 0u64;
        match lit {
            DecoderLit::UInt64(byt) => decode_uint64(&byt, &mut dst).unwrap_or(0),
            DecoderLit::Fixed64(byt) => decode_fixed64(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<u64> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::UInt64Vec(b) => pdec(df_uint64(), b@), DecoderLit::Fixed64Vec(b) => pdec(df_fixed64(), b@), _ => None }) { Some(v) => ret@ == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::UInt64Vec(byt) => decode_uint64_vec(&byt, &mut dst).unwrap_or(0),
            DecoderLit::Fixed64Vec(byt) => decode_fixed64_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for f32 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Float(b) => d_float(b@), _ => None }) { Some((v, _)) => f32_bits(ret) == v, None => ret == 0.0f32 } @*/
    {
        let mut dst = 0.0f32;
        match lit {
            DecoderLit::Float(byt) => decode_float(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<f32> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::FloatVec(b) => pdec(df_float(), b@), _ => None }) { Some(v) => bits32(ret@) == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::FloatVec(byt) => decode_float_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for f64 {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::Double(b) => d_double(b@), _ => None }) { Some((v, _)) => f64_bits(ret) == v, None => ret == 0.0f64 } @*/
    {
        let mut dst = 0.0f64;
        match lit {
            DecoderLit::Double(byt) => decode_double(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<f64> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures match (match lit { DecoderLit::DoubleVec(b) => pdec(df_double(), b@), _ => None }) { Some(v) => bits64(ret@) == v, None => ret@.len() == 0 } @*/
    {
        let mut dst = vec![];
        match lit {
            DecoderLit::DoubleVec(byt) => decode_double_vec(&byt, &mut dst).unwrap_or(0),
            _ => return dst,
        };
        dst
    }
}

impl From<DecoderLit> for Vec<u8> {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures ret@ == (match lit { DecoderLit::Bytes(b) => b@, _ => Seq::empty() }) @*/
    {
        match lit {
            DecoderLit::Bytes(byt) => byt,
            _ => Vec::new(),
        }
    }
}

impl From<DecoderLit> for String {
    fn from(lit: DecoderLit) -> Self 
    /*@ ensures ret@ == (match lit { DecoderLit::Bytes(b) if vstd::utf8::valid_utf8(b@) => vstd::utf8::decode_utf8(b@), _ => Seq::empty() }) @*/
    {
        match lit {
            DecoderLit::Bytes(byt) => {
                match String::from_utf8(byt) {
                    Ok(s) => s,
                    _ => String::new(),
                }
            },
            _ => String::new(),
        }
    }
}
