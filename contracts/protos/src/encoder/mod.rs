/*@@ broadcast use {group_write, lemma_shl29, axiom_question_mark, lemma_vec_u8_len}; use vstd::std_specs::convert::{IntoSpec, FromSpec}; @@*/
mod error;
mod lit;
mod primitives;

use std::io;
use crate::Typ;
pub use error::*;
pub use lit::*;
use primitives::*;

pub struct Encoder;

impl Encoder {

    pub const TAG_MIN: u32 = 1;

    pub const TAG_MAX: u32 = (1 << 29) - 1;

    pub fn encode<'a, W, F>(
        &self,
        field: (&u32, F),
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        F: Into<EncoderLit<'a>>,
        W: ?Sized + io::Write,
    /*@ ensures
        <F as IntoSpec<EncoderLit<'a>>>::obeys_into_spec() ==> wrote_field(*field.0, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*field.0, field.1.into_spec()), ret),
        final(dst).reliable() == old(dst).reliable() @*/
    {
        match field.1.into() {
            EncoderLit::Bool(val) => self.encode_bool(field.0, val, dst),
            EncoderLit::BoolVec(val) => self.encode_bool_vec(field.0, val, dst),
            EncoderLit::Int32(val) => self.encode_int32(field.0, val, dst),
            EncoderLit::Int32Vec(val) => self.encode_int32_vec(field.0, val, dst),
            EncoderLit::Int64(val) => self.encode_int64(field.0, val, dst),
            EncoderLit::Int64Vec(val) => self.encode_int64_vec(field.0, val, dst),
            EncoderLit::UInt32(val) => self.encode_uint32(field.0, val, dst),
            EncoderLit::UInt32Vec(val) => self.encode_uint32_vec(field.0, val, dst),
            EncoderLit::UInt64(val) => self.encode_uint64(field.0, val, dst),
            EncoderLit::UInt64Vec(val) => self.encode_uint64_vec(field.0, val, dst),
            EncoderLit::Float(val) => self.encode_float(field.0, val, dst),
            EncoderLit::FloatVec(val) => self.encode_float_vec(field.0, val, dst),
            EncoderLit::Double(val) => self.encode_double(field.0, val, dst),
            EncoderLit::DoubleVec(val) => self.encode_double_vec(field.0, val, dst),
            EncoderLit::SInt32(val) => self.encode_sint32(field.0, val, dst),
            EncoderLit::SInt32Vec(val) => self.encode_sint32_vec(field.0, val, dst),
            EncoderLit::SInt64(val) => self.encode_sint64(field.0, val, dst),
            EncoderLit::SInt64Vec(val) => self.encode_sint64_vec(field.0, val, dst),
            EncoderLit::Fixed32(val) => self.encode_fixed32(field.0, val, dst),
            EncoderLit::Fixed32Vec(val) => self.encode_fixed32_vec(field.0, val, dst),
            EncoderLit::Fixed64(val) => self.encode_fixed64(field.0, val, dst),
            EncoderLit::Fixed64Vec(val) => self.encode_fixed64_vec(field.0, val, dst),
            EncoderLit::SFixed32(val) => self.encode_sfixed32(field.0, val, dst),
            EncoderLit::SFixed32Vec(val) => self.encode_sfixed32_vec(field.0, val, dst),
            EncoderLit::SFixed64(val) => self.encode_sfixed64(field.0, val, dst),
            EncoderLit::SFixed64Vec(val) => self.encode_sfixed64_vec(field.0, val, dst),
            EncoderLit::Bytes(val) => self.encode_bytes(field.0, val, dst),
        }
    }

    pub fn encode_bool<W>(
        &self,
        tag: &u32,
        val: &bool,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Bool(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_bool(*val, dst)?;
        Ok(size)
    }

    pub fn encode_bool_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<bool>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::BoolVec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_bool(), vals@.take(it_.index@)) @*/ {
            encode_bool(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_bool(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        let mut size = 0;
        size += encode_key(*tag, Typ::LengthDelimited, dst)?;
        size += encode_bytes(data, dst)?;
        Ok(size)
    }

    pub fn encode_int32<W>(
        &self,
        tag: &u32,
        val: &i32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Int32(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_int32(*val, dst)?;
        Ok(size)
    }

    pub fn encode_int32_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Int32Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_int32(), vals@.take(it_.index@)) @*/ {
            encode_int32(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_int32(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_int64<W>(
        &self,
        tag: &u32,
        val: &i64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Int64(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_int64(*val, dst)?;
        Ok(size)
    }

    pub fn encode_int64_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Int64Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_int64(), vals@.take(it_.index@)) @*/ {
            encode_int64(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_int64(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_uint32<W>(
        &self,
        tag: &u32,
        val: &u32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::UInt32(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_uint32(*val, dst)?;
        Ok(size)
    }

    pub fn encode_uint32_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<u32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::UInt32Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_uint32(), vals@.take(it_.index@)) @*/ {
            encode_uint32(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_uint32(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_uint64<W>(
        &self,
        tag: &u32,
        val: &u64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::UInt64(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_uint64(*val, dst)?;
        Ok(size)
    }

    pub fn encode_uint64_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<u64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::UInt64Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_uint64(), vals@.take(it_.index@)) @*/ {
            encode_uint64(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_uint64(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_float<W>(
        &self,
        tag: &u32,
        val: &f32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Float(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit32, dst)?;
        size += encode_float(*val, dst)?;
        Ok(size)
    }

    pub fn encode_float_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<f32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::FloatVec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_float(), vals@.take(it_.index@)) @*/ {
            encode_float(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_float(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_double<W>(
        &self,
        tag: &u32,
        val: &f64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Double(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit64, dst)?;
        size += encode_double(*val, dst)?;
        Ok(size)
    }

    pub fn encode_double_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<f64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::DoubleVec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_double(), vals@.take(it_.index@)) @*/ {
            encode_double(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_double(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_bytes<W>(
        &self,
        tag: &u32,
        val: &Vec<u8>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Bytes(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::LengthDelimited, dst)?;
        size += encode_bytes(val.clone(), dst)?;
        Ok(size)
    }

    pub fn encode_sint32<W>(
        &self,
        tag: &u32,
        val: &i32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SInt32(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_sint32(*val, dst)?;
        Ok(size)
    }

    pub fn encode_sint32_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SInt32Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_sint32(), vals@.take(it_.index@)) @*/ {
            encode_sint32(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_sint32(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_sint64<W>(
        &self,
        tag: &u32,
        val: &i64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SInt64(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_sint64(*val, dst)?;
        Ok(size)
    }

    pub fn encode_sint64_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SInt64Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_sint64(), vals@.take(it_.index@)) @*/ {
            encode_sint64(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_sint64(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_fixed32<W>(
        &self,
        tag: &u32,
        val: &u32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Fixed32(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit32, dst)?;
        size += encode_fixed32(*val, dst)?;
        Ok(size)
    }

    pub fn encode_fixed32_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<u32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Fixed32Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_fixed32(), vals@.take(it_.index@)) @*/ {
            encode_fixed32(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_fixed32(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_fixed64<W>(
        &self,
        tag: &u32,
        val: &u64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Fixed64(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit64, dst)?;
        size += encode_fixed64(*val, dst)?;
        Ok(size)
    }

    pub fn encode_fixed64_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<u64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::Fixed64Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_fixed64(), vals@.take(it_.index@)) @*/ {
            encode_fixed64(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_fixed64(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_sfixed32<W>(
        &self,
        tag: &u32,
        val: &i32,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SFixed32(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit32, dst)?;
        size += encode_sfixed32(*val, dst)?;
        Ok(size)
    }

    pub fn encode_sfixed32_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i32>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SFixed32Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_sfixed32(), vals@.take(it_.index@)) @*/ {
            encode_sfixed32(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_sfixed32(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }

    pub fn encode_sfixed64<W>(
        &self,
        tag: &u32,
        val: &i64,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SFixed64(val)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut size = 0;
        size += encode_key(*tag, Typ::Bit64, dst)?;
        size += encode_sfixed64(*val, dst)?;
        Ok(size)
    }

    pub fn encode_sfixed64_vec<W>(
        &self,
        tag: &u32,
        vals: &Vec<i64>,
        dst: &mut W,
    ) -> Result<usize, EncoderError>
    where
        W: ?Sized + io::Write,
    /*@ ensures wrote_field(*tag, old(dst).out(), old(dst).reliable(), final(dst).out(), field_enc(*tag, EncoderLit::SFixed64Vec(vals)), ret), final(dst).reliable() == old(dst).reliable() @*/
    {
        let mut data = vec![];
        for val in /*@ it_: @*/ vals /*@ invariant data@ == penc(ef_sfixed64(), vals@.take(it_.index@)) @*/ {
            encode_sfixed64(*val, &mut data)?;
            /*@ proof { lemma_penc_step(ef_sfixed64(), vals@, it_.index@); } @*/
        } /*@ proof { assert(vals@.take(vals@.len() as int) =~= vals@); } @*/
        self.encode_bytes(tag, &data, dst)
    }
}

impl Default for Encoder {
    fn default() -> Self {
        Self {}
    }
}
