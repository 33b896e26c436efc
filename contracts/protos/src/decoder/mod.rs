/*@@
broadcast use {lemma_vec_u8_len, lemma_fields_push, lemma_step_go};
impl Decoder {
    // The state of a decoder.
    pub closed spec fn st(&self) -> DSt { DSt { tag: self.key.0, typ: self.key.1, ld: self.ld_len } }
}
@@*/
mod error;
mod lit;
mod primitives;

use crate::Typ;
pub use error::*;
pub use lit::*;
use primitives::*;

pub struct Decoder {

    key: (u32, Typ),

    ld_len: Option<u64>,
}

impl Decoder {

    pub fn decode(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError>
    /*@ requires dst_ok(old(self).st())
        ensures dst_ok(final(self).st()), run_post(run(old(self).st(), old(buf)@), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        let mut total = 0;
        /*@ proof { lemma_run_start(self.st(), buf@, fields_of(dst@)); } @*/
        loop
        /*@ invariant dst_ok(self.st()), total + buf@.len() == old(buf)@.len(),
                run_state(run(old(self).st(), old(buf)@), fields_of(old(dst)@), self.st(), buf@, fields_of(dst@)),
            ensures step(self.st(), buf@) is More
            decreases measure(self.st(), buf@) @*/
        {
            /*@ proof { lemma_run_step(run(old(self).st(), old(buf)@), fields_of(old(dst)@), self.st(), buf@, fields_of(dst@)); } @*/
            let mut _size = 0;
            let fields = dst.len();
            match self.key.1 {
                Typ::Unknown => {
                    _size = self.decode_key(buf)?;
                },
                Typ::Varint => {
                    _size = self.extract_varint(buf, dst)?;
                },
                Typ::Bit32 => {
                    _size = self.extract_bit32(buf, dst)?;
                },
                Typ::Bit64 => {
                    _size = self.extract_bit64(buf, dst)?;
                },
                Typ::LengthDelimited => {
                    _size = self.extract_ld(buf, dst)?;
                },
            }
            if _size == 0 && dst.len() == fields {
                break;
            }
            total += _size;
        }
        /*@ proof { lemma_run_step(run(old(self).st(), old(buf)@), fields_of(old(dst)@), self.st(), buf@, fields_of(dst@)); } @*/
        Ok(total)
    }

    fn decode_key(&mut self, buf: &mut Vec<u8>) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::Unknown, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, Seq::empty(), final(self).st(), final(buf)@, Seq::empty(), ret) @*/
    {
        let size = match decode_key(&buf, &mut self.key) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        buf.drain(..size);
        Ok(size)
    }

    fn extract_varint(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::Varint, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        let mut bytes = vec![];
        let size = match extract_varint(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
    }

    fn extract_bit32(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::Bit32, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        let mut bytes = vec![];
        let size = match extract_bit32(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
    }

    fn extract_bit64(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::Bit64, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        let mut bytes = vec![];
        let size = match extract_bit64(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
    }

    fn extract_ld(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::LengthDelimited, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        if self.ld_len.is_some() {
            self.extract_ld_bytes(buf, dst)
        } else {
            self.decode_ld_len(buf)
        }
    }

    fn decode_ld_len(
        &mut self,
        buf: &mut Vec<u8>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::LengthDelimited, old(self).st().ld is None, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, Seq::empty(), final(self).st(), final(buf)@, Seq::empty(), ret) @*/
    {
        let mut val = 0;
        let size = match decode_varint(&buf, &mut val) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        self.ld_len = Some(val);
        buf.drain(..size);
        Ok(size)
    }

    fn extract_ld_bytes(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> 
    /*@ requires old(self).st().typ == Typ::LengthDelimited, old(self).st().ld is Some, dst_ok(old(self).st()) ensures step_post(old(self).st(), old(buf)@, fields_of(old(dst)@), final(self).st(), final(buf)@, fields_of(final(dst)@), ret) @*/
    {
        let len = self.ld_len.unwrap();
        let mut bytes = vec![];
        let size = match extract_ld(&buf, len, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
    }

    fn reset(&mut self)
    /*@ ensures final(self).st() == idle() @*/
    {
        self.key = (0, Typ::Unknown);
        self.ld_len = None;
    }
}

impl<'a> Default for Decoder {
    fn default() -> Self
    /*@ ensures ret.st() == idle() @*/
    {
        Self {
            key: (0, Typ::Unknown),
            ld_len: None,
        }
    }
}
