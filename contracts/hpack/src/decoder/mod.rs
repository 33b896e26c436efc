/*@@
impl<'a> Decoder<'a> {
    pub closed spec fn tv(&self) -> TV { self.table.tv() }
    pub closed spec fn wf(&self) -> bool { self.table.wf() }
    pub closed spec fn limit(&self) -> int { self.max_dynamic_size as int }
}
broadcast use {lemma_vec_short, crate::httlib_hpack::table::lemma_table_wf, lemma_fields_push, lemma_fields_cat, lemma_fields_empty, lemma_running_end, lemma_run_none, group_bits};
@@*/
mod error;
mod primitives;

pub use error::*;
use primitives::*;
pub use httlib_huffman::DecoderSpeed;
use super::Table;

#[derive(Debug)]
pub struct Decoder<'a> {

    speed: DecoderSpeed,

    max_dynamic_size: u32,

    table: Table<'a>,
}

impl<'a> Decoder<'a> {

    pub const WITH_INDEXING: u8 = 0x4;

    pub const NEVER_INDEXED: u8 = 0x8;

    pub fn with_dynamic_size(max_dynamic_size: u32) -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }), ret.limit() == max_dynamic_size @*/
    {
        Self {
            speed: DecoderSpeed::FiveBits,
            max_dynamic_size,
            table: Table::with_dynamic_size(max_dynamic_size),
        }
    }

    pub fn max_dynamic_size(&self) -> u32
    /*@ ensures ret == self.limit() @*/
    {
        self.max_dynamic_size
    }

    pub fn set_max_dynamic_size(&mut self, size: u32)
    /*@ ensures final(self).limit() == size, final(self).tv() == old(self).tv(), old(self).wf() ==> final(self).wf() @*/
    {
        self.max_dynamic_size = size;
    }

    pub fn decode(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> Result<usize, DecoderError>
    /*@ requires old(self).wf()
        ensures final(self).wf(), final(self).limit() == old(self).limit(), run_post(run_all(old(self).tv(), old(self).limit(), old(buf)@), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) @*/
    {
        let mut total = 0;
        /*@ let ghost (t0, b0, d0) = (self.tv(), buf@, fields(dst@));
        proof { lemma_run_start(run_all(t0, self.limit(), b0), b0, d0, d0); } @*/
        loop
        /*@ invariant self.wf(), self.limit() == old(self).limit(), t0 == old(self).tv(), b0 == old(buf)@, d0 == fields(old(dst)@),
                running(run_all(t0, self.limit(), b0), b0, d0, run_all(self.tv(), self.limit(), buf@), buf@, fields(dst@), total as int)
            decreases buf@.len() @*/
        {
            /*@ let ghost (t1, b1, d1, n1) = (self.tv(), buf@, fields(dst@), total as int);
            proof {
                lemma_run_all(t1, self.limit(), b1); assert(b1.skip(0) =~= b1);
                if b1.len() > 0 { assert(Seq::<Field>::empty() + run(t1, self.limit(), b1, 1).out =~= run(t1, self.limit(), b1, 1).out); }
            } @*/
            if buf.is_empty() {
                return Ok(total);
            }

            let mut data = Vec::with_capacity(1);
            total += self.decode_exact(buf, &mut data)?;
            dst.append(&mut data);
            /*@ proof { lemma_running(run_all(t0, self.limit(), b0), b0, d0, run_all(t1, self.limit(), b1), b1, d1, n1, step(t1, self.limit(), b1), run_all(self.tv(), self.limit(), buf@), buf@, fields(dst@)); } @*/
        }
    }

    pub fn decode_exact(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> Result<usize, DecoderError>
    /*@ requires old(self).wf()
        ensures final(self).wf(), final(self).limit() == old(self).limit(), run_post(run(old(self).tv(), old(self).limit(), old(buf)@, vec_capacity(*old(dst)) as int), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) @*/
    {
        let mut total = 0;
        let mut limit = dst.capacity();
        /*@ let ghost (t0, b0, d0, c0) = (self.tv(), buf@, fields(dst@), limit as int);
        proof { lemma_run_start(run(t0, self.limit(), b0, c0), b0, d0, d0); } @*/
        loop
        /*@ invariant self.wf(), self.limit() == old(self).limit(), t0 == old(self).tv(), b0 == old(buf)@, d0 == fields(old(dst)@), c0 == vec_capacity(*old(dst)),
                running(run(t0, self.limit(), b0, c0), b0, d0, run(self.tv(), self.limit(), buf@, limit as int), buf@, fields(dst@), total as int)
            decreases buf@.len() @*/
        {
            /*@ let ghost (t1, b1, d1, l1, n1) = (self.tv(), buf@, fields(dst@), limit as int, total as int);
            proof {
                if b1.len() > 0 { lemma_patterns(b1[0]); lemma_step(t1, self.limit(), b1); }
                if b1.len() == 0 || l1 == 0 || step(t1, self.limit(), b1) is Stop { lemma_running_end(run(t0, self.limit(), b0, c0), b0, d0, run(t1, self.limit(), b1, l1), b1, d1, n1); }
            } @*/
            if buf.is_empty() || limit == 0 {
                return Ok(total);
            } else {
                limit -= 1;
            }

            let octet = buf[0];
            if octet & 128 == 128 {
                total += self.decode_indexed(buf, dst)?;
            } else if octet & 64 == 64 {
                total += self.decode_literal(buf, dst)?;
            } else if octet & 32 == 32 {
                total += self.update_max_dynamic_size(buf)?;
            } else if octet & 16 == 16 {
                total += self.decode_literal(buf, dst)?;
            } else {
                total += self.decode_literal(buf, dst)?;
            }
            /*@ proof { lemma_running(run(t0, self.limit(), b0, c0), b0, d0, run(t1, self.limit(), b1, l1), b1, d1, n1, step(t1, self.limit(), b1), run(self.tv(), self.limit(), buf@, limit as int), buf@, fields(dst@)); } @*/
        }
    }

    fn decode_indexed(
        &self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> Result<usize, DecoderError>
    /*@ requires self.wf(), old(buf)@.len() > 0
        ensures step_post(dec_index(self.tv(), old(buf)@), self.tv(), old(buf)@, fields(old(dst)@), self.tv(), final(buf)@, fields(final(dst)@), ret) @*/
    {
        let mut index = 0;
        let total = decode_integer(buf, &mut index, 7)?;

        let (name, value) = match self.table.get(index) {
            Some(field) => field,
            None => return Err(DecoderError::InvalidIndex),
        };
        dst.push((name.to_vec(), value.to_vec(), 0x0));

        buf.drain(0..total);
        Ok(total)
    }

    fn decode_literal(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> Result<usize, DecoderError>
    /*@ requires old(self).wf(), old(buf)@.len() > 0, old(buf)@[0] < 0x20 || 0x40 <= old(buf)@[0] < 0x80
        ensures final(self).wf(), final(self).limit() == old(self).limit(), step_post(step(old(self).tv(), old(self).limit(), old(buf)@), old(self).tv(), old(buf)@, fields(old(dst)@), final(self).tv(), final(buf)@, fields(final(dst)@), ret) @*/
    {
        let mut total = 0;
        let octet = buf[0];
        /*@ proof { lemma_patterns(octet); assert(buf@.skip(0) =~= buf@); lemma_int_dec(buf@, 4); lemma_int_dec(buf@, 6); } @*/

        let prefix = if octet & 64 == 64 {
            6
        } else {
            4
        };

        let mut index = 0;
        total += decode_integer(&buf[total..], &mut index, prefix)?;

        let name = if index == 0 {
            let mut name = Vec::new();
            total += decode_string(&buf[total..], self.speed, &mut name)?;
            name
        } else if let Some(h) = self.table.get(index) {
            h.0.to_vec()
        } else {
            return Err(DecoderError::InvalidIndex);
        };

        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;

        if octet & 64 == 64 {
            self.table.insert(name.clone(), value.clone());
            dst.push((name, value, 0x4));
        } else  if octet & 16 == 16 {
            dst.push((name, value, 0x8));
        } else {
            dst.push((name, value, 0x0));
        }

        buf.drain(0..total);
        Ok(total)
    }

    fn update_max_dynamic_size(
        &mut self,
        buf: &mut Vec<u8>,
    ) -> Result<usize, DecoderError>
    /*@ requires old(self).wf(), old(buf)@.len() > 0
        ensures final(self).wf(), final(self).limit() == old(self).limit(), step_post(dec_size(old(self).tv(), old(self).limit(), old(buf)@), old(self).tv(), old(buf)@, Seq::empty(), final(self).tv(), final(buf)@, Seq::empty(), ret) @*/
    {
        let mut new_size = 0;
        let total = decode_integer(buf, &mut new_size, 5)?;

        if new_size > self.max_dynamic_size {
            return Err(DecoderError::InvalidMaxDynamicSize)
        } else {
            self.table.update_max_dynamic_size(new_size);
        }

        buf.drain(0..total);
        Ok(total)
    }
}

impl<'a> Default for Decoder<'a> {
    fn default() -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }), ret.limit() == 4096 @*/
    {
        let table = Table::default();
        Self {
            speed: DecoderSpeed::FiveBits,
            max_dynamic_size: table.max_dynamic_size(),
            table,
        }
    }
}
