/*@@ broadcast use {lemma_shr, lemma_shl};
impl DecodeReader {
    pub closed spec fn ok(&self) -> bool { at_row(self.speed as int, self.id as int, self.tail_size as int, self.tail as int) && self.buf_size <= 16 && self.buf < pow2i(self.buf_size as int) }
    pub closed spec fn ready(&self) -> bool { self.ok() && self.buf_size < self.speed }
    pub closed spec fn fast(&self) -> int { self.speed as int }
    pub closed spec fn rest(&self) -> Seq<bool> { kept(self.tail_size as int, self.tail as int, self.buf_size as int, self.buf as int) }
    spec fn key(&self) -> int { take_key(self.speed as int, self.buf_size as int, self.buf as int) }
    spec fn entry(&self) -> (Option<u8>, Option<u16>, u8) { ent(self.speed as int, self.id as int, self.key()) }
} @@*/
use super::{DecoderError};

pub(crate) struct DecodeReader {

    speed: usize,

    id: usize,

    buf: usize,

    buf_size: usize,

    tail: usize,

    tail_size: usize,
}

impl DecodeReader {

    pub fn new(speed: usize) -> Self
    /*@ ensures 1 <= speed <= 5 ==> ret.ready() && ret.fast() == speed && ret.rest() == Seq::<bool>::empty() @*/
    {
        /*@ proof { lemma_pow2i_small(); if 1 <= speed <= 5 { lemma_root(speed as int); assert(kept(0, 0, 0, 0) =~= Seq::<bool>::empty()); } } @*/
        Self {
            speed,
            id: 0,
            buf: 0,
            buf_size: 0,
            tail: 0,
            tail_size: 0,
        }
    }

    pub fn decode(&mut self, byte: u8, dst: &mut Vec<u8>) -> Result<(), DecoderError>
    /*@ requires old(self).ready()
        ensures
            ret is Ok ==> final(self).ready() && final(self).fast() == old(self).fast() && gave(old(dst)@, final(dst)@, old(self).rest() + bits(8, byte as int), final(self).rest()),
            ret is Err ==> dead(old(self).rest() + bits(8, byte as int)) && old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@ @*/
    {
        /*@ let ghost b0 = self.rest() + bits(8, byte as int);
        proof {
            lemma_pow2i_small(); lemma_pow2i_mono(self.buf_size as int, 5); lemma_pow2i_add(self.buf_size as int, 8);
            lemma_or(self.buf, 8, byte as usize);
            lemma_bits_join(self.buf_size as int, 8, self.buf as int, byte as int);
            assert(b0 =~= kept(self.tail_size as int, self.tail as int, self.buf_size + 8, self.buf * 256 + byte));
            lemma_gave_none(dst@, b0);
        } @*/

        self.buf <<= 8;
        self.buf_size += 8;
        self.buf |= byte as usize;

        loop
        /*@ invariant b0 == old(self).rest() + bits(8, byte as int), self.ok(), self.fast() == old(self).fast(), gave(old(dst)@, dst@, b0, self.rest())
            ensures self.ready(), self.fast() == old(self).fast(), gave(old(dst)@, dst@, b0, self.rest())
            decreases self.buf_size @*/
        {
            if self.buf_size < self.speed {
                break;
            } else {
                /*@ let ghost (r1, d1, e) = (self.rest(), dst@, self.entry());
                proof { lemma_key(self.speed as int, self.buf_size as int, self.buf as int); lemma_entry(self.speed as int, self.id as int, self.key()); if e.1 == Some(256u16) { lemma_gave_eos(old(dst)@, d1, b0, r1); } } @*/
                self.decode_next(dst)?;
                /*@ proof { if e.1 is Some { lemma_gave_push(old(dst)@, d1, b0, r1, e.1.unwrap() as u8, self.rest()); } } @*/
            }
        }

        Ok(())
    }

    pub fn finalize(&mut self, dst: &mut Vec<u8>) -> Result<(), DecoderError>
    /*@ requires old(self).ready()
        ensures
            old(dst)@.len() <= final(dst)@.len() && final(dst)@.take(old(dst)@.len() as int) == old(dst)@,
            ret is Ok ==> exists|k: int| 0 <= k <= 7 && gave(old(dst)@, final(dst)@, old(self).rest(), #[trigger] ones(k)),
            ret is Err ==> fails(old(self).rest()) @*/
    {
        /*@ let ghost (sp, id, bs, b, tsz, tl) = (self.speed as int, self.id as int, self.buf_size as int, self.buf as int, self.tail_size as int, self.tail as int);
        let ghost b0 = self.rest();
        let ghost sh = if bs == 0 { 0 } else { sp - bs };
        let ghost o = dst@;
        proof {
            lemma_pow2i_small(); lemma_pow2i_mono(bs, sp); lemma_pow2i_mono(sp, 5); lemma_pow2i_add(bs, sh); lemma_pow2i_mono(0, sh);
            assert((bs + sp - 1) / sp * sp == bs + sh) by { if bs == 0 { assert((bs + sp - 1) / sp == 0) by(nonlinear_arith) requires bs == 0, sp >= 1; } else { assert((bs + sp - 1) / sp == 1) by(nonlinear_arith) requires 1 <= bs < sp; } }
            assert(b * pow2i(sh) < pow2i(bs + sh)) by(nonlinear_arith) requires b < pow2i(bs), pow2i(sh) > 0, pow2i(bs + sh) == pow2i(bs) * pow2i(sh);
            lemma_gave_none(o, b0);
            vstd::arithmetic::div_mod::lemma_div_by_multiple(b, pow2i(sh));
            lemma_bits_len(tsz, tl); lemma_bits_len(bs, b);
            lemma_entry(sp, id, 0);
            if bs > 0 {
                let l = ent(sp, id, b * pow2i(sh)).2 as int;
                lemma_entry(sp, id, b * pow2i(sh));
                lemma_key_all(sp, b * pow2i(sh));
                if sh <= l { lemma_final_eos(sp, tsz, tl, bs, b, l); }
            }
            vstd::arithmetic::div_mod::lemma_small_mod(self.buf_size as nat, self.speed as nat);
        } @*/
        let shift_len = (self.buf_size as f64 / self.speed as f64).ceil() as usize * self.speed as usize - self.buf_size;

        self.buf <<= shift_len;
        self.buf_size += shift_len;

        if self.buf_size >= self.speed {
            if let Ok((_, _, leftover)) = self.find_target(self.buf) {
                if shift_len <= leftover as usize {
                    self.decode_next(dst)?;
                }
            }
        }

        /*@ proof {
            if self.buf_size == bs + sh && self.tail_size == tsz && dst@ == o { lemma_final_stuck(sp, id, bs, b); }
            else {
                let (_, e1, e2) = ent(sp, id, b * pow2i(sh));
                let (c, l) = (e1.unwrap(), e2 as int);
                lemma_pow2i_mono(0, sp); lemma_entry(sp, self.id as int, 0);
                assert(self.rest() =~= bits(l, self.buf as int));
                lemma_final_symbol(sp, tsz, tl, bs, b, c as int, l, self.buf as int);
                lemma_gave_push(o, o, b0, b0, c as u8, bits(l - sh, self.buf as int / pow2i(sh)));
                lemma_stuck_short(l - sh, self.buf as int / pow2i(sh));
            }
        } @*/
        self.buf >>= shift_len;
        self.buf_size -= shift_len;
        /*@ proof {
            lemma_tail(self.tail_size as int, self.tail as int, self.buf_size as int, self.buf as int);
            lemma_or(self.tail, self.buf_size, self.buf);
            assert(bits(0, self.tail as int) + bits(self.buf_size as int, self.buf as int) =~= bits(self.buf_size as int, self.buf as int));
        } @*/

        self.tail <<= self.buf_size;
        self.tail_size += self.buf_size;
        self.tail |= self.buf;
        self.buf = 0;
        self.buf_size = 0;

        /*@ proof { lemma_verdict(o, dst@, b0, self.tail_size as int, self.tail as int); lemma_pow2i_usize(self.tail_size); } @*/
        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 {
            return Err(DecoderError::InvalidInput);
        }

        self.tail = 0;
        self.tail_size = 0;

        Ok(())
    }

    fn decode_next(&mut self, dst: &mut Vec<u8>) -> Result<(), DecoderError>
    /*@ requires old(self).ok(), old(self).buf_size >= old(self).speed
        ensures
            final(self).ok(), final(self).speed == old(self).speed, final(self).buf_size < old(self).buf_size,
            final(self).buf_size == old(self).buf_size - old(self).speed + old(self).entry().2,
            match old(self).entry().1 {
                Some(c) => old(self).rest() == code(c as int) + final(self).rest() && final(self).tail_size == 0 && (if c < 256 { ret is Ok && final(dst)@ == old(dst)@.push(c as u8) } else { ret is Err && c == 256 && final(dst)@ == old(dst)@ }),
                None => ret is Ok && old(self).rest() == final(self).rest() && final(dst)@ == old(dst)@,
            } @*/
    {
        /*@ let ghost (sp, id, bs, b) = (self.speed as int, self.id as int, self.buf_size as int, self.buf as int);
        let ghost e = self.entry();
        let ghost l = e.2 as int;
        proof {
            lemma_key(sp, bs, b); lemma_entry(sp, id, self.key());
            match e.1 { Some(c) => { lemma_key_symbol(sp, id, bs, b, c as int, l); lemma_root(sp); }, None => { lemma_key_row(sp, id, bs, b, e.0.unwrap() as int); } }
            lemma_pow2i_small();
            lemma_shifts(sp, bs, b, l, self.tail as int, self.tail_size as int);
            lemma_pow2i_mono(0, bs);
            assert(kept(0, 0, bs - sp + l, b % pow2i(bs - sp + l)) =~= bits(bs - sp + l, b % pow2i(bs - sp + l)));
            lemma_or(self.tail, (sp - l) as usize, (self.key() / pow2i(l)) as usize);
            lemma_low_mask(self.buf, (bs - sp + l) as usize);
        } @*/
        let key = self.buf >> self.buf_size - self.speed;
        let (next_id, ascii, leftover) = self.find_target(key)?;

        self.buf -= key >> leftover << self.buf_size - self.speed + leftover as usize;
        self.buf_size -= self.speed - leftover as usize;

        self.tail <<= self.speed - leftover as usize;
        self.tail |= key >> leftover;
        self.tail_size += self.speed - leftover as usize;

        if let Some(ascii) = ascii {
            self.id = 0;
            self.tail = 0;
            self.tail_size = 0;
            if ascii < 256 {
                dst.push(ascii as u8);
                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id) = next_id {
            self.id = next_id as usize;
            Ok(())
        } else {
            Err(DecoderError::InvalidInput)
        }
    }

    fn find_target(&self, key: usize) -> Result<(Option<u8>, Option<u16>, u8), DecoderError>
    /*@ requires 1 <= self.speed <= 5, self.id < rows(self.speed as int), key < pow2i(self.speed as int)
        ensures ret == Ok::<(Option<u8>, Option<u16>, u8), DecoderError>(ent(self.speed as int, self.id as int, key as int)) @*/
    {
        /*@ proof { lemma_pow2i_small(); reveal(ent1); reveal(ent2); reveal(ent3); reveal(ent4); reveal(ent5); } @*/
        match self.speed {
            2 => {
                match crate::decoder::table2::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            3 => {
                match crate::decoder::table3::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            4 => {
                match crate::decoder::table4::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            5 => {
                match crate::decoder::table5::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
            _ => {
                match crate::decoder::table1::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            }
        }
    }
}
