/*@@
impl<'a> Encoder<'a> {
    pub closed spec fn tv(&self) -> TV { self.table.tv() }
    pub closed spec fn wf(&self) -> bool { self.table.wf() }
}
broadcast use {lemma_vec_short, crate::httlib_hpack::table::lemma_table_wf, lemma_short_table, lemma_assoc, group_bits};
@@*/
mod error;
mod input;
mod primitives;

pub use error::*;
pub use input::*;
use primitives::*;
use crate::table::Table;

#[derive(Debug)]
pub struct Encoder<'a> {

    table: Table<'a>,
}

impl<'a> Encoder<'a> {

    pub const HUFFMAN_NAME: u8 = 0x1;

    pub const HUFFMAN_VALUE: u8 = 0x2;

    pub const WITH_INDEXING: u8 = 0x4;

    pub const NEVER_INDEXED: u8 = 0x8;

    pub const BEST_FORMAT: u8 = 0x10;

    pub fn with_dynamic_size(max_dynamic_size: u32) -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }) @*/
    {
        Self {
            table: Table::with_dynamic_size(max_dynamic_size),
        }
    }

    pub fn max_dynamic_size(&mut self) -> u32
    /*@ requires old(self).wf() ensures final(self).wf(), final(self).tv() == old(self).tv(), ret == old(self).tv().max @*/
    {
        self.table.max_dynamic_size()
    }

    pub fn encode<F>(
        &mut self,
        field: F,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError>
    where
        F: Into<EncoderInput>,
    /*@ requires old(self).wf()
        ensures final(self).wf(), exists|x: EncoderInput| (<F as IntoSpec<EncoderInput>>::obeys_into_spec() ==> x == field.into_spec()) && enc_post(old(self).tv(), #[trigger] inp(x), enc(old(self).tv(), inp(x)), old(dst)@, final(self).tv(), final(dst)@, ret) @*/
    {
        match field.into() {
            EncoderInput::Indexed(index) => {
                /*@ let ghost x = inp(EncoderInput::Indexed(index)); @*/
                self.encode_indexed(index, dst)
            },
            EncoderInput::IndexedName(index, value, flags) => {
                /*@ let ghost x = inp(EncoderInput::IndexedName(index, value, flags)); @*/
                self.encode_indexed_name(index, value, flags, dst)
            },
            EncoderInput::Literal(name, value, flags) => {
                /*@ let ghost x = inp(EncoderInput::Literal(name, value, flags));
                proof {
                    lemma_never(flags);
                    assert forall|r: Option<(int, bool)>| #[trigger] found(self.tv(), name@, value@, r) implies find(self.tv(), name@, value@) == r by { lemma_found(self.tv(), name@, value@, r); }
                } @*/
                if flags & 0x10 == 0x10 {
                    match self.table.find(&name, &value) {
                        Some((index, true)) if flags & 0xC != 0x8 => {
                            self.encode_indexed(index as u32, dst)
                        },
                        Some((index, _)) => {
                            self.encode_indexed_name(index as u32, value, flags, dst)
                        },
                        None => {
                            self.encode_literal(name, value, flags, dst)
                        },
                    }
                } else {
                    self.encode_literal(name, value, flags, dst)
                }
            },
        }
    }

    pub fn encode_indexed(
        &self,
        index: u32,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError>
    /*@ requires self.wf()
        ensures enc_post(self.tv(), Inp::Idx(index as int), enc_index(self.tv(), index as int), old(dst)@, self.tv(), final(dst)@, ret) @*/
    {

        if self.table.get(index).is_none() {
            return Err(EncoderError::InvalidIndex);
        }

        encode_integer(index, 0x80, 7, dst)
    }

    pub fn encode_indexed_name(
        &mut self,
        index: u32,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError>
    /*@ requires old(self).wf()
        ensures final(self).wf(), enc_post(old(self).tv(), Inp::Name(index as int, value@, flags), enc_name(old(self).tv(), index as int, value@, flags), old(dst)@, final(self).tv(), final(dst)@, ret) @*/
    {

        let name = if let Some(entry) = self.table.get(index) {
            entry.0.to_vec()
        } else {
            return Err(EncoderError::InvalidIndex);
        };

        if flags & 0x4 == 0x4 {
            self.table.insert(name, value.clone());
            encode_integer(index, 0x40, 6, dst)?;
        } else if flags & 0x8 == 0x8 {
            encode_integer(index, 0b00010000, 4, dst)?;
        } else {
            encode_integer(index, 0x0, 4, dst)?;
        }

        encode_string(value, flags & 0x2 == 0x2, dst)
    }

    pub fn encode_literal(
        &mut self,
        name: Vec<u8>,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError>
    /*@ requires old(self).wf()
        ensures final(self).wf(), enc_post(old(self).tv(), Inp::Lit(name@, value@, flags), enc_lit(old(self).tv(), name@, value@, flags), old(dst)@, final(self).tv(), final(dst)@, ret) @*/
    {
        /*@ proof { lemma_zero(dst@); } @*/
        if flags & 0x4 == 0x4 {
            dst.push(0x40);
            self.table.insert(name.clone(), value.clone());
        } else if flags & 0x8 == 0x8 {
            dst.push(0b00010000);
        } else {
            dst.push(0x0);
        }

        encode_string(name, flags & 0x1 == 0x1, dst)?;
        encode_string(value, flags & 0x2 == 0x2, dst)
    }

    pub fn update_max_dynamic_size(
        &mut self,
        size: u32,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError>
    /*@ requires old(self).wf()
        ensures final(self).wf(), ret is Ok, enc(old(self).tv(), Inp::Size(size as int)) == Some((final(self).tv(), final(dst)@.skip(old(dst)@.len() as int))), final(dst)@.take(old(dst)@.len() as int) == old(dst)@ @*/
    {
        self.table.update_max_dynamic_size(size);
        encode_integer(size, 0b00100000, 5, dst)
    }
}

impl<'a> Default for Encoder<'a> {
    fn default() -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) @*/
    {
        Self {
            table: Table::default(),
        }
    }
}
