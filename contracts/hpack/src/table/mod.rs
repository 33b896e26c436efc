/*@@
impl<'a> Table<'a> {
    pub closed spec fn tv(&self) -> TV { self.dynamic_table.tv() }
    pub closed spec fn wf(&self) -> bool { self.dynamic_table.wf() && is_static(self.static_table@) }
}
pub broadcast proof fn lemma_table_wf(t: Table)
    ensures #[trigger] t.wf() ==> fits(t.tv())
{ broadcast use crate::httlib_hpack::table::dynamic::lemma_wf; }
broadcast use {crate::httlib_hpack::table::dynamic::lemma_wf, lemma_short_table};
@@*/
mod dynamic;
mod iter;
mod r#static;

pub use iter::TableIter;
use dynamic::DynamicTable;
use r#static::{StaticTable, STATIC_TABLE};

#[derive(Debug)]
pub struct Table<'a> {

    static_table: StaticTable<'a>,

    dynamic_table: DynamicTable,
}

impl<'a> Table<'a> {

    pub fn with_dynamic_size(max_dynamic_size: u32) -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_dynamic_size as int }) @*/
    {
        Self {
            static_table: STATIC_TABLE,
            dynamic_table: DynamicTable::with_size(max_dynamic_size),
        }
    }

    pub fn len(&self) -> usize
    /*@ requires self.wf() ensures ret == 61 + self.tv().dy.len() @*/
    {
        self.static_table.len() + self.dynamic_table.len()
    }

    pub fn dynamic_len(&self) -> usize
    /*@ ensures ret == self.tv().dy.len() @*/
    {
        self.dynamic_table.len()
    }

    pub fn dynamic_size(&self) -> u32
    /*@ requires self.wf() ensures ret == dsize(self.tv().dy), ret <= self.tv().max @*/
    {
        self.dynamic_table.size()
    }

    pub fn max_dynamic_size(&self) -> u32
    /*@ ensures ret == self.tv().max @*/
    {
        self.dynamic_table.max_size()
    }

    pub fn update_max_dynamic_size(&mut self, size: u32)
    /*@ requires old(self).wf() ensures final(self).wf(), final(self).tv() == resize(old(self).tv(), size as int) @*/
    {
        self.dynamic_table.update_max_size(size);
    }

    pub fn iter(&'a self) -> TableIter<'a>
    /*@ ensures ret.index == 1, ret.table == self @*/
    {
        TableIter{ index: 1, table: &self }
    }

    pub fn get(&self, index: u32) -> Option<(&[u8], &[u8])>
    /*@ requires self.wf() ensures is_entry(self.tv(), index as int, ret) @*/
    {
        let index = if index == 0 {
            return None;
        } else {
            index - 1
        };

        let static_len = self.static_table.len() as u32;
        if index < static_len {
            Some(self.static_table[index as usize])
        } else {
            self.dynamic_table.get(index - static_len)
        }
    }

    pub fn find(&self, name: &[u8], value: &[u8]) -> Option<(usize, bool)>
    /*@ requires self.wf() ensures found(self.tv(), name@, value@, opt_index(ret)) @*/
    {
        /*@ broadcast use lemma_same_octets; @*/
        let mut name_match = None;

        for (i, h) in self.iter().enumerate()
        /*@ invariant_except_break it_.index == n_ + 1,
            invariant self.wf(), it_.table == self, n_ <= 61 + self.tv().dy.len(), searched(self.tv(), name@, value@, n_ as int, name_match)
            ensures n_ == 61 + self.tv().dy.len()
            decreases 62 + self.tv().dy.len() - n_ @*/
        {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true));
                } else if name_match.is_none() {
                    name_match = Some(i + 1);
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
    }

    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>)
    /*@ requires old(self).wf() ensures final(self).wf(), final(self).tv() == insert(old(self).tv(), name@, value@) @*/
    {
        self.dynamic_table.insert(name, value);
    }
}

impl<'a> Default for Table<'a> {
    fn default() -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) @*/
    {
        Self {
            static_table: STATIC_TABLE,
            dynamic_table: DynamicTable::default(),
        }
    }
}
