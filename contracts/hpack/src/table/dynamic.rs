/*@@
impl DynamicTable {
    pub closed spec fn tv(&self) -> TV { TV { dy: entries(self.inner@), max: self.max_size as int } }
    pub closed spec fn wf(&self) -> bool { self.size == dsize(entries(self.inner@)) && fits(self.tv()) }
}
pub broadcast proof fn lemma_wf(d: DynamicTable)
    ensures #[trigger] d.wf() ==> fits(d.tv())
{}
broadcast use {lemma_vec_short, lemma_entries_push_front, lemma_entries_drop_last, lemma_entries_len};
@@*/
use std::collections::VecDeque;

#[derive(Debug)]
pub struct DynamicTable {

    inner: VecDeque<(Vec<u8>, Vec<u8>)>,

    size: usize,

    max_size: u32,
}

impl DynamicTable {

    pub fn with_size(max_size: u32) -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: max_size as int }) @*/
    {
        /*@ proof { assert(entries(Seq::empty()) =~= Seq::empty()); } @*/
        Self {
            inner: VecDeque::new(),
            size: 0,
            max_size,
        }
    }

    pub fn len(&self) -> usize
    /*@ ensures ret == self.tv().dy.len() @*/
    {
        self.inner.len()
    }

    pub fn size(&self) -> u32
    /*@ requires self.wf() ensures ret == dsize(self.tv().dy) @*/
    {
        self.size as u32
    }

    pub fn max_size(&self) -> u32
    /*@ ensures ret == self.tv().max @*/
    {
        self.max_size
    }

    pub fn update_max_size(&mut self, size: u32)
    /*@ requires old(self).wf() ensures final(self).wf(), final(self).tv() == resize(old(self).tv(), size as int) @*/
    {
        self.max_size = size;

        self.consolidate();
    }

    pub fn get(&self, index: u32) -> Option<(&[u8], &[u8])>
    /*@ ensures match ret { Some(h) => index < self.tv().dy.len() && (h.0@, h.1@) == self.tv().dy[index as int], None => index >= self.tv().dy.len() } @*/
    {
        match self.inner.get(index as usize) {
            Some(h) => Some((&h.0, &h.1)),
            None => None,
        }
    }

    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>)
    /*@ requires old(self).wf() ensures final(self).wf(), final(self).tv() == insert(old(self).tv(), name@, value@) @*/
    {
        /*@ proof { lemma_dsize_push_front(entries(self.inner@), (name@, value@)); } @*/
        self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));

        self.consolidate();
    }

    fn consolidate(&mut self)
    /*@ requires old(self).size == dsize(entries(old(self).inner@))
        ensures final(self).wf(), final(self).tv() == (TV { dy: evict(entries(old(self).inner@), old(self).max_size as int), max: old(self).max_size as int }) @*/
    {
        /*@ proof { lemma_evict_fits(entries(self.inner@), self.max_size as int); } @*/
        while self.size > self.max_size as usize
        /*@ invariant self.size == dsize(entries(self.inner@)), self.max_size == old(self).max_size,
                evict(entries(self.inner@), self.max_size as int) == evict(entries(old(self).inner@), self.max_size as int)
            decreases self.inner@.len() @*/
        {
            /*@ proof { lemma_pop(self.inner@); } @*/
            if let Some(header) = self.inner.pop_back() {
                self.size -= header.0.len() + header.1.len() + 32;
            }
        }
    }
}

impl Default for DynamicTable {
    fn default() -> Self
    /*@ ensures ret.wf(), ret.tv() == (TV { dy: Seq::empty(), max: 4096 }) @*/
    {
        Self::with_size(4096)
    }
}
