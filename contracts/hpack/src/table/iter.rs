use super::Table;

#[derive(Clone, Copy)]
pub struct TableIter<'a> {
    pub index: u32,
    pub table: &'a Table<'a>,
}

impl<'a> Iterator for TableIter<'a> {
    type Item = (&'a [u8], &'a [u8]);

    fn next(&mut self) -> Option<(&'a [u8], &'a [u8])>
    /*@ requires old(self).table.wf(), old(self).index < u32::MAX
        ensures is_entry(old(self).table.tv(), old(self).index as int, ret), final(self).index == old(self).index + 1, final(self).table == old(self).table @*/
    {
        let res = self.table.get(self.index);
        self.index += 1;
        res
    }
}
