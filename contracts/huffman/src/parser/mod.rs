/*@@ use crate::tspec::*; @@*/
pub fn parse(data: &str) -> Vec<(u16, u32)>
    /*@ requires lines_ok(str_bytes(data))
        ensures ret@ == line_codes(str_bytes(data)) @*/
{
    /*@ let ghost ls = lines_of(str_bytes(data)); @*/
    let lines = data.lines();
    let mut codings = vec![];

    for line in /*@ it_: @*/ lines
        /*@ invariant it_.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> str_bytes(#[trigger] it_.seq()[i]) == ls[i], forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]),
            codings@.len() == it_.index@, forall|i: int| 0 <= i < codings@.len() ==> #[trigger] codings@[i] == line_code(ls[i]) @*/
    {
        /*@ proof { assert(line_ok(ls[it_.index@])); } @*/
        let coding = parse_line(line);
        codings.push(coding);
    }

    /*@ proof { assert(codings@ =~= line_codes(str_bytes(data))); } @*/
    codings
}

fn parse_line(line: &str) -> (u16, u32)
    /*@ requires line_ok(str_bytes(line))
        ensures ret == line_code(str_bytes(line)) @*/
{

    /*@ let ghost l = str_bytes(line); let ghost f = l.subrange(12, 45); @*/
    let mut msb = vec![];
    for &b in /*@ it_: @*/ &line.as_bytes()[12..45]
        /*@ invariant l.len() >= 59, it_.seq() == f.as_ref(), f == l.subrange(12, 45), forall|i: int| 12 <= i < 45 ==> is_bit(#[trigger] l[i]) || l[i] == 124 || l[i] == 32,
            msb@.len() == bit_count(f.take(it_.index@)) @*/
    {
        /*@ proof { assert(f.take(it_.index@ + 1) =~= f.take(it_.index@).push(b)); assert(b == l[12 + it_.index@]); assert(f.take(it_.index@ + 1).drop_last() =~= f.take(it_.index@)); } @*/
        match b {
            b'1' => msb.push(true),
            b'0' => msb.push(false),
            b'|' | b' ' => {}
            _ => panic!("unexpected byte; {:?}", b),
        }
    }
    /*@ proof { assert(f.take(33) =~= f); lemma_bit_count(f); lemma_boundary(line, 50); lemma_boundary(line, 59);
        let ghost h = l.subrange(50, 59); assert(all_ascii(h)) by { assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] < 128 by { assert(l[50 + i] < 128); } } } @*/

    let lsb = u32::from_str_radix(&line[50..59].trim().to_string(), 16).expect("Invalid hex");
    let len = msb.len() as u16;

    (len, lsb)
}
