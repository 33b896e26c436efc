mod error;
mod reader;
mod speed;
pub mod table1;
pub mod table2;
pub mod table3;
pub mod table4;
pub mod table5;

pub use error::*;
pub use speed::*;
use reader::*;

pub fn decode(
    src: &[u8],
    dst: &mut Vec<u8>,
    speed: DecoderSpeed,
) -> Result<(), DecoderError>
/*@ ensures dec_post(src@, old(dst)@, final(dst)@, ret is Ok) @*/
{
    /*@ proof { lemma_gave_none(dst@, Seq::<bool>::empty()); assert(src@.take(0) =~= Seq::<u8>::empty()); assert(bits_of(src@.take(0)) =~= Seq::<bool>::empty()); } @*/
    let mut reader = DecodeReader::new(speed as usize);

    for byte in /*@ it_: @*/ src
    /*@ invariant reader.ready(), it_.seq() == src@.as_ref(), gave(old(dst)@, dst@, bits_of(src@.take(it_.index@)), reader.rest()) @*/
    {
        /*@ let ghost (d1, r1, i) = (dst@, reader.rest(), it_.index@);
        let ghost x = src@[i as int] as int;
        proof {
            lemma_prefix_trans(old(dst)@, d1);
            let b = r1 + bits(8, x);
            lemma_src_step(src@, i);
            assert(bits_of(src@.take(i + 1)) =~= enc_bits(d1.skip(old(dst)@.len() as int)) + b);
            assert(gave_prefix(src@, i, b));
            if dead(b) { lemma_refuse(src@, i, b); }
        } @*/
        reader.decode(*byte, dst)?;
        /*@ proof { lemma_gave_cat(old(dst)@, d1, dst@, bits_of(src@.take(i)), r1, bits(8, x), reader.rest()); } @*/
    }
    /*@ proof { assert(src@.take(src@.len() as int) =~= src@); lemma_prefix_trans(old(dst)@, dst@); lemma_finish(src@, old(dst)@, dst@, reader.rest()); } @*/
    reader.finalize(dst)?;

    Ok(())
}
