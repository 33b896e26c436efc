#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DecoderSpeed {

    OneBit = 1,

    TwoBits = 2,

    ThreeBits = 3,

    FourBits = 4,

    FiveBits = 5,
}

impl DecoderSpeed {

    pub fn known() -> Vec<DecoderSpeed> 
    /*@ ensures ret@ == seq![DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits] @*/
    {
        vec![
            DecoderSpeed::OneBit,
            DecoderSpeed::TwoBits,
            DecoderSpeed::ThreeBits,
            DecoderSpeed::FourBits,
            DecoderSpeed::FiveBits,
        ]
    }
}
