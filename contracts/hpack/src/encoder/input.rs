/*@@
impl vstd::std_specs::convert::FromSpecImpl<u32> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { EncoderInput::Indexed(v) } }
impl vstd::std_specs::convert::FromSpecImpl<(u32, Vec<u8>, u8)> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (u32, Vec<u8>, u8)) -> Self { EncoderInput::IndexedName(v.0, v.1, v.2) } }
impl vstd::std_specs::convert::FromSpecImpl<(Vec<u8>, Vec<u8>, u8)> for EncoderInput { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (Vec<u8>, Vec<u8>, u8)) -> Self { EncoderInput::Literal(v.0, v.1, v.2) } }
@@*/
#[derive(Debug)]
pub enum EncoderInput {

    Indexed(u32),

    IndexedName(u32, Vec<u8>, u8),

    Literal(Vec<u8>, Vec<u8>, u8),
}

impl From<u32> for EncoderInput {
    fn from(field: u32) -> Self
        /*@ ensures ret == EncoderInput::Indexed(field), @*/
    {
        EncoderInput::Indexed(field)
    }
}

impl From<(u32, Vec<u8>, u8)> for EncoderInput {
    fn from(field: (u32, Vec<u8>, u8)) -> Self
        /*@ ensures ret == EncoderInput::IndexedName(field.0, field.1, field.2), @*/
    {
        EncoderInput::IndexedName(field.0, field.1, field.2)
    }
}

impl From<(Vec<u8>, Vec<u8>, u8)> for EncoderInput {
    fn from(field: (Vec<u8>, Vec<u8>, u8)) -> Self
        /*@ ensures ret == EncoderInput::Literal(field.0, field.1, field.2), @*/
    {
        EncoderInput::Literal(field.0, field.1, field.2)
    }
}
