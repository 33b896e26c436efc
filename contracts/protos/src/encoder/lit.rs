/*@@
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a bool> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a bool) -> Self { EncoderLit::Bool(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<bool>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<bool>) -> Self { EncoderLit::BoolVec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a i32> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a i32) -> Self { EncoderLit::Int32(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<i32>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<i32>) -> Self { EncoderLit::Int32Vec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a i64> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a i64) -> Self { EncoderLit::Int64(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<i64>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<i64>) -> Self { EncoderLit::Int64Vec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a u32> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a u32) -> Self { EncoderLit::UInt32(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<u32>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<u32>) -> Self { EncoderLit::UInt32Vec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a u64> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a u64) -> Self { EncoderLit::UInt64(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<u64>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<u64>) -> Self { EncoderLit::UInt64Vec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a f32> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a f32) -> Self { EncoderLit::Float(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<f32>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<f32>) -> Self { EncoderLit::FloatVec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a f64> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a f64) -> Self { EncoderLit::Double(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<f64>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<f64>) -> Self { EncoderLit::DoubleVec(v) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Vec<u8>> for EncoderLit<'a> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a Vec<u8>) -> Self { EncoderLit::Bytes(v) } }
@@*/
#[derive(Debug)]
pub enum EncoderLit<'a> {

    Bytes(&'a Vec<u8>),

    Bool(&'a bool),

    BoolVec(&'a Vec<bool>),

    Int32(&'a i32),

    Int32Vec(&'a Vec<i32>),

    Int64(&'a i64),

    Int64Vec(&'a Vec<i64>),

    UInt32(&'a u32),

    UInt32Vec(&'a Vec<u32>),

    UInt64(&'a u64),

    UInt64Vec(&'a Vec<u64>),

    Float(&'a f32),

    FloatVec(&'a Vec<f32>),

    Double(&'a f64),

    DoubleVec(&'a Vec<f64>),

    SInt32(&'a i32),

    SInt32Vec(&'a Vec<i32>),

    SInt64(&'a i64),

    SInt64Vec(&'a Vec<i64>),

    Fixed32(&'a u32),

    Fixed32Vec(&'a Vec<u32>),

    Fixed64(&'a u64),

    Fixed64Vec(&'a Vec<u64>),

    SFixed32(&'a i32),

    SFixed32Vec(&'a Vec<i32>),

    SFixed64(&'a i64),

    SFixed64Vec(&'a Vec<i64>),
}

impl<'a> From<&'a bool> for EncoderLit<'a> {
    fn from(v: &'a bool) -> Self
    /*@ ensures ret == EncoderLit::Bool(v) @*/
    {
        Self::Bool(v)
    }
}

impl<'a> From<&'a Vec<bool>> for EncoderLit<'a> {
    fn from(v: &'a Vec<bool>) -> Self
    /*@ ensures ret == EncoderLit::BoolVec(v) @*/
    {
        Self::BoolVec(v)
    }
}

impl<'a> From<&'a i32> for EncoderLit<'a> {
    fn from(v: &'a i32) -> Self
    /*@ ensures ret == EncoderLit::Int32(v) @*/
    {
        Self::Int32(v)
    }
}

impl<'a> From<&'a Vec<i32>> for EncoderLit<'a> {
    fn from(v: &'a Vec<i32>) -> Self
    /*@ ensures ret == EncoderLit::Int32Vec(v) @*/
    {
        Self::Int32Vec(v)
    }
}

impl<'a> From<&'a i64> for EncoderLit<'a> {
    fn from(v: &'a i64) -> Self
    /*@ ensures ret == EncoderLit::Int64(v) @*/
    {
        Self::Int64(v)
    }
}

impl<'a> From<&'a Vec<i64>> for EncoderLit<'a> {
    fn from(v: &'a Vec<i64>) -> Self
    /*@ ensures ret == EncoderLit::Int64Vec(v) @*/
    {
        Self::Int64Vec(v)
    }
}

impl<'a> From<&'a u32> for EncoderLit<'a> {
    fn from(v: &'a u32) -> Self
    /*@ ensures ret == EncoderLit::UInt32(v) @*/
    {
        Self::UInt32(v)
    }
}

impl<'a> From<&'a Vec<u32>> for EncoderLit<'a> {
    fn from(v: &'a Vec<u32>) -> Self
    /*@ ensures ret == EncoderLit::UInt32Vec(v) @*/
    {
        Self::UInt32Vec(v)
    }
}

impl<'a> From<&'a u64> for EncoderLit<'a> {
    fn from(v: &'a u64) -> Self
    /*@ ensures ret == EncoderLit::UInt64(v) @*/
    {
        Self::UInt64(v)
    }
}

impl<'a> From<&'a Vec<u64>> for EncoderLit<'a> {
    fn from(v: &'a Vec<u64>) -> Self
    /*@ ensures ret == EncoderLit::UInt64Vec(v) @*/
    {
        Self::UInt64Vec(v)
    }
}

impl<'a> From<&'a f32> for EncoderLit<'a> {
    fn from(v: &'a f32) -> Self
    /*@ ensures ret == EncoderLit::Float(v) @*/
    {
        Self::Float(v)
    }
}

impl<'a> From<&'a Vec<f32>> for EncoderLit<'a> {
    fn from(v: &'a Vec<f32>) -> Self
    /*@ ensures ret == EncoderLit::FloatVec(v) @*/
    {
        Self::FloatVec(v)
    }
}

impl<'a> From<&'a f64> for EncoderLit<'a> {
    fn from(v: &'a f64) -> Self
    /*@ ensures ret == EncoderLit::Double(v) @*/
    {
        Self::Double(v)
    }
}

impl<'a> From<&'a Vec<f64>> for EncoderLit<'a> {
    fn from(v: &'a Vec<f64>) -> Self
    /*@ ensures ret == EncoderLit::DoubleVec(v) @*/
    {
        Self::DoubleVec(v)
    }
}

impl<'a> From<&'a Vec<u8>> for EncoderLit<'a> {
    fn from(v: &'a Vec<u8>) -> Self
    /*@ ensures ret == EncoderLit::Bytes(v) @*/
    {
        Self::Bytes(v)
    }
}
