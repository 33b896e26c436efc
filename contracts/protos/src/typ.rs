/*@@
impl vstd::std_specs::cmp::PartialEqSpecImpl for Typ { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Typ) -> bool { *self == *o } }
impl vstd::std_specs::convert::TryFromSpecImpl<u64> for Typ { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: u64) -> Result<Self, std::io::Error> { Ok(typ_of(v)) } }
pub assume_specification[ <Typ as PartialEq>::eq ](x: &Typ, y: &Typ) -> bool;
@@*/
use core::convert::TryFrom;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Typ {

    Varint = 0,

    Bit64 = 1,

    LengthDelimited = 2,

    Bit32 = 5,

    Unknown = -1,
}

impl TryFrom<u64> for Typ {
    type Error = std::io::Error;

    fn try_from(value: u64) -> Result<Self, Self::Error>
    /*@ ensures ret is Ok && ret->Ok_0 == typ_of(value) @*/
    {
        match value {
            0 => Ok(Typ::Varint),
            1 => Ok(Typ::Bit64),
            2 => Ok(Typ::LengthDelimited),
            5 => Ok(Typ::Bit32),
            _ => Ok(Typ::Unknown),
        }
    }
}
