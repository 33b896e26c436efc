/*@@ impl vstd::std_specs::convert::FromSpecImpl<io::Error> for EncoderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: io::Error) -> Self { EncoderError::Interrupted } } @@*/
use std::error;
use std::fmt;
use std::io;
use std::convert;

#[derive(Debug, PartialEq)]
pub enum EncoderError {

    DataOverflow,

    Interrupted,

    InvalidTag,
}

impl From<io::Error> for EncoderError {
    fn from(_err: io::Error) -> Self
    /*@ ensures ret == EncoderError::Interrupted @*/
    {
        Self::Interrupted
    }
}

impl From<convert::Infallible> for EncoderError {
    fn from(_: convert::Infallible) -> Self {
        unreachable!()
    }
}

impl fmt::Display for EncoderError {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::DataOverflow => write!(fmt, "Available data type size exceeded."),
            Self::Interrupted => write!(fmt, "Write operation interrupted."),
            Self::InvalidTag => write!(fmt, "Found tag with invalid number."),
        }
    }
}

impl error::Error for EncoderError {}
