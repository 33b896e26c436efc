/*@@ impl vstd::std_specs::convert::FromSpecImpl<HuffmanError> for EncoderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: HuffmanError) -> Self { EncoderError::InvalidInput } } @@*/
use std::fmt;
use std::error;
use httlib_huffman::{EncoderError as HuffmanError};

#[derive(Debug, PartialEq)]
pub enum EncoderError {

    InvalidInput,

    InvalidIndex,

    InvalidPrefix,

    IntegerOverflow,
}

impl From<HuffmanError> for EncoderError {
    fn from(err: HuffmanError) -> Self
    /*@ ensures ret == EncoderError::InvalidInput @*/
    {
        match err {
            HuffmanError::InvalidInput => Self::InvalidInput
        }
    }
}

impl fmt::Display for EncoderError {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::InvalidInput => write!(fmt, "Invalid input character."),
            Self::InvalidIndex => write!(fmt, "Invalid index."),
            Self::InvalidPrefix => write!(fmt, "Invalid prefix."),
            Self::IntegerOverflow => write!(fmt, "Too many bytes."),
        }
    }
}

impl error::Error for EncoderError {}
