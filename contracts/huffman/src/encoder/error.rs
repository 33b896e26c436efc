use std::error;
use std::fmt;

#[derive(Debug, PartialEq)]
pub enum EncoderError {

    InvalidInput,
}

impl fmt::Display for EncoderError {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::InvalidInput => write!(fmt, "Invalid input character."),
        }
    }
}

impl error::Error for EncoderError {}
