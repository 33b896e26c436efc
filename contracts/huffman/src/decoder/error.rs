use std::error;
use std::fmt;

#[derive(Debug, PartialEq)]
pub enum DecoderError {

    InvalidInput,
}

impl fmt::Display for DecoderError {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Self::InvalidInput => write!(fmt, "Invalid Huffman sequence."),
        }
    }
}

impl error::Error for DecoderError {}
