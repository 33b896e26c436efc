pub mod decoder;
pub mod encoder;
pub mod flattener;
pub mod parser;

pub use decoder::*;
pub use encoder::*;
