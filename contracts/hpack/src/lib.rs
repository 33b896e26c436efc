pub mod decoder;
pub mod encoder;
pub mod table;

pub use decoder::*;
pub use encoder::*;
use table::*;
