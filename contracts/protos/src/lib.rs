pub mod decoder;
pub mod encoder;
mod typ;

pub use decoder::*;
pub use encoder::*;
pub use typ::*;
