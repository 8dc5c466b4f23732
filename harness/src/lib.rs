pub mod dict;
#[macro_use]
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
