pub mod engine;
pub mod gen;
pub mod layers;
pub mod mem;
pub mod props;
pub mod refm;
