pub mod leaf;
pub mod model;
pub mod rt;
