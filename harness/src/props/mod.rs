pub mod build;
pub mod clip;
pub mod convert;
pub mod files;
pub mod geo;
pub mod history;
pub mod normalize;
pub mod simplify;
pub mod pipeline;
pub mod scaling;
