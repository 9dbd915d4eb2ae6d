//! Shared parts of the property checks: choice-tape generation, worker processes, shrinking,
//! replay, evidence, tracked values and small executors.
pub mod json;
pub mod r#gen;
pub mod exec;
pub mod runner;
pub mod track;
pub mod types;

pub use r#gen::{Gen, Rng};
pub use runner::{Ctx, Fail, Prop, Res, Suite};
