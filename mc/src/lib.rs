pub mod engine;
pub mod order;
pub mod ordinal;
pub mod setops;
pub mod val;
pub mod iters;
pub mod sys;
