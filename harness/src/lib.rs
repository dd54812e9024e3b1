pub mod abyss;
pub mod alloc;
pub mod big;
pub mod build;
pub mod churn;
pub mod deep;
pub mod green;
pub mod long;
pub mod mem;
pub mod misc;
pub mod nav;
pub mod registry;
pub mod rng;
pub mod runner;
pub mod sink;
pub mod term;
pub mod text;
pub mod thr;
pub mod tree;
pub mod util;
pub mod vast;
pub mod world;
