pub mod autocmp;
pub mod compiled;
pub mod ctx;
pub mod dynrt;
pub mod earley;
pub mod genr;
pub mod gram;
pub mod json;
pub mod lexgen;
pub mod props;
pub mod refdrv;
pub mod reflex;
pub mod reflr;
pub mod rng;
pub mod rt;
pub mod specref;
pub mod states;
pub mod sut;
