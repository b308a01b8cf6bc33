//! Monomorphic entry points over the public API of the crates under /repo.
//! Nothing here is ever executed: the functions only select which instances are exported.
pub mod kyber;
