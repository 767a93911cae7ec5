//! The system under test as its callers use it: sources, callers and the wrapped iterator. Compiled WITH instrumentation
//! (it is where the crate's generics are monomorphised).
pub mod elems;
pub mod exec;
pub mod probe;
mod run;
pub use run::run;
/// the build with debug assertions and overflow checks (the simulator itself is built without)
pub const CHECKED: bool = cfg!(debug_assertions);
