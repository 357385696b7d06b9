//! Shared machinery of the harness crates: the property runner (engine) and tree generators.
pub mod engine;
pub mod tree;
pub mod gen;
pub use proptest;
pub use serde;
pub use serde_json;
