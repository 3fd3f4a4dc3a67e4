//! Property-based testing engine and exact arithmetic oracle. Knows nothing about `fixnum`.
pub mod case;
pub mod engine;
pub mod gen;
pub mod text;
pub mod wide;
