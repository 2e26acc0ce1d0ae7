//! The exploration engine shared by all checks.
pub mod child;
pub mod clock;
pub mod explore;
pub mod report;
pub mod threads;

pub use explore::{Explored, Run, Violation};
pub use report::Check;
