//! socket2 0.5 by way of 0.6.
pub use new::*;
