#![allow(invalid_runtime_symbol_definitions)]
pub mod choice;
pub mod driver;
pub mod fsim;
pub mod net;
pub mod rt;
pub use choice::{Choices, Record, Stream};
pub use driver::{Harness, Scenario, main_entry};
pub use rt::*;

use std::cell::UnsafeCell;
/// State of a model or recorded history: only the token holder touches it, with preemption off.
pub struct SimCell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for SimCell<T> {}
unsafe impl<T> Send for SimCell<T> {}
impl<T> SimCell<T> {
    pub const fn new(t: T) -> Self {
        Self(UnsafeCell::new(t))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        rt::atomically(|| f(unsafe { &mut *self.0.get() }))
    }
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::event(format!($($a)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { $crate::check_failed($class, format!($($a)*)) } };
}
