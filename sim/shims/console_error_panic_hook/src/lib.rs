//! The simulator reports panics itself.
pub fn set_once() {}
