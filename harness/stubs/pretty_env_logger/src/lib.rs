//! Stand-in: logging output is not part of any property.
pub fn init() {}
pub fn try_init() -> Result<(), ()> { Ok(()) }
pub fn init_timed() {}
