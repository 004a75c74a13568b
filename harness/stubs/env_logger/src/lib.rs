//! A logger that is switched off: nothing to do.
pub fn init() {}
pub fn try_init() -> Result<(), ()> {
    Ok(())
}
