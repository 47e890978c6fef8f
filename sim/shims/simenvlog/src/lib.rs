//! env_logger as the service sees it: several service processes share one simulation.
pub use env_logger::*;
pub fn init() {}
pub fn try_init() -> Result<(), std::fmt::Error> {
    Ok(())
}
