pub mod secrets;
pub mod keys;
pub mod meter;
pub mod native;
pub mod programs;
pub mod rng;
pub mod svm;
pub mod old;
