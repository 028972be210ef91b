pub mod sym;
pub mod world;
pub mod sleeps;
pub mod driver;
pub mod periodic;
pub mod queue;
pub mod reenter;
pub mod instants;
pub mod floats;
mod crowd;
mod growth;
mod mixed;
#[cfg(feature = "sd")]
pub mod serial;
#[cfg(feature = "tt")]
pub mod paused;
