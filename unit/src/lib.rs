//! Internal data structures of the crate under test, compiled as part of the harness to reach
//! them; one at a time, so that a change to the shape of one leaves the others checkable.
#![allow(dead_code, unused, deprecated)]
extern crate self as wasmtimer;

#[path = "../../harness/src/sym.rs"]
pub mod sym;

#[cfg(feature = "u-heap")]
#[path = "/repo/src/timer/heap.rs"]
mod timer_heap;
#[cfg(feature = "u-heap")]
pub mod heap;

#[cfg(feature = "u-list")]
#[path = "/repo/src/timer/arc_list.rs"]
mod arc_list;
#[cfg(feature = "u-list")]
pub mod list;

// the whole crate
#[cfg(feature = "u-gone")]
#[path = "/repo/src/js.rs"]
mod js;
#[cfg(feature = "u-gone")]
#[path = "/repo/src/std.rs"]
pub mod std;
#[cfg(feature = "u-gone")]
#[path = "/repo/src/timer/mod.rs"]
pub(crate) mod timer;
#[cfg(feature = "u-gone")]
#[path = "/repo/src/tokio/mod.rs"]
pub mod tokio;
#[cfg(feature = "u-gone")]
#[path = "/repo/src/tokio_util/mod.rs"]
pub mod tokio_util;
#[cfg(feature = "u-gone")]
#[path = "../../harness/src/world.rs"]
pub mod world;
#[cfg(feature = "u-gone")]
pub mod gone;
