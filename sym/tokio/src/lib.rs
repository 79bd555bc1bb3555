//! The real tokio, with the parts that reach the operating system replaced by objects the harness controls.
//!
//! Replaced: `spawn` (tasks are handed to the harness), `net` (sockets call back into the harness) and
//! `io::unix::AsyncFd` (readiness is decided by the harness).  Everything else, in particular all of `sync`,
//! is the real implementation.
pub use real_tokio::*;

pub mod net;
pub mod verif;

pub mod io {
	pub use real_tokio::io::*;
	pub mod unix;
}

pub mod task;

pub use task::spawn;
