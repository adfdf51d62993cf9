//! Stand-in for tokio: synchronisation, I/O traits and macros are tokio's own code; the executor,
//! sockets and clock are the simulator's.

pub use tokio_macros::{main, test};
pub use tokio_real::{io, join, pin, select, sync, try_join};

pub mod fs;
pub mod net;
pub mod runtime;
pub mod task;
pub mod time;

pub use task::spawn;
