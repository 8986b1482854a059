//! Verification stand-in for tokio 1.35.1.
//!
//! `io/` (traits, `ReadBuf`, every `AsyncReadExt`/`AsyncWriteExt` future) and `macros/`
//! (`select!`, `join!`, ...) are copied unchanged from tokio 1.35.1, and `sync` is the real
//! crate.  The scheduler, `time` and `net` are small single-threaded models, driven by
//! `tokio::model`.
#![allow(unused_macros, unused_imports, dead_code, unreachable_pub, static_mut_refs, unknown_lints, unexpected_cfgs)]
#![allow(clippy::all)]

macro_rules! pass { ($($i:item)*) => { $($i)* } }
macro_rules! drop_items { ($($i:item)*) => {} }
macro_rules! cfg_io_util { ($($i:item)*) => { $($i)* } }
macro_rules! cfg_not_io_util { ($($i:item)*) => {} }
macro_rules! cfg_process { ($($i:item)*) => {} }
macro_rules! cfg_aio { ($($t:tt)*) => {} }
macro_rules! cfg_coop { ($($t:tt)*) => {} }
macro_rules! cfg_not_coop { ($($t:tt)*) => { $($t)* } }
macro_rules! cfg_macros { ($($i:item)*) => { $($i)* } }

#[macro_use]
#[path = "macros/ready.rs"]
mod ready_macro;
#[macro_use]
#[path = "macros/pin.rs"]
mod pin_macro;
#[macro_use]
#[path = "macros/select.rs"]
mod select_macro;
#[macro_use]
#[path = "macros/join.rs"]
mod join_macro;
#[macro_use]
#[path = "macros/try_join.rs"]
mod try_join_macro;

#[doc(hidden)]
pub mod macros {
    #[doc(hidden)]
    pub mod support {
        pub use crate::future::maybe_done::maybe_done;
        pub use crate::future::poll_fn;
        pub use std::future::Future;
        pub use std::pin::Pin;
        pub use std::task::Poll;
        /// tokio starts polling a `select!` at a random branch: any branch may come first.
        #[inline]
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::model::select_start(n)
        }
    }
}

#[doc(hidden)]
pub use tokio_macros::select_priv_clean_pattern;
#[doc(hidden)]
pub use tokio_macros::select_priv_declare_output_enum;

pub(crate) mod trace {
    #[inline]
    pub(crate) fn trace_leaf(_: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        std::task::Poll::Ready(())
    }
}

pub(crate) mod util {
    pub(crate) mod memchr {
        pub(crate) fn memchr(needle: u8, haystack: &[u8]) -> Option<usize> {
            haystack.iter().position(|b| *b == needle)
        }
    }
}

pub(crate) mod loom {
    pub(crate) mod sync {
        /// std's Mutex without poisoning; only used by `io::duplex` and `io::split`.
        #[derive(Debug)]
        pub(crate) struct Mutex<T>(std::sync::Mutex<T>);
        impl<T> Mutex<T> {
            pub(crate) fn new(t: T) -> Self {
                Self(std::sync::Mutex::new(t))
            }
            pub(crate) fn lock(&self) -> std::sync::MutexGuard<'_, T> {
                self.0.lock().unwrap()
            }
            pub(crate) fn try_lock(&self) -> Option<std::sync::MutexGuard<'_, T>> {
                self.0.try_lock().ok()
            }
        }
    }
}

pub(crate) mod future {
    pub use std::future::poll_fn;
    pub mod maybe_done;
}

// Prevents copied futures from being `Unpin` in the same way tokio does.
#[cfg(test)]
fn is_unpin<T: Unpin>() {}

pub mod io;
pub mod model;
pub mod net;
pub mod runtime;
pub use real_tokio::sync;
pub mod task;
pub mod time;

pub use task::spawn;
