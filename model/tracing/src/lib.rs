//! Tracing without a subscriber: every macro and span is a no-op that still borrows its arguments.
pub use tracing_attributes::instrument;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
}

#[derive(Clone, Debug)]
pub struct Span;
pub struct Entered<'a>(std::marker::PhantomData<&'a ()>);
pub struct EnteredSpan;
impl Span {
    pub fn none() -> Span {
        Span
    }
    pub fn current() -> Span {
        Span
    }
    pub fn enter(&self) -> Entered<'_> {
        Entered(std::marker::PhantomData)
    }
    pub fn entered(self) -> EnteredSpan {
        EnteredSpan
    }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn record<Q: ?Sized, V>(&self, _: &Q, _: V) -> &Self {
        self
    }
}
pub trait Instrument: Sized {
    fn instrument(self, _: Span) -> Self {
        self
    }
    fn in_current_span(self) -> Self {
        self
    }
}
impl<T: Sized> Instrument for T {}

pub mod field {
    pub struct Empty;
    pub fn debug<T>(t: T) -> T {
        t
    }
    pub fn display<T>(t: T) -> T {
        t
    }
}

#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! event { ($($t:tt)*) => {{}} }
#[macro_export]
macro_rules! enabled { ($($t:tt)*) => { false } }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! warn_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! error_span { ($($t:tt)*) => { $crate::Span } }
