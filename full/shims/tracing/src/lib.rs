//! Stand-in for `tracing` that logs nothing. The real one accepts one subscriber per process, which
//! would allow one language server per process.

pub use shim_macros::identity as instrument;

#[macro_export]
macro_rules! trace { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { () } }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level(u8);
impl Level {
    pub const ERROR: Level = Level(1);
    pub const WARN: Level = Level(2);
    pub const INFO: Level = Level(3);
    pub const DEBUG: Level = Level(4);
    pub const TRACE: Level = Level(5);
    pub fn shim_number(self) -> u8 {
        self.0
    }
}

#[derive(Clone, Debug)]
pub struct Span;
impl Span {
    pub fn entered(self) -> EnteredSpan {
        EnteredSpan
    }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn enter(&self) -> EnteredSpan {
        EnteredSpan
    }
}

/// Like the real one not to be held over an await
#[derive(Debug)]
pub struct EnteredSpan;
impl EnteredSpan {
    pub fn exit(self) -> Span {
        Span
    }
}

pub trait Instrument: Sized {
    fn instrument(self, _: Span) -> Self {
        self
    }
}
impl<T> Instrument for T {}

pub mod subscriber {
    #[derive(Debug)]
    pub struct SetGlobalDefaultError;
    pub fn set_global_default<S>(_: S) -> Result<(), SetGlobalDefaultError> {
        Ok(())
    }
}
