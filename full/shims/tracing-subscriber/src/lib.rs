//! Stand-in for `tracing-subscriber` that logs nothing.

#[derive(Debug, Default)]
pub struct Registry;

pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<L: Layer<Self>>(self, _: L) -> Self {
            self
        }
    }
    impl SubscriberExt for super::Registry {}
    pub trait Layer<S>: Sized {
        fn with_filter<F>(self, _: F) -> Self {
            self
        }
    }
}
pub use layer::Layer;

pub mod util {
    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
    }
    impl SubscriberInitExt for super::Registry {}
}

pub mod prelude {
    pub use crate::layer::SubscriberExt;
    pub use crate::util::SubscriberInitExt;
}

pub mod filter {
    use std::collections::BTreeMap;
    use std::str::FromStr;

    /// What the filter lets through: by target, and for all others (0: nothing, 5: everything)
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Targets {
        pub levels: BTreeMap<String, u8>,
        pub default: u8,
    }
    #[derive(Debug)]
    pub struct ParseError;
    impl std::fmt::Display for ParseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid filter directive")
        }
    }
    impl std::error::Error for ParseError {}

    fn level(text: &str) -> Option<u8> {
        if let Ok(n) = text.parse::<u8>() {
            return (n <= 5).then_some(n);
        }
        Some(match text.to_ascii_lowercase().as_str() {
            "off" => 0,
            "" | "error" => 1,
            "warn" => 2,
            "info" => 3,
            "debug" => 4,
            "trace" => 5,
            _ => return None,
        })
    }

    impl Targets {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_target<T: Into<String>, L: crate::Verbosity>(mut self, target: T, level: L) -> Self {
            self.levels.insert(target.into(), level.verbosity());
            self
        }
        pub fn with_default<L: crate::Verbosity>(mut self, level: L) -> Self {
            self.default = level.verbosity();
            self
        }
        /// The level of a module
        pub fn level_of(&self, target: &str) -> u8 {
            self.levels.iter().filter(|(t, _)| target.starts_with(t.as_str())).max_by_key(|(t, _)| t.len()).map_or(self.default, |(_, level)| *level)
        }
    }
    impl FromStr for Targets {
        type Err = ParseError;
        fn from_str(text: &str) -> Result<Self, ParseError> {
            let mut out = Self::default();
            for part in text.split(',') {
                match part.split_once('=') {
                    Some((target, l)) if !l.contains('=') => {
                        out.levels.insert(target.into(), level(l).ok_or(ParseError)?);
                    }
                    Some(_) => return Err(ParseError),
                    None => match level(part) {
                        Some(l) => out.default = l,
                        None => {
                            out.levels.insert(part.into(), 5);
                        }
                    },
                }
            }
            Ok(out)
        }
    }
}

/// How much a level lets through
pub trait Verbosity {
    fn verbosity(self) -> u8;
}
impl Verbosity for tracing::Level {
    fn verbosity(self) -> u8 {
        self.shim_number()
    }
}

/// The filter that is in force on this thread
pub mod current {
    use std::cell::RefCell;
    thread_local! {
        static FILTER: RefCell<Option<crate::filter::Targets>> = const { RefCell::new(None) };
    }
    pub fn get() -> Option<crate::filter::Targets> {
        FILTER.with(|f| f.borrow().clone())
    }
    pub fn set(filter: Option<crate::filter::Targets>) {
        FILTER.with(|f| *f.borrow_mut() = filter)
    }
    pub fn note<L: 'static>(filter: &L) {
        if let Some(filter) = (filter as &dyn std::any::Any).downcast_ref::<crate::filter::Targets>() {
            set(Some(filter.clone()));
        }
    }
}

pub mod reload {
    use std::marker::PhantomData;

    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("cannot reload")
        }
    }
    pub struct Layer<L, S>(PhantomData<(L, S)>);
    impl<L, S> crate::Layer<S> for Layer<L, S> {}
    impl<L: 'static, S> Layer<L, S> {
        pub fn new(filter: L) -> (Self, Handle<L, S>) {
            crate::current::note(&filter);
            (Layer(PhantomData), Handle(PhantomData))
        }
    }
    pub struct Handle<L, S>(PhantomData<fn(L, S)>);
    impl<L: 'static, S> Handle<L, S> {
        pub fn reload(&self, filter: impl Into<L>) -> Result<(), Error> {
            crate::current::note(&filter.into());
            Ok(())
        }
    }
}

pub mod fmt {
    pub mod time {
        pub struct LocalTime;
        impl LocalTime {
            pub fn rfc_3339() -> Self {
                Self
            }
        }
    }

    pub mod writer {
        pub struct BoxMakeWriter;
        impl BoxMakeWriter {
            pub fn new<W>(_: W) -> Self {
                Self
            }
        }
    }

    pub trait MakeWriter<'a> {
        type Writer: std::io::Write;
        fn make_writer(&'a self) -> Self::Writer;
    }

    #[derive(Debug, Default)]
    pub struct TestWriter;

    pub struct Layer<S = crate::Registry>(std::marker::PhantomData<S>);
    pub fn layer<S>() -> Layer<S> {
        Layer(std::marker::PhantomData)
    }
    impl<S> crate::Layer<S> for Layer<S> {}
    impl<S> Layer<S> {
        pub fn pretty(self) -> Self {
            self
        }
        pub fn compact(self) -> Self {
            self
        }
        pub fn without_time(self) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_file(self, _: bool) -> Self {
            self
        }
        pub fn with_line_number(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_ids(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_names(self, _: bool) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_level(self, _: bool) -> Self {
            self
        }
        pub fn with_timer<T>(self, _: T) -> Self {
            self
        }
        pub fn with_writer<W>(self, _: W) -> Self {
            self
        }
    }
}
