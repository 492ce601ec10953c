pub use shim_macros::FieldNamesAsArray;

/// Only there to be imported together with the derive
pub trait FieldNamesAsArray {}
