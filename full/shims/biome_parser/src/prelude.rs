pub use crate::ParseDiagnostic;
pub use crate::token_source::Trivia;
