//! Clean-room stand-in for `biome_rowan`: lossless syntax trees with typed wrappers.
//!
//! The green tree is immutable and shared between threads, the red tree is made on demand
//! and knows parents and absolute offsets.

pub mod ast;
mod factory;
mod green;
mod kinds;
mod node;
#[cfg(feature = "serde")]
mod serde_impls;
mod trivia;

pub use ast::*;
pub use biome_text_size::{TextLen, TextRange, TextSize};
pub use factory::*;
pub use green::{GreenElement, NodeCache};
pub use kinds::*;
pub use node::*;
pub use trivia::*;

/// `(&str, …)` text of a token or of a part of it, without borrowing the token
#[derive(Clone)]
pub struct TokenText {
    token: green::GreenToken,
    range: TextRange,
}

impl TokenText {
    pub(crate) fn new(token: green::GreenToken, range: TextRange) -> Self {
        Self { token, range }
    }
    pub fn text(&self) -> &str {
        &self.token.text()[self.range]
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn range(&self) -> TextRange {
        self.range
    }
    pub fn slice(mut self, range: TextRange) -> Self {
        assert!(range.end() <= self.range.len(), "slice out of bounds");
        self.range = range + self.range.start();
        self
    }
}
impl std::ops::Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl std::fmt::Debug for TokenText {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.text())
    }
}
impl std::fmt::Display for TokenText {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.text())
    }
}
impl PartialEq for TokenText {
    fn eq(&self, other: &Self) -> bool {
        self.text() == other.text()
    }
}
impl Eq for TokenText {}
impl AsRef<str> for TokenText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
