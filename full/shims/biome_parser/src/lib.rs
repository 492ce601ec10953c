//! Clean-room stand-in for `biome_parser`: parse events and the sink that turns them into a
//! lossless tree.

pub mod event;
pub mod prelude;
pub mod token_source;
pub mod tree_sink;

use biome_rowan::{AstNode, Language, SendNode, SyntaxNode, TextRange};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseDiagnostic {
    pub message: String,
    span: Option<TextRange>,
}
impl ParseDiagnostic {
    pub fn new(message: impl std::fmt::Display, span: Option<TextRange>) -> Self {
        Self { message: message.to_string(), span }
    }
    pub fn span(&self) -> Option<TextRange> {
        self.span
    }
}

#[derive(Clone, Debug)]
pub struct AnyParse {
    root: SendNode,
    diagnostics: Vec<ParseDiagnostic>,
}
impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<ParseDiagnostic>) -> AnyParse {
        AnyParse { root, diagnostics }
    }
    pub fn syntax<L: Language + 'static>(&self) -> SyntaxNode<L> {
        self.root.clone().into_node().expect("a tree of this language")
    }
    pub fn tree<N>(&self) -> N
    where
        N: AstNode,
        N::Language: 'static,
    {
        N::unwrap_cast(self.syntax::<N::Language>())
    }
    pub fn diagnostics(&self) -> &[ParseDiagnostic] {
        &self.diagnostics
    }
    pub fn into_diagnostics(self) -> Vec<ParseDiagnostic> {
        self.diagnostics
    }
    pub fn has_errors(&self) -> bool {
        !self.diagnostics.is_empty()
    }
}
