//! Stand-in for `biome_formatter`: the intermediate representation, the builders, the comment
//! attachment and the printer, as the R formatter uses them. Written from the documented behaviour
//! of that crate; `probe` compares the R formatter's results on top of it with the repository's
//! own snapshots.

mod buffer;
pub mod builders;
pub mod comments;
pub mod format_element;
mod formatter;
mod macros;
mod options;
pub mod prelude;
pub mod printer;
pub mod separated;
pub mod token;
pub mod trivia;
pub mod verbatim;

pub use buffer::{
    Buffer, BufferExtensions, BufferSnapshot, Recorded, Recording, RemoveSoftLinesBuffer, VecBuffer,
};
pub use comments::{CommentStyle, Comments};
pub use format_element::{FormatElement, document::Document};
pub use formatter::{FormatState, Formatter, FormatterSnapshot};
pub use macros::{Argument, Arguments};
pub use options::*;
pub use token::FormatToken;

use biome_rowan::{
    Language, SyntaxError, SyntaxNode, SyntaxResult, SyntaxToken, SyntaxTriviaPiece, TextRange,
    TextSize,
};
use std::fmt;
use std::marker::PhantomData;

/// Positions of an already transformed source; the R formatter never transforms its source
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct TransformSourceMap(());

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum FormatError {
    SyntaxError,
    RangeError { input: TextRange, tree: TextRange },
    InvalidDocument(InvalidDocumentError),
    PoorLayout,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct InvalidDocumentError(pub &'static str);

pub type FormatResult<F> = Result<F, FormatError>;

impl fmt::Display for FormatError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            FormatError::SyntaxError => f.write_str("syntax error"),
            FormatError::RangeError { input, tree } => std::write!(
                f,
                "formatting range {input:?} is larger than syntax tree {tree:?}"
            ),
            FormatError::InvalidDocument(error) => std::write!(f, "invalid document: {}", error.0),
            FormatError::PoorLayout => f.write_str("poor layout"),
        }
    }
}
impl std::error::Error for FormatError {}
impl From<SyntaxError> for FormatError {
    fn from(_: SyntaxError) -> Self {
        FormatError::SyntaxError
    }
}
impl From<&SyntaxError> for FormatError {
    fn from(_: &SyntaxError) -> Self {
        FormatError::SyntaxError
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum PrintError {
    InvalidDocument(InvalidDocumentError),
}
impl fmt::Display for PrintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let PrintError::InvalidDocument(error) = self;
        std::write!(f, "invalid document: {}", error.0)
    }
}
impl std::error::Error for PrintError {}
impl From<PrintError> for FormatError {
    fn from(error: PrintError) -> Self {
        let PrintError::InvalidDocument(error) = error;
        FormatError::InvalidDocument(error)
    }
}
pub type PrintResult<T> = Result<T, PrintError>;

pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}

pub trait CstFormatContext: FormatContext {
    type Language: Language;
    type Style: CommentStyle<Language = Self::Language>;
    type CommentRule: FormatRule<comments::SourceComment<Self::Language>, Context = Self> + Default;
    fn comments(&self) -> &Comments<Self::Language>;
}

pub trait FormatLanguage {
    type SyntaxLanguage: Language;
    type Context: CstFormatContext<Language = Self::SyntaxLanguage>;
    type FormatRule: FormatRule<SyntaxNode<Self::SyntaxLanguage>, Context = Self::Context> + Default;

    fn transform(
        &self,
        _root: &SyntaxNode<Self::SyntaxLanguage>,
    ) -> Option<(SyntaxNode<Self::SyntaxLanguage>, TransformSourceMap)> {
        None
    }
    fn is_range_formatting_node(&self, _node: &SyntaxNode<Self::SyntaxLanguage>) -> bool {
        true
    }
    fn options(&self) -> &<Self::Context as FormatContext>::Options;
    fn create_context(
        self,
        root: &SyntaxNode<Self::SyntaxLanguage>,
        source_map: Option<TransformSourceMap>,
    ) -> Self::Context;
}

pub trait Format<Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()>;
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for &T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for &mut T {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + Format<Context>, Context> Format<Context> for Box<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (**self).fmt(f)
    }
}
impl<T: Format<Context>, Context> Format<Context> for Option<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Some(value) => value.fmt(f),
            None => Ok(()),
        }
    }
}
impl<T: Format<Context>, Context> Format<Context> for SyntaxResult<T> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self {
            Ok(value) => value.fmt(f),
            Err(error) => Err((*error).into()),
        }
    }
}
impl<Context> Format<Context> for () {
    fn fmt(&self, _: &mut Formatter<Context>) -> FormatResult<()> {
        Ok(())
    }
}

pub trait FormatRule<T> {
    type Context;
    fn fmt(&self, item: &T, f: &mut Formatter<Self::Context>) -> FormatResult<()>;
}
pub trait FormatRuleWithOptions<T>: FormatRule<T> {
    type Options;
    fn with_options(self, options: Self::Options) -> Self;
}
pub trait FormatWithRule<Context>: Format<Context> {
    type Item;
    fn item(&self) -> &Self::Item;
}

#[derive(Debug, Copy, Clone)]
pub struct FormatRefWithRule<'a, T, R: FormatRule<T>> {
    item: &'a T,
    rule: R,
}
impl<'a, T, R: FormatRule<T>> FormatRefWithRule<'a, T, R> {
    pub fn new(item: &'a T, rule: R) -> Self {
        Self { item, rule }
    }
}
impl<T, R: FormatRuleWithOptions<T, Options = O>, O> FormatRefWithRule<'_, T, R> {
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}
impl<T, R: FormatRule<T>> FormatWithRule<R::Context> for FormatRefWithRule<'_, T, R> {
    type Item = T;
    fn item(&self) -> &T {
        self.item
    }
}
impl<T, R: FormatRule<T>> Format<R::Context> for FormatRefWithRule<'_, T, R> {
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(self.item, f)
    }
}

#[derive(Debug, Clone)]
pub struct FormatOwnedWithRule<T, R: FormatRule<T>> {
    item: T,
    rule: R,
}
impl<T, R: FormatRule<T>> FormatOwnedWithRule<T, R> {
    pub fn new(item: T, rule: R) -> Self {
        Self { item, rule }
    }
    pub fn with_item(mut self, item: T) -> Self {
        self.item = item;
        self
    }
    pub fn into_item(self) -> T {
        self.item
    }
}
impl<T, R: FormatRuleWithOptions<T, Options = O>, O> FormatOwnedWithRule<T, R> {
    pub fn with_options(mut self, options: O) -> Self {
        self.rule = self.rule.with_options(options);
        self
    }
}
impl<T, R: FormatRule<T>> FormatWithRule<R::Context> for FormatOwnedWithRule<T, R> {
    type Item = T;
    fn item(&self) -> &T {
        &self.item
    }
}
impl<T, R: FormatRule<T>> Format<R::Context> for FormatOwnedWithRule<T, R> {
    fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> {
        self.rule.fmt(&self.item, f)
    }
}

/// Piece of trivia: a comment is printed without surrounding blanks
impl<Context, L: Language> Format<Context> for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let range = self.text_range();
        let trimmed = self.text().trim();
        let lead = self.text().len() - self.text().trim_start().len();
        let start = range.start() + TextSize::try_from(lead).unwrap();
        prelude::syntax_token_cow_slice(
            token::normalize_newlines(trimmed, ['\r', '\u{2028}', '\u{2029}']),
            &self.token(),
            start,
        )
        .fmt(f)
    }
}

#[derive(Debug, Clone)]
pub struct Formatted<Context> {
    document: Document,
    context: Context,
}
impl<Context> Formatted<Context> {
    pub fn new(document: Document, context: Context) -> Self {
        Self { document, context }
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn document(&self) -> &Document {
        &self.document
    }
    pub fn into_document(self) -> Document {
        self.document
    }
}
impl<Context: FormatContext> Formatted<Context> {
    pub fn print(&self) -> PrintResult<Printed> {
        self.print_with_indent(0)
    }
    pub fn print_with_indent(&self, indent: u16) -> PrintResult<Printed> {
        let options = self.context.options().as_print_options();
        printer::Printer::new(options).print_with_indent(&self.document, indent)
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Printed {
    code: String,
    range: Option<TextRange>,
    verbatim_ranges: Vec<TextRange>,
}
impl Printed {
    pub fn new(code: String, range: Option<TextRange>, verbatim_ranges: Vec<TextRange>) -> Self {
        Self { code, range, verbatim_ranges }
    }
    pub fn new_empty() -> Self {
        Self::new(String::new(), None, Vec::new())
    }
    pub fn range(&self) -> Option<TextRange> {
        self.range
    }
    pub fn as_code(&self) -> &str {
        &self.code
    }
    pub fn into_code(self) -> String {
        self.code
    }
    pub fn verbatim_ranges(&self) -> &[TextRange] {
        &self.verbatim_ranges
    }
    pub fn verbatim(&self) -> impl Iterator<Item = (TextRange, &str)> {
        self.verbatim_ranges.iter().map(|range| (*range, &self.code[*range]))
    }
}

pub fn format_node<L: FormatLanguage>(
    root: &SyntaxNode<L::SyntaxLanguage>,
    language: L,
) -> FormatResult<Formatted<L::Context>> {
    let (root, source_map) = match language.transform(root) {
        Some((root, source_map)) => (root, Some(source_map)),
        None => (root.clone(), None),
    };
    let context = language.create_context(&root, source_map);
    let format_node = FormatRefWithRule::new(&root, L::FormatRule::default());
    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::new(&mut state);
    crate::write!(buffer, [format_node])?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();
    Ok(Formatted::new(document, state.into_context()))
}

/// Formats a whole node found within a file, at the indentation the file has it at
pub fn format_sub_tree<L: FormatLanguage>(
    root: &SyntaxNode<L::SyntaxLanguage>,
    language: L,
) -> FormatResult<Printed> {
    // Blanks before the first token, towards the start of the file, up to a newline
    let mut tokens = std::iter::successors(root.first_token(), |token| token.prev_token());
    let first = tokens.next();
    let first = first.into_iter().flat_map(|token: SyntaxToken<_>| {
        token.leading_trivia().pieces().rev().collect::<Vec<_>>()
    });
    let rest = tokens.flat_map(|token| {
        let mut pieces: Vec<_> = token.trailing_trivia().pieces().rev().collect();
        pieces.extend(token.leading_trivia().pieces().rev());
        pieces
    });
    let mut trivia =
        first.chain(rest).filter(|piece| piece.is_newline() || piece.is_whitespace()).peekable();
    let mut indent = 0;
    while let Some(piece) = trivia.next() {
        if piece.is_newline() {
            break;
        }
        if trivia.peek().is_none_or(|next| next.is_newline()) {
            let width = language.options().indent_width().value().max(1);
            indent = u16::try_from(piece.text().len()).unwrap_or(u16::MAX) / u16::from(width);
            break;
        }
    }
    let formatted = format_node(root, language)?;
    let mut printed = formatted.print_with_indent(indent)?;
    printed.range = Some(root.text_range_with_trivia());
    Ok(printed)
}

pub fn format_range<L: FormatLanguage>(
    root: &SyntaxNode<L::SyntaxLanguage>,
    range: TextRange,
    _language: L,
) -> FormatResult<Printed> {
    let _ = PhantomData::<L>;
    Err(FormatError::RangeError { input: range, tree: root.text_range_with_trivia() })
}
