use std::fmt;
use std::iter::FusedIterator;

use crate::kinds::Language;
use crate::node::SyntaxToken;
use biome_text_size::{TextRange, TextSize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}

impl TriviaPieceKind {
    pub const fn is_newline(&self) -> bool {
        matches!(self, TriviaPieceKind::Newline)
    }
    pub const fn is_whitespace(&self) -> bool {
        matches!(self, TriviaPieceKind::Whitespace)
    }
    pub const fn is_comment(&self) -> bool {
        self.is_single_line_comment() || self.is_multiline_comment()
    }
    pub const fn is_single_line_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment)
    }
    pub const fn is_multiline_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::MultiLineComment)
    }
    pub const fn is_skipped(&self) -> bool {
        matches!(self, TriviaPieceKind::Skipped)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct TriviaPiece {
    pub(crate) kind: TriviaPieceKind,
    pub(crate) length: TextSize,
}

impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self {
        Self { kind, length: length.into() }
    }
    pub fn whitespace<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Whitespace, len)
    }
    pub fn newline<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::Newline, len)
    }
    pub fn single_line_comment<L: Into<TextSize>>(len: L) -> Self {
        Self::new(TriviaPieceKind::SingleLineComment, len)
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text_len(&self) -> TextSize {
        self.length
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    token: SyntaxToken<L>,
    is_leading: bool,
}

impl<L: Language> SyntaxTrivia<L> {
    pub(crate) fn new(token: SyntaxToken<L>, is_leading: bool) -> Self {
        Self { token, is_leading }
    }
    fn raw(&self) -> &[TriviaPiece] {
        let green = self.token.green();
        if self.is_leading { &green.0.leading } else { &green.0.trailing }
    }
    pub fn text_range(&self) -> TextRange {
        let full = self.token.text_range();
        let trimmed = self.token.text_trimmed_range();
        if self.is_leading {
            TextRange::new(full.start(), trimmed.start())
        } else {
            TextRange::new(trimmed.end(), full.end())
        }
    }
    pub fn text(&self) -> &str {
        let range = self.text_range() - self.token.text_range().start();
        &self.token.text()[range]
    }
    pub fn is_empty(&self) -> bool {
        self.raw().is_empty()
    }
    pub fn has_skipped(&self) -> bool {
        self.raw().iter().any(|p| p.kind.is_skipped())
    }
    pub fn pieces(&self) -> SyntaxTriviaPiecesIterator<L> {
        let mut offset = self.text_range().start();
        let pieces: Vec<_> = self
            .raw()
            .iter()
            .map(|piece| {
                let range = TextRange::at(offset, piece.length);
                offset = range.end();
                SyntaxTriviaPiece { token: self.token.clone(), piece: *piece, range }
            })
            .collect();
        SyntaxTriviaPiecesIterator { inner: pieces.into_iter() }
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next_back()
    }
}

impl<L: Language> fmt::Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("[")?;
        for (i, piece) in self.pieces().enumerate() {
            if i > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{piece:?}")?;
        }
        f.write_str("]")
    }
}

#[derive(Clone)]
pub struct SyntaxTriviaPiecesIterator<L: Language> {
    inner: std::vec::IntoIter<SyntaxTriviaPiece<L>>,
}
impl<L: Language> Iterator for SyntaxTriviaPiecesIterator<L> {
    type Item = SyntaxTriviaPiece<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxTriviaPiecesIterator<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.next_back()
    }
}
impl<L: Language> ExactSizeIterator for SyntaxTriviaPiecesIterator<L> {}
impl<L: Language> FusedIterator for SyntaxTriviaPiecesIterator<L> {}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    token: SyntaxToken<L>,
    piece: TriviaPiece,
    range: TextRange,
}

impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.piece.kind
    }
    pub fn text_range(&self) -> TextRange {
        self.range
    }
    pub fn text_len(&self) -> TextSize {
        self.piece.length
    }
    pub fn text(&self) -> &str {
        &self.token.text()[self.range - self.token.text_range().start()]
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.token.clone()
    }
    pub fn is_newline(&self) -> bool {
        self.piece.kind.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.piece.kind.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.piece.kind.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        self.piece.kind.is_skipped()
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
}

impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let name = match self.piece.kind {
            TriviaPieceKind::Newline => "Newline",
            TriviaPieceKind::Whitespace => "Whitespace",
            TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment => "Comments",
            TriviaPieceKind::Skipped => "Skipped",
        };
        // Long text is abbreviated
        let text = self.text();
        match (21..25).find(|i| text.len() >= 25 && text.is_char_boundary(*i)) {
            Some(i) => write!(f, "{name}({:?})", format!("{} ...", &text[..i])),
            None => write!(f, "{name}({text:?})"),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);

impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str {
        self.0.text()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn has_newline(&self) -> bool {
        self.0.kind().is_multiline_comment()
    }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
        &self.0
    }
}
