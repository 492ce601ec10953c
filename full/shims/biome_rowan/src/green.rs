use std::sync::Arc;

use crate::kinds::RawSyntaxKind;
use crate::trivia::TriviaPiece;
use biome_text_size::{TextRange, TextSize};

#[derive(Debug)]
pub struct GreenTokenData {
    pub kind: RawSyntaxKind,
    pub text: Box<str>,
    pub leading: Box<[TriviaPiece]>,
    pub trailing: Box<[TriviaPiece]>,
}

#[derive(Debug, Clone)]
pub struct GreenToken(pub(crate) Arc<GreenTokenData>);

pub(crate) fn pieces_len(pieces: &[TriviaPiece]) -> TextSize {
    pieces.iter().map(|p| p.length).sum()
}

impl GreenToken {
    pub fn new(
        kind: RawSyntaxKind,
        text: &str,
        leading: Vec<TriviaPiece>,
        trailing: Vec<TriviaPiece>,
    ) -> Self {
        debug_assert!(pieces_len(&leading) + pieces_len(&trailing) <= TextSize::of(text));
        GreenToken(Arc::new(GreenTokenData {
            kind,
            text: text.into(),
            leading: leading.into(),
            trailing: trailing.into(),
        }))
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn text_len(&self) -> TextSize {
        TextSize::of(&*self.0.text)
    }
    /// Range of the text without trivia, relative to the token
    pub fn trimmed(&self) -> TextRange {
        TextRange::new(
            pieces_len(&self.0.leading),
            self.text_len() - pieces_len(&self.0.trailing),
        )
    }
}

#[derive(Debug)]
pub struct GreenNodeData {
    pub kind: RawSyntaxKind,
    pub len: TextSize,
    pub slots: Box<[(TextSize, Option<GreenElement>)]>,
}

#[derive(Debug, Clone)]
pub struct GreenNode(pub(crate) Arc<GreenNodeData>);

impl GreenNode {
    pub fn new(kind: RawSyntaxKind, slots: impl IntoIterator<Item = Option<GreenElement>>) -> Self {
        let mut len = TextSize::from(0);
        let slots = slots
            .into_iter()
            .map(|slot| {
                let at = len;
                if let Some(element) = &slot {
                    len += element.text_len();
                }
                (at, slot)
            })
            .collect();
        GreenNode(Arc::new(GreenNodeData { kind, len, slots }))
    }
}

#[derive(Debug, Clone)]
pub enum GreenElement {
    Node(GreenNode),
    Token(GreenToken),
}

impl GreenElement {
    pub fn text_len(&self) -> TextSize {
        match self {
            GreenElement::Node(n) => n.0.len,
            GreenElement::Token(t) => t.text_len(),
        }
    }
    pub fn kind(&self) -> RawSyntaxKind {
        match self {
            GreenElement::Node(n) => n.0.kind,
            GreenElement::Token(t) => t.0.kind,
        }
    }
}

/// Upstream shares equal green nodes through this; sharing is not observable, so nothing is kept
#[derive(Debug, Default)]
pub struct NodeCache(());
