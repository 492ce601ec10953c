use biome_rowan::{TextRange, TextSize, TriviaPieceKind};

#[derive(Debug, Copy, Clone)]
pub struct Trivia {
    kind: TriviaPieceKind,
    range: TextRange,
    trailing: bool,
}
impl Trivia {
    pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self {
        Self { kind, range, trailing }
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text_range(&self) -> TextRange {
        self.range
    }
    pub fn trailing(&self) -> bool {
        self.trailing
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn offset(&self) -> TextSize {
        self.range.start()
    }
}
