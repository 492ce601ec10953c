//! The client's side of the protocol: its texts, and positions in them, by the specification.

use serde::{Deserialize, Serialize};
use tower_lsp::lsp_types::{Position, Range, TextEdit};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

pub const ENCODINGS: [Enc; 3] = [Enc::Utf8, Enc::Utf16, Enc::Utf32];

impl Enc {
    pub fn units(self, c: char) -> usize {
        match self {
            Enc::Utf8 => c.len_utf8(),
            Enc::Utf16 => c.len_utf16(),
            Enc::Utf32 => 1,
        }
    }
    pub fn air(self) -> aether_lsp_utils::proto::PositionEncoding {
        use aether_lsp_utils::proto::PositionEncoding as P;
        use biome_line_index::WideEncoding as W;
        match self {
            Enc::Utf8 => P::Utf8,
            Enc::Utf16 => P::Wide(W::Utf16),
            Enc::Utf32 => P::Wide(W::Utf32),
        }
    }
}

/// Every place in a text between two characters that a position can denote, with that position;
/// `\n` and `\r\n` end a line
pub fn places(text: &str, enc: Enc) -> Vec<(usize, Position)> {
    let mut out = Vec::new();
    let (mut line, mut col) = (0, 0);
    let mut chars = text.char_indices().peekable();
    while let Some((at, c)) = chars.next() {
        out.push((at, Position::new(line, col)));
        if c == '\r' && matches!(chars.peek(), Some((_, '\n'))) {
            chars.next();
            (line, col) = (line + 1, 0);
        } else if c == '\n' {
            (line, col) = (line + 1, 0);
        } else {
            col += enc.units(c) as u32;
        }
    }
    out.push((text.len(), Position::new(line, col)));
    out
}

pub fn offset(text: &str, enc: Enc, position: Position) -> Option<usize> {
    places(text, enc).into_iter().find(|(_, p)| *p == position).map(|(at, _)| at)
}

/// Replaces a range of the text
pub fn change(text: &str, enc: Enc, range: Range, new: &str) -> Result<String, String> {
    let at = |p| offset(text, enc, p).ok_or_else(|| format!("no such position in {text:?}: {p:?}"));
    let (from, to) = (at(range.start)?, at(range.end)?);
    if from > to {
        return Err(format!("backward range {range:?}"));
    }
    Ok(format!("{}{new}{}", &text[..from], &text[to..]))
}

/// Applies a list of edits: all positions are in the original text, edits do not overlap, inserts at
/// the same place come in their order
pub fn apply(text: &str, enc: Enc, edits: &[TextEdit]) -> Result<String, String> {
    let at = |p| offset(text, enc, p).ok_or_else(|| format!("no such position in {text:?}: {p:?}"));
    let mut spans = Vec::new();
    for (i, edit) in edits.iter().enumerate() {
        let (from, to) = (at(edit.range.start)?, at(edit.range.end)?);
        if from > to {
            return Err(format!("backward range {:?}", edit.range));
        }
        spans.push((from, i, to, &edit.new_text));
    }
    spans.sort();
    let mut out = String::new();
    let mut done = 0;
    for (from, _, to, new) in spans {
        if from < done {
            return Err(format!("edits overlap: {edits:?}"));
        }
        out.push_str(&text[done..from]);
        out.push_str(new);
        done = to;
    }
    out.push_str(&text[done..]);
    Ok(out)
}

pub fn normal(text: &str) -> String {
    text.replace("\r\n", "\n")
}

pub fn crlf(text: &str) -> String {
    normal(text).replace('\n', "\r\n")
}
