//! Stand-in for biome's line index: offsets to line and column and back.

use biome_text_size::TextSize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WideEncoding {
    Utf16,
    Utf32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Wide {
    line: u32,
    start: u32,
    end: u32,
    utf16: u32,
}

impl Wide {
    /// How many units fewer than bytes the character has
    fn excess(&self, encoding: WideEncoding) -> u32 {
        let units = match encoding {
            WideEncoding::Utf16 => self.utf16,
            WideEncoding::Utf32 => 1,
        };
        self.end - self.start - units
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex {
    /// Offset of the start of every line
    pub newlines: Vec<TextSize>,
    wide: Vec<Wide>,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![TextSize::from(0)];
        let mut wide = Vec::new();
        let mut start = 0;
        for (at, c) in text.char_indices() {
            if c.len_utf8() > 1 {
                wide.push(Wide {
                    line: newlines.len() as u32 - 1,
                    start: (at - start) as u32,
                    end: (at - start + c.len_utf8()) as u32,
                    utf16: c.len_utf16() as u32,
                });
            }
            if c == '\n' {
                start = at + 1;
                newlines.push(TextSize::from(start as u32));
            }
        }
        LineIndex { newlines, wide }
    }

    pub fn line_col(&self, offset: TextSize) -> Option<LineCol> {
        let line = self.newlines.partition_point(|&start| start <= offset) - 1;
        let start = self.newlines.get(line)?;
        Some(LineCol { line: line as u32, col: (offset - *start).into() })
    }

    pub fn offset(&self, line_col: LineCol) -> Option<TextSize> {
        self.newlines
            .get(line_col.line as usize)
            .map(|start| *start + TextSize::from(line_col.col))
    }

    pub fn to_utf8(&self, encoding: WideEncoding, line_col: WideLineCol) -> LineCol {
        let mut col = line_col.col;
        for wide in self.on(line_col.line) {
            if col <= wide.start {
                break;
            }
            col += wide.excess(encoding);
        }
        LineCol { line: line_col.line, col }
    }

    pub fn to_wide(&self, encoding: WideEncoding, line_col: LineCol) -> Option<WideLineCol> {
        let mut col = line_col.col;
        for wide in self.on(line_col.line) {
            if wide.end > line_col.col {
                break;
            }
            col = col.checked_sub(wide.excess(encoding))?;
        }
        Some(WideLineCol { line: line_col.line, col })
    }

    fn on(&self, line: u32) -> &[Wide] {
        let from = self.wide.partition_point(|wide| wide.line < line);
        let to = self.wide.partition_point(|wide| wide.line <= line);
        &self.wide[from..to]
    }
}
