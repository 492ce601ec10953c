use std::fmt;
use std::num::NonZeroU16;

#[derive(Debug, Default, Eq, PartialEq, Clone, Copy, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
pub enum IndentStyle {
    #[default]
    Tab,
    Space,
}
impl IndentStyle {
    pub const fn is_tab(&self) -> bool {
        matches!(self, IndentStyle::Tab)
    }
    pub const fn is_space(&self) -> bool {
        matches!(self, IndentStyle::Space)
    }
}
impl fmt::Display for IndentStyle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_tab() { "Tab" } else { "Space" })
    }
}

#[derive(Debug, Default, Eq, PartialEq, Clone, Copy, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
pub enum LineEnding {
    #[default]
    Lf,
    Crlf,
    Cr,
}
impl LineEnding {
    pub const fn as_str(&self) -> &'static str {
        match self {
            LineEnding::Lf => "\n",
            LineEnding::Crlf => "\r\n",
            LineEnding::Cr => "\r",
        }
    }
    pub const fn is_line_feed(&self) -> bool {
        matches!(self, LineEnding::Lf)
    }
}
impl fmt::Display for LineEnding {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            LineEnding::Lf => "LF",
            LineEnding::Crlf => "CRLF",
            LineEnding::Cr => "CR",
        })
    }
}

#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct IndentWidth(u8);
impl IndentWidth {
    pub const MIN: u8 = 0;
    pub const MAX: u8 = 24;
    pub fn value(&self) -> u8 {
        self.0
    }
}
impl Default for IndentWidth {
    fn default() -> Self {
        Self(2)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct IndentWidthFromIntError(pub u8);
impl TryFrom<u8> for IndentWidth {
    type Error = IndentWidthFromIntError;
    fn try_from(value: u8) -> Result<Self, Self::Error> {
        if value <= Self::MAX { Ok(Self(value)) } else { Err(IndentWidthFromIntError(value)) }
    }
}
impl fmt::Display for IndentWidth {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct LineWidth(NonZeroU16);
impl LineWidth {
    pub const MIN: u16 = 1;
    pub const MAX: u16 = 320;
    pub fn value(&self) -> u16 {
        self.0.get()
    }
}
impl Default for LineWidth {
    fn default() -> Self {
        Self(NonZeroU16::new(80).unwrap())
    }
}
#[derive(Debug, Clone, Copy)]
pub struct LineWidthFromIntError(pub u16);
impl TryFrom<u16> for LineWidth {
    type Error = LineWidthFromIntError;
    fn try_from(value: u16) -> Result<Self, Self::Error> {
        match NonZeroU16::try_from(value) {
            Ok(width) if value <= Self::MAX => Ok(Self(width)),
            _ => Err(LineWidthFromIntError(value)),
        }
    }
}
impl From<LineWidth> for u16 {
    fn from(value: LineWidth) -> Self {
        value.value()
    }
}
impl fmt::Display for LineWidth {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> crate::printer::PrinterOptions;
}
