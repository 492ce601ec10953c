//! Clean-room stand-in for `biome_text_size`: byte offsets and half-open byte ranges.

use std::fmt;
use std::iter::Sum;
use std::num::TryFromIntError;
use std::ops::*;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextSize(u32);

impl TextSize {
    pub const fn new(raw: u32) -> Self {
        TextSize(raw)
    }
    pub fn of<T: TextLen>(text: T) -> TextSize {
        text.text_len()
    }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        self.0.checked_add(rhs.0).map(TextSize)
    }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        self.0.checked_sub(rhs.0).map(TextSize)
    }
}

impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize(raw)
    }
}
impl From<TextSize> for u32 {
    fn from(value: TextSize) -> Self {
        value.0
    }
}
impl TryFrom<usize> for TextSize {
    type Error = TryFromIntError;
    fn try_from(value: usize) -> Result<Self, TryFromIntError> {
        u32::try_from(value).map(TextSize)
    }
}
impl From<TextSize> for usize {
    fn from(value: TextSize) -> Self {
        value.0 as usize
    }
}

macro_rules! ops {
    ($($Op:ident $f:ident $OpA:ident $fa:ident $t:tt;)*) => {$(
        impl $Op<TextSize> for TextSize {
            type Output = TextSize;
            fn $f(self, rhs: TextSize) -> TextSize { TextSize(self.0 $t rhs.0) }
        }
        impl $Op<&TextSize> for TextSize {
            type Output = TextSize;
            fn $f(self, rhs: &TextSize) -> TextSize { TextSize(self.0 $t rhs.0) }
        }
        impl $Op<TextSize> for &TextSize {
            type Output = TextSize;
            fn $f(self, rhs: TextSize) -> TextSize { TextSize(self.0 $t rhs.0) }
        }
        impl $OpA<TextSize> for TextSize {
            fn $fa(&mut self, rhs: TextSize) { self.0 = self.0 $t rhs.0 }
        }
        impl $Op<TextSize> for TextRange {
            type Output = TextRange;
            fn $f(self, rhs: TextSize) -> TextRange {
                TextRange { start: self.start $t rhs, end: self.end $t rhs }
            }
        }
        impl $OpA<TextSize> for TextRange {
            fn $fa(&mut self, rhs: TextSize) { *self = *self $t rhs }
        }
    )*}
}
ops! {
    Add add AddAssign add_assign +;
    Sub sub SubAssign sub_assign -;
}

impl<A> Sum<A> for TextSize
where
    TextSize: Add<A, Output = TextSize>,
{
    fn sum<I: Iterator<Item = A>>(iter: I) -> TextSize {
        iter.fold(TextSize(0), Add::add)
    }
}

pub trait TextLen: Copy {
    fn text_len(self) -> TextSize;
}
impl TextLen for &'_ str {
    fn text_len(self) -> TextSize {
        TextSize(u32::try_from(self.len()).expect("text too long"))
    }
}
impl TextLen for &'_ String {
    fn text_len(self) -> TextSize {
        self.as_str().text_len()
    }
}
impl TextLen for char {
    fn text_len(self) -> TextSize {
        TextSize(self.len_utf8() as u32)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}

impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.0, self.end.0)
    }
}

impl TextRange {
    #[track_caller]
    pub fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start <= end, "invalid text range {start:?}..{end:?}");
        TextRange { start, end }
    }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, offset + len)
    }
    pub fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: TextSize) -> TextRange {
        TextRange { start: TextSize(0), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub fn len(self) -> TextSize {
        self.end - self.start
    }
    pub fn is_empty(self) -> bool {
        self.start == self.end
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start <= offset && offset < self.end
    }
    pub fn contains_inclusive(self, offset: TextSize) -> bool {
        self.start <= offset && offset <= self.end
    }
    pub fn contains_range(self, other: TextRange) -> bool {
        self.start <= other.start && other.end <= self.end
    }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = self.start.max(other.start);
        let end = self.end.min(other.end);
        (start <= end).then_some(TextRange { start, end })
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange { start: self.start.min(other.start), end: self.end.max(other.end) }
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange {
        self.cover(TextRange::empty(offset))
    }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(offset)?, end: self.end.checked_add(offset)? })
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(offset)?, end: self.end.checked_sub(offset)? })
    }
    pub fn ordering(self, other: TextRange) -> std::cmp::Ordering {
        if self.end <= other.start {
            std::cmp::Ordering::Less
        } else if other.end <= self.start {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    }
    pub fn sub_start(&self, amount: TextSize) -> Option<TextRange> {
        self.start.checked_sub(amount).map(|s| TextRange::new(s, self.end))
    }
    pub fn add_start(&self, amount: TextSize) -> TextRange {
        TextRange::new(self.start + amount, self.end)
    }
}

impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self[Range::<usize>::from(index)]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, index: TextRange) -> &str {
        &self.as_str()[index]
    }
}
impl IndexMut<TextRange> for str {
    fn index_mut(&mut self, index: TextRange) -> &mut str {
        &mut self[Range::<usize>::from(index)]
    }
}
impl<T> From<TextRange> for Range<T>
where
    T: From<TextSize>,
{
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
