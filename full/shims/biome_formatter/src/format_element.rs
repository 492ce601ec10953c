use biome_rowan::{TextSize, TokenText};
use std::cell::Cell;
use std::ops::Deref;
use std::rc::Rc;

pub mod document;
pub mod tag;
pub use tag::*;

#[derive(Clone, Eq, PartialEq, Debug)]
pub enum FormatElement {
    Space,
    HardSpace,
    Line(LineMode),
    ExpandParent,
    StaticText { text: &'static str },
    DynamicText { text: Box<str>, source_position: TextSize },
    LocatedTokenText { source_position: TextSize, slice: TokenText },
    LineSuffixBoundary,
    Interned(Interned),
    BestFitting(BestFittingElement),
    Tag(Tag),
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum LineMode {
    SoftOrSpace,
    Soft,
    Hard,
    Empty,
}

#[derive(Copy, Clone, Eq, PartialEq, Debug, Default)]
pub enum PrintMode {
    Flat,
    #[default]
    Expanded,
}
impl PrintMode {
    pub const fn is_flat(self) -> bool {
        matches!(self, PrintMode::Flat)
    }
}

#[derive(Clone)]
pub struct Interned(Rc<[FormatElement]>);
impl Interned {
    pub fn new(content: Vec<FormatElement>) -> Self {
        Self(content.into())
    }
}
impl PartialEq for Interned {
    fn eq(&self, other: &Self) -> bool {
        Rc::ptr_eq(&self.0, &other.0)
    }
}
impl Eq for Interned {}
impl std::hash::Hash for Interned {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        Rc::as_ptr(&self.0).cast::<u8>().hash(state)
    }
}
impl std::fmt::Debug for Interned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Deref for Interned {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        &self.0
    }
}

/// The ways to print some content, from the flattest to the most expanded
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct BestFittingElement {
    variants: Rc<[Box<[FormatElement]>]>,
}
impl BestFittingElement {
    /// # Safety
    /// There must be at least two variants, each one an entry (between entry tags)
    pub unsafe fn from_vec_unchecked(variants: Vec<Box<[FormatElement]>>) -> Self {
        assert!(variants.len() >= 2, "best fitting needs a least expanded and an expanded variant");
        Self { variants: variants.into() }
    }
    pub fn variants(&self) -> &[Box<[FormatElement]>] {
        &self.variants
    }
    pub fn most_flat(&self) -> &[FormatElement] {
        &self.variants[0]
    }
    pub fn most_expanded(&self) -> &[FormatElement] {
        self.variants.last().unwrap()
    }
}

/// Whether printing the content is certain to break the line
pub trait FormatElements {
    fn will_break(&self) -> bool;
}
impl FormatElements for FormatElement {
    fn will_break(&self) -> bool {
        match self {
            FormatElement::ExpandParent => true,
            FormatElement::Tag(Tag::StartGroup(group)) => !group.mode().is_flat(),
            FormatElement::Line(mode) => matches!(mode, LineMode::Hard | LineMode::Empty),
            FormatElement::StaticText { text } => text.contains('\n'),
            FormatElement::DynamicText { text, .. } => text.contains('\n'),
            FormatElement::LocatedTokenText { slice, .. } => slice.contains('\n'),
            FormatElement::Interned(interned) => interned.will_break(),
            FormatElement::BestFitting(best) => best.most_flat().will_break(),
            FormatElement::LineSuffixBoundary
            | FormatElement::Space
            | FormatElement::HardSpace
            | FormatElement::Tag(_) => false,
        }
    }
}
impl FormatElements for [FormatElement] {
    fn will_break(&self) -> bool {
        let mut line_suffixes = 0;
        for element in self {
            match element {
                FormatElement::Tag(Tag::StartLineSuffix) => line_suffixes += 1,
                FormatElement::Tag(Tag::EndLineSuffix) => line_suffixes -= 1,
                element if line_suffixes == 0 && element.will_break() => return true,
                _ => {}
            }
        }
        false
    }
}

pub(crate) type GroupModeCell = Cell<GroupMode>;
